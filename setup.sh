#!/bin/bash
# builds the symbolic execution engine into /verif/bin (ignored by git)
set -e
cd "$(dirname "$0")"
bash symx/build.sh "$PWD/bin/symx"
