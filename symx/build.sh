#!/bin/bash
# builds the engine; usage: build.sh OUT
set -e
cd "$(dirname "$0")"
out=${1:-../bin/symx}; mkdir -p "$(dirname "$out")"
L=$(command -v llvm-config-18 || command -v llvm-config)
F="-std=c++17 -O2 -g1 -fno-rtti -I$($L --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
t=$(mktemp -d)
g++ $F -c expr.cpp -o $t/e.o & g++ $F -c symx.cpp -o $t/s.o & wait
g++ $t/e.o $t/s.o -o "$out.$$" -L$($L --libdir) -lLLVM-18 -lz3 && mv "$out.$$" "$out"
rm -f $t/e.o $t/s.o; rmdir $t
