#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from driver import main
from props import PROPS
sys.exit(main(PROPS, sys.argv))
