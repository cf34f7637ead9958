#!/usr/bin/env python3-vt
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
sys.exit(runner.main(sys.argv[1:]))
