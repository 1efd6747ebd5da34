#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp.core import main
sys.exit(main(sys.argv[1:]))
