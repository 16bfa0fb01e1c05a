#!/usr/bin/env python3-vt
"""run.py C01 [--tier quick|thorough]   decide one property
   run.py --replay replay/C01.json      replay a reported violation on the real code"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symx.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
