#!/usr/bin/env python3
"""python3 check.py C01 [--replay FILE]: see MANIFEST.json."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1].upper(), sys.argv[2:]))
