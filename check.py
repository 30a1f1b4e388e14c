#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import report
if __name__ == "__main__":
    sys.exit(report.main(sys.argv[1:]))
