#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current source tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(50000)

from hgqsa.main import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
