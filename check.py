#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vsa import core    # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
