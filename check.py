#!/usr/bin/env python3
"""check.py ID.. [--thorough] [--keep]: decides properties of /repo's working tree.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check failed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common
import checks

if __name__ == '__main__':
    sys.exit(common.main(checks.CHECKS))
