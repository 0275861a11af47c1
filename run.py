#!/usr/bin/env python3
"""Runs the check of one property: run.py C01.

VERIF_TIER (quick or thorough) and VERIF_SEED choose how much is explored and what.
Exit 0: everything explored conforms. Exit 1 and a VIOLATION line: it does not.
Exit 2: the check could not be carried out.
"""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import check  # noqa: E402

if __name__ == '__main__':
    sys.exit(check.main(sys.argv[1:]))
