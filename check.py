#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough] [-v] [--only=harness] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.argv[0] = os.path.join(HERE, 'check.py')
os.chdir(os.path.dirname(os.path.abspath(__file__)))

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from pyvc import run    # noqa: E402

if __name__ == '__main__':
    sys.exit(run.main())
