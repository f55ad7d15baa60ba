#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]"""
import os
import sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sx import driver

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rc = driver.run(prop, prop.lower(), tier)
    sys.stdout.flush()
    os._exit(rc)
