#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import sys
import os
import time
import json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks import common, registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    try:
        findings, cov, level, assumptions = registry.run(pid, tier)
    except common.CheckError as ex:
        print('ERROR property=%s %s' % (pid, ex))
        return 2
    return common.finish(pid, tier, findings, cov, level, t0, assumptions)


if __name__ == '__main__':
    sys.exit(main())
