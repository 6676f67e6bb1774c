#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of the code in /repo."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
from vlib import Check, Machinery
import families


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier, seed)
    try:
        families.CHECKS[prop](c)
    except Machinery as e:
        # failing clauses found before the machinery gave up still count
        if c.failures:
            print(str(e)[-2000:])
            return c.finish()
        print('ERROR ' + str(e)[-8000:])
        return 2
    finally:
        if sys.exc_info()[0]:
            shutil.rmtree(c.tmp, ignore_errors=True)
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
