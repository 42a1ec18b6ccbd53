#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree. See DESIGN.md."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from checks import REGISTRY


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in REGISTRY:
        print('usage: check.py ' + '|'.join(sorted(REGISTRY)))
        return 2
    try:
        vf.ensure_built()
        return REGISTRY[sys.argv[1]](sys.argv[1])
    except vf.Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (sys.argv[1], e))
        return 2
    finally:
        vf.cleanup()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
