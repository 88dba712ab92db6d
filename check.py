#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the code in /repo."""
import sys, os, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *
from vlib import registry


def main():
    prop = sys.argv[1]
    check = Check(prop)
    try:
        try:
            registry.run(prop, check)
        except CodeDied as e:
            check.violation('process: ' + e.what, e.data)
        except Enough:
            pass
        except Machinery as e:
            if not check.violations:
                raise
            print('the check ended early: %s' % e)
        sys.exit(check.finish())
    except Machinery as e:
        print('CHECK FAILED property=%s: %s' % (prop, e))
        sys.exit(2)


if __name__ == '__main__':
    main()
