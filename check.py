#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py --replay <file>               show again what a VIOLATION line points to"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import run as R


def main():
    if sys.argv[1] == '--replay':
        from vlib import replay
        return replay.main(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from vlib import registry
    return registry.check(pid, tier)


if __name__ == '__main__':
    try:
        rc = main()
    except R.ToolError as e:
        print('ERROR ' + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
