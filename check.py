#!/usr/bin/env python3
"""check.py <property-id>|--list|--setup [--thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    from checks import REGISTRY
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    if '--list' in sys.argv:
        print('\n'.join(sorted(REGISTRY)))
        return 0
    if '--setup' in sys.argv:
        from vf import ir
        ir.tool()
        return 0
    pid = a[0]
    from vf.report import Report
    mod, fn = REGISTRY[pid]
    r = Report(pid)
    try:
        getattr(importlib.import_module('checks.' + mod), fn)(r)
    except Exception:
        traceback.print_exc()
        print('error: the check could not complete')
        if r.viol:
            rc = r.finish()
            return rc if rc == 1 else 3
        return 3
    return r.finish()


if __name__ == '__main__':
    sys.exit(main())
