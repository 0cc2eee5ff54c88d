#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import importlib
    area = None
    for name in ('checks_pie', 'checks_io', 'checks_grid', 'checks_num', 'checks_mc'):
        try:
            mod = importlib.import_module(name)
        except ModuleNotFoundError as ex:
            if ex.name == name:
                continue
            raise
        if pid in mod.CHECKS:
            area = mod.CHECKS[pid]
    if area is None:
        print('unknown property', pid)
        return 2
    vlib.build()
    with vlib.Scratch() as w:
        ck = vlib.Check(pid, tier)
        area(ck, w)
        return ck.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except vlib.Machinery as ex:
        print('MACHINERY FAILURE:', ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
