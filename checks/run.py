#!/usr/bin/env python3
# Usage: run.py <property id> [quick|thorough]
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    c = vlib.Check(prop, tier)
    try:
        mod.run(c)
    except vlib.CheckError as e:
        print('CHECK-ERROR: %s' % e, file=sys.stderr)
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    sys.exit(c.finish())


main()
