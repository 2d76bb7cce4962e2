#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]: decide one property on /repo's working tree.

exit 0 held on everything explored, 1 violated (VIOLATION line), 3 machinery failure.
"""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plans = importlib.import_module('plans')
    r = engine.Run(a.prop, tier, seed)
    try:
        getattr(plans, a.prop)(r)
        rc = r.finish()
    except engine.MachineryError as e:
        print('MACHINERY ERROR:', e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if a.keep:
            print('scratch', r.scratch)
        else:
            r.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
