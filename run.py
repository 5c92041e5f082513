#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decide one property. Exit 0: held; 1: VIOLATION printed; 2: no verdict."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vcore

SUITES = {'D': 'loader', 'W': 'window', 'K': 'propagator', 'A': 'attitude', 'C': 'covariance', 'U': 'update',
          'S': 'system', 'G': 'geometry', 'F': 'config', 'M': 'maths'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = vcore.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module('suite_' + SUITES[prop[0]])
        getattr(mod, 'check_' + prop)(ctx)
        return ctx.finish()
    except vcore.CheckError as e:
        vcore.log('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
