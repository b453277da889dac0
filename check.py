#!/usr/bin/env python3-vt
import sys, os, argparse, importlib
sys.setrecursionlimit(20000)
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, 'engine'), os.path.join(D, 'contracts'), os.path.join(D, 'native')]
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--no-native', action='store_true'); ap.add_argument('--native-only', action='store_true')
    a = ap.parse_args()
    import vrun, build
    m = importlib.import_module(a.id.lower())
    run = vrun.Run(a.id, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        if not a.native_only: m.verify(run)
        if not a.no_native and hasattr(m, 'native'): m.native(run)
    except build.BuildError as e:
        print('BUILD FAILED: %s' % e); build.cleanup(); return 2
    return run.finish(getattr(m, 'LEVEL', 'proof'))
sys.exit(main())
