"""
check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--workers N] [--test NAME]
"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PILO_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings  # noqa: E402
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--test', action='append')
    ap.add_argument('--stats', action='store_true')
    args = ap.parse_args()
    from pbt import engine
    import pilo
    got = os.path.realpath(pilo.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        print('pilo comes from {0}'.format(got), file=sys.stderr)
        return 2
    mod = importlib.import_module('pbt.props.' + args.prop.lower())
    if args.replay:
        return engine.replay(mod, args.replay)
    workers = args.workers or min(8, os.cpu_count() or 1)
    code, ev = engine.run_property(mod, args.tier, args.seed, workers, args.scale, args.test)
    cov = ev['coverage']
    print('{0} {1} seed={2}: {3} cases, {4} distinct non-trivial, {5}s, exit {6}'.format(
        args.prop, args.tier, args.seed, cov['evaluations'], cov['distinct_nontrivial'],
        ev['wall_s'], code))
    if args.stats:
        for k, v in cov['per_test'].items():
            print('   test', k, v)
        for k, v in cov['classes'].items():
            print('  ', k, v)
        print('   discarded', cov['discarded'])
    return code


if __name__ == '__main__':
    sys.exit(main())
