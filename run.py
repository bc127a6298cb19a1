import os, sys, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.selftest:
        from pyvc import selftest
        sys.exit(selftest.main())
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import importlib
    from pyvc import report
    mod = importlib.import_module('checks.' + a.id.lower())
    rc = report.main(mod, a.tier, seed, a.replay)
    sys.stdout.flush()
    os._exit(rc)


main()
