import importlib
import json
import os
import sys
import warnings
warnings.simplefilter('ignore')
import py39_compat  # noqa

from . import harness

CHECKS = os.path.join(harness.VERIF, 'checks')


def load(prop):
    sys.path.insert(0, harness.VERIF)
    for fn in sorted(os.listdir(CHECKS)):
        if fn.lower().startswith(prop.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('checks.' + fn[:-3]).S
    raise SystemExit('no check for ' + prop)


def main():
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            v = json.load(f)
        sys.exit(harness.replay(load(v['property']), v))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    S = load(prop)
    only = os.environ.get('VC_ONLY')
    if only:
        S.cases = [c for c in S.cases if only in c.name]
    rc = harness.run_suite(S, tier, seed)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
