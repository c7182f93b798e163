#!/usr/bin/env python
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
[--only SCENARIO]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from nrwalv import core  # noqa: E402


def selftest():
    """All machinery imports and the oracle computes."""
    core.load_nrwal()
    from nrwalv import oracle
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nrwalv')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('nrwalv.' + f[:-3])
    assert oracle.ev_eval('2 - 3 - np.abs(-4)', None).v == -5
    print('ok')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    if sys.argv[1:] == ['--selftest']:
        return selftest()
    a = ap.parse_args()
    core.load_nrwal()
    mod = importlib.import_module('nrwalv.' + a.prop.lower())
    if a.replay:
        return core.replay(a.prop, mod, a.replay)
    return core.run_property(a.prop, mod, a.tier, a.seed, a.only)


if __name__ == '__main__':
    sys.stdout.flush()
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
