#!/usr/bin/env python
"""check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N]
check.py --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('SIMFIT_CHILD') != '1':
    # a fresh interpreter with everything that differs between shells pinned
    e = dict(os.environ, SIMFIT_CHILD='1', PYTHONHASHSEED=os.environ.get(
        'SIMFIT_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] +
              sys.argv[1:], e)
sys.path.insert(0, HERE)
from simfit import env  # noqa


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int)
    p.add_argument('--dump')
    p.add_argument('--replay')
    p.add_argument('--selftest', action='store_true')
    a = p.parse_args()
    env.load()
    from simfit import engine
    if a.selftest:
        print('ready:', env.REPO)
        return 0
    if a.replay:
        return engine.replay(a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    return engine.check(a.property, a.seed, tier, a.workers, a.runs,
                        dump=a.dump)


if __name__ == '__main__':
    sys.stdout.flush()
    c = main()
    sys.stdout.flush()
    os._exit(c)
