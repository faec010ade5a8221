import argparse
import importlib
import os
import sys

from . import core

MODULES = ['vts_checks', 'parse_checks', 'qe_checks', 'grf_checks']


def all_checks():
    out = {}
    for m in MODULES:
        for c in importlib.import_module('pbt.' + m).CHECKS:
            out[c.id] = c
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    a.add_argument('--replay')
    a.add_argument('--cases', type=int)
    a.add_argument('--shards', type=int)
    o = a.parse_args()
    if o.id == 'list':
        for k, c in sorted(all_checks().items()):
            print(k, type(c).__name__)
        return 0
    check = all_checks()[o.id]
    if o.cases:
        check.quick = check.thorough = o.cases
    if o.shards:
        check.shards = o.shards
    if o.replay:
        return core.replay_file(check, o.replay)
    return core.run_check(check, o.tier, o.seed)


if __name__ == '__main__':
    sys.exit(main())
