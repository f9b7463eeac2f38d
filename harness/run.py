import argparse
import os
import sys

from harness import core
from harness.registry import PROPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.replay)
    p = PROPS[a.property]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    n = a.cases or p[tier]
    cap = 480 if tier == 'quick' else 780
    return core.run_property(a.property, p['module'], tier, a.seed, n, 1 if a.cases else p['need'], p['rule'],
                             p['assumptions'], cap)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
