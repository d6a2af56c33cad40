"""Determinism of the simulator: the same seed gives the same traces.

    tools/selftest.py [--runs N] [--seed S] [ID ...]

runs every check twice in fresh processes, with different numbers of workers
and different hash seeds, and compares the digests over all traces.
"""
import argparse
import json
import os
import os.path as osp
import re
import subprocess
import sys
import tempfile

V = osp.dirname(osp.dirname(osp.abspath(__file__)))


def digest(pid, runs, seed, workers, hashseed):
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), SIM_EVIDENCE=d)
        p = subprocess.run(
            [osp.join(V, 'check.py'), pid, '--runs', str(runs), '--seed',
             str(seed), '--workers', str(workers)],
            env=env, capture_output=True, text=True)
    m = re.findall(r'digest (\w+)', p.stdout)
    return p.returncode, m[-1] if m else None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--runs', type=int, default=24)
    ap.add_argument('--seed', type=int, default=77)
    a = ap.parse_args()
    man = json.load(open(osp.join(V, 'MANIFEST.json')))
    ids = a.ids or [c['property'] for c in man['checks']]
    bad = 0
    for pid in ids:
        x = digest(pid, a.runs, a.seed, 8, 1)
        y = digest(pid, a.runs, a.seed, 3, 2)
        ok = x == y and x[1] is not None
        bad += not ok
        print(pid, 'same' if ok else f'DIFFERENT {x} {y}', flush=True)
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
