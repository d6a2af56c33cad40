#!/usr/bin/env python3
"""Write, and verify, planted bugs under /verif/seeded.

    seed.py write FILE.py ...     (each defines SEEDS = [dict(...)])
    seed.py verify ID ...         demo both ways + the property's check
    seed.py tests ID ...          the repository's stable tests with the patch
"""
import json
import os
import os.path as osp
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = osp.dirname(osp.dirname(osp.abspath(__file__)))
SEEDED = osp.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Run with cwd = repository.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MPLBACKEND=Agg
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 9
timeout 280 /opt/venv/bin/python "$D/demo.py" "$T"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def copy(tag):
    d = f'/tmp/seedcopy-{tag}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d}')
    sh('git checkout -q -- . && git clean -fdq', cwd=d)
    return d


def write(path):
    for s in runpy.run_path(path)['SEEDS']:
        out = osp.join(SEEDED, s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        d = copy(s['id'])
        for f, old, new in s['edits']:
            p = osp.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=d).stdout
        open(osp.join(out, 'patch.diff'), 'w').write(diff)
        open(osp.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(osp.join(out, 'demo.sh'), 0o755)
        open(osp.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        if 'demo_common' in s['demo']:
            shutil.copy(osp.join(V, 'tools/demo_common.py'), out)
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(osp.join(out, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(d)
        print('wrote', s['id'])


def verify(id, check=True):
    out = osp.join(SEEDED, id)
    meta = json.load(open(osp.join(out, 'meta.json')))
    d = copy(id)
    a = sh(f'bash {out}/demo.sh', cwd=d)
    ap = sh(f'git apply {out}/patch.diff', cwd=d)
    b = sh(f'bash {out}/demo.sh', cwd=d)
    ok = a.returncode == 0 and ap.returncode == 0 and b.returncode != 0
    res = [f'{id}: demo clean={a.returncode} patched={b.returncode} '
           f'apply={ap.returncode} {"OK" if ok else "BAD"}']
    if not ok:
        res += [a.stdout[-1500:], ap.stdout[-500:], b.stdout[-1500:]]
    if check:
        c = sh(f'SIM_REPO={d} SIM_EVIDENCE=/tmp/seedev-{id} ./check.py '
               f'{meta["property"]}', cwd=V)
        last = [x for x in c.stdout.splitlines() if x.startswith(
            ('violation', 'minimised', 'VIOLATION', 'HARNESS'))]
        res.append(f'   check exit {c.returncode}: ' + ' | '.join(
            x[:150] for x in last[-3:]))
        shutil.rmtree(f'/tmp/seedev-{id}', ignore_errors=True)
    shutil.rmtree(d)
    print('\n'.join(res), flush=True)
    return ok


def tests(id):
    out = osp.join(SEEDED, id)
    d = copy(id + '-t')
    sh(f'git apply {out}/patch.diff', cwd=d)
    rep = f'/tmp/seedrep-{id}'
    os.makedirs(rep, exist_ok=True)
    lsq = ('tests/test_runners/test_quantization_loop.py::'
           'TestLSQEpochBasedLoop')
    pt = ('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300'
          ' --continue-on-collection-errors -o junit_family=xunit2')
    env = (f'export PATH=/opt/venv/bin:$PATH PYTHONPATH={d} '
           'PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=2 '
           f'MPLBACKEND=Agg HF_HUB_OFFLINE=1 TMPDIR={rep}; ip link set lo up;')
    sh(f"unshare -rn bash -c '{env} {pt} --junitxml={rep}/lsq.xml {lsq}; "
       f"{pt} --junitxml={rep}/main.xml --deselect {lsq} tests'", cwd=d)
    r = sh(f'/usr/bin/python3 /opt/vp/results.py {rep}/o.json '
           f'"junit:{rep}/*.xml"')
    got = json.load(open(f'{rep}/o.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = sorted(stable - set(got['passed']))
    print(f'{id}: {"TESTS OK" if not bad else "TESTS FAIL"} {bad[:5]}',
          flush=True)
    shutil.rmtree(d)
    shutil.rmtree(rep)
    return not bad


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'write':
        for a in args:
            write(a)
    elif cmd == 'verify':
        for a in args:
            verify(a)
    elif cmd == 'tests':
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(tests, args))
