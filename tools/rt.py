#!/usr/bin/env python3
"""Run the repository's tests below the given paths; report stable tests that
do not pass. (Developer tool.)  rt.py [-r REPO] PATH..."""
import json, os, subprocess, sys, tempfile, shutil
a = sys.argv[1:]
repo = '/repo'
if a[0] == '-r':
    repo, a = a[1], a[2:]
d = tempfile.mkdtemp()
subprocess.run(
    f"unshare -rn bash -c 'ip link set lo up; cd {repo}; export PATH=/opt/venv/bin:$PATH PYTHONPATH={repo} "
    f"PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=2 MPLBACKEND=Agg HF_HUB_OFFLINE=1 TMPDIR={d}; "
    f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
    f"-o junit_family=xunit2 --junitxml={d}/m.xml {' '.join(a)}'",
    shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.run(f'/usr/bin/python3 /opt/vp/results.py {d}/o.json "junit:{d}/*.xml"', shell=True, stdout=subprocess.DEVNULL)
got = json.load(open(f'{d}/o.json'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad = sorted(stable & set(got['failed']))
print('passed', len(got['passed']), 'failed', len(got['failed']), 'STABLE FAILURES', bad)
shutil.rmtree(d)
