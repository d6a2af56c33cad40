"""Search driver: seeded runs on 8 workers, minimisation, replay, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import os.path as osp
import shutil
import signal
import subprocess
import sys
import time
import traceback

from .rng import Rng
from .sim import HarnessError, Sim, Violation, in_child, norm

VERIF = osp.dirname(osp.dirname(osp.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
EVIDENCE = os.environ.get('SIM_EVIDENCE', osp.join(VERIF, 'evidence'))
SCRATCH = os.environ.get('SIM_SCRATCH', '/dev/shm')
if not os.access(SCRATCH, os.W_OK):
    SCRATCH = '/tmp'


def scratch_base():
    d = osp.join(SCRATCH, f'mmrazor-sim-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    return d


def _reset_globals(seed):
    import random
    import numpy as np
    import torch
    random.seed(seed)
    np.random.seed(seed % 2**32)
    torch.manual_seed(seed)


def _install_clock(sim):
    import time as t
    real = (t.time, t.localtime, t.strftime, t.monotonic, t.perf_counter,
            t.sleep, t.gmtime)

    def now():
        sim.clock += 1e-4
        return sim.clock

    t.time = now
    t.monotonic = now
    t.perf_counter = now
    t.localtime = lambda s=None: real[6](sim.clock if s is None else s)
    t.gmtime = lambda s=None: real[6](sim.clock if s is None else s)
    t.strftime = lambda f, tt=None: real[2](f, real[6](sim.clock)
                                            if tt is None else tt)

    def sleep(s):
        sim.clock += s

    t.sleep = sleep


def run_plan(mod, plan, base, timeout=240, want_trace=False):
    """Execute one plan in a forked child; returns a JSON-able record."""
    scratch = osp.join(base, 'run')

    def body():
        os.setpgid(0, 0)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        # a deterministic, per-run scratch path of constant name length
        sim = Sim(plan, scratch)
        _install_clock(sim)
        _reset_globals(plan.get('seed', 0))
        vio = None
        err = None
        try:
            mod.run(plan, sim)
        except Violation as v:
            vio = [v.key, v.msg]
        except HarnessError as e:
            err = f'{e!r}\n{traceback.format_exc()}'
        except BaseException as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            if any('/mmrazor/' in f.filename and '/verif/' not in f.filename
                   for f in tb):
                where = [f for f in tb if '/mmrazor/' in f.filename][-1]
                vio = [f'unexpected-{type(e).__name__}',
                       f'{type(e).__name__}: {e} (in '
                       f'{osp.basename(where.filename)}:{where.name})']
                sim.log('unexpected', type(e).__name__)
            else:
                err = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
        if vio is not None:
            vio[1] = vio[1].replace(scratch, '<scratch>')
        d = sim.export()
        rec = dict(violation=vio, error=err, trace_hash=sim.trace_hash(),
                   faults=d['faults'], armed=d['armed'], probes=d['probes'],
                   states=d['states'], steps=d['steps'], lives=d['lives'],
                   sim_s=sim.clock - sim.clock0)
        if want_trace or vio:
            rec['trace'] = d['trace'][-400:]
        return rec

    try:
        rec = in_child(body, timeout)
    except HarnessError as e:
        rec = dict(violation=None, error=str(e), trace_hash='', faults={},
                   armed={}, probes={}, states=[], steps=0, lives=0, sim_s=0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rec


def gen_plan(mod, seed, i, tier):
    rng = Rng(mod.ID, seed, i)
    reg = getattr(mod, 'REGRESSIONS', [])
    if i < len(reg):
        plan = dict(reg[i])
    else:
        plan = mod.gen(rng, i, tier)
    plan.setdefault('seed', rng.sub('runseed').seed32())
    return json.loads(json.dumps(plan))


def _worker(mod, w, W, seed, lo, n, tier, base, q, stop, deadline, timeout):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    base = osp.join(base, f'w{w}')
    os.makedirs(base, exist_ok=True)
    try:
        for i in range(lo + w, n, W):
            if i > stop.value or time.time() > deadline:
                break
            plan = gen_plan(mod, seed, i, tier)
            rec = run_plan(mod, plan, base, timeout)
            rec['i'] = i
            if rec['violation'] is not None and not is_known(
                    mod, rec['violation'], plan):
                with stop.get_lock():
                    stop.value = min(stop.value, i)
                rec['plan'] = plan
            q.put(rec)
    except BaseException:  # noqa
        q.put(dict(i=-1, error=traceback.format_exc(), violation=None))
    finally:
        q.put(None)


# ---------------------------------------------------------------- findings
def known_findings(pid):
    p = osp.join(VERIF, 'known_findings.json')
    if not osp.exists(p):
        return []
    return [e for e in json.load(open(p)).get('known', [])
            if e['property'] == pid]


def is_known(mod, vio, plan):
    for e in known_findings(mod.ID):
        if e['key'] != vio[0]:
            continue
        match = getattr(mod, 'known_match', None)
        if match is None or match(e, vio, plan):
            return e
    return None


# ---------------------------------------------------------------- minimise
def _same(rec, key):
    return rec['violation'] is not None and rec['violation'][0] == key


def minimise(mod, plan, key, base, budget_s=60, timeout=120):
    """ddmin over the explicit decision lists of the plan, then the module's
    own simplifications; every accepted step reproduces the same violation."""
    t0 = time.time()
    cur = plan
    tried = 0

    def ok(p):
        nonlocal tried
        tried += 1
        return _same(run_plan(mod, p, base, timeout), key)

    def set_path(p, path, val):
        p = json.loads(json.dumps(p))
        o = p
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = val
        return p

    def get_path(p, path):
        for k in path:
            p = p[k]
        return p

    def list_paths(o, pre=()):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ('cfg', 'seed'):
                    continue
                if isinstance(v, list):
                    yield pre + (k, )
                    for j, x in enumerate(v):
                        if isinstance(x, dict):
                            yield from list_paths(x, pre + (k, j))
                elif isinstance(v, dict):
                    yield from list_paths(v, pre + (k, ))

    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        for path in list(list_paths(cur)):
            try:
                items = get_path(cur, path)
            except (KeyError, IndexError):
                continue
            if not isinstance(items, list):
                continue
            size = len(items)
            while size >= 1 and time.time() - t0 < budget_s:
                j = 0
                while j < len(items) and time.time() - t0 < budget_s:
                    cand_items = items[:j] + items[j + size:]
                    cand = set_path(cur, path, cand_items)
                    if ok(cand):
                        cur, items, progress = cand, cand_items, True
                    else:
                        j += size
                size //= 2
        simp = getattr(mod, 'simplify', None)
        if simp is not None:
            again = True
            while again and time.time() - t0 < budget_s:
                again = False
                for cand in simp(json.loads(json.dumps(cur))):
                    if cand == cur or time.time() - t0 > budget_s:
                        continue
                    if ok(cand):
                        cur, progress, again = cand, True, True
                        break
    return cur, tried


# ---------------------------------------------------------------- main
def main(mod, tier, seed, replay=None, n=None, workers=8, quiet=False):
    t0 = time.time()
    base = scratch_base()
    try:
        if replay:
            return do_replay(mod, replay, base)
        return do_search(mod, tier, seed, base, t0, n, workers, quiet)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_replay(mod, path, base):
    r = json.load(open(path))
    rec = run_plan(mod, r['plan'], base, 300, want_trace=True)
    print(json.dumps(dict(violation=rec['violation'],
                          trace_hash=rec['trace_hash'],
                          error=rec['error'])))
    if rec['error']:
        print('HARNESS-ERROR', rec['error'])
        return 2
    if rec['violation'] is None:
        print('replay: no violation on this tree')
        return 0
    same = (rec['violation'][0] == r['violation'][0]
            and rec['trace_hash'] == r['trace_hash'])
    print('replay: ' + ('exact reproduction' if same else
                        f'DIFFERS from recorded {r["violation"][0]} '
                        f'{r["trace_hash"]}'))
    if same or rec['violation'][0] == r['violation'][0]:
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    return 3


def do_search(mod, tier, seed, base, t0, n, workers, quiet):
    N = n or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    timeout = getattr(mod, 'RUN_TIMEOUT', 200)
    cap = float(os.environ.get('SIM_CAP_S', 600 if tier == 'quick' else
                               getattr(mod, 'THOROUGH_CAP_S', 3000)))
    import gc
    gc.collect()
    gc.freeze()
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Value('q', 1 << 60)
    W = max(1, min(workers, N))
    recs = []

    def batch(lo, hi):
        ps = [ctx.Process(target=_worker, args=(
            mod, w, W, seed, lo, hi, tier, base, q, stop, t0 + cap, timeout))
            for w in range(W)]
        for p in ps:
            p.start()
        left = W
        while left:
            r = q.get()
            if r is None:
                left -= 1
            else:
                recs.append(r)
        for p in ps:
            p.join()

    def unreached():
        return [p for p in getattr(mod, 'MUST_REACH', [])
                if not any(r['probes'].get(p) or r['faults'].get(p)
                           for r in recs)]

    batch(0, N)
    # a rare condition that was not reached extends the search
    for m in (2, 3, 4):
        if n is None and unreached() and not any(
                r['violation'] or r.get('error') for r in recs):
            batch((m - 1) * N, m * N)
    errs = [r for r in recs if r.get('error')]
    vios, known = [], {}
    for r in sorted(recs, key=lambda r: r['i']):
        if r['violation'] is None:
            continue
        if 'plan' in r:
            vios.append(r)
        else:
            plan = gen_plan(mod, seed, r['i'], tier)
            e = is_known(mod, r['violation'], plan)
            known.setdefault(e['id'], []).append(r['i'])
    recs = [r for r in recs if r['i'] >= 0]
    recs.sort(key=lambda r: r['i'])

    def tot(field):
        out = {}
        for r in recs:
            for k, v in r[field].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    states = set()
    for r in recs:
        states.update(r['states'])
    hashes = {r['trace_hash'] for r in recs}
    nontrivial = {r['trace_hash'] for r in recs
                  if r['steps'] >= getattr(mod, 'MIN_STEPS', 2)}
    wall = time.time() - t0
    samples = [gen_plan(mod, seed, i, tier)
               for i in range(min(len(recs), 3))]
    cov = dict(
        evaluations=len(recs), distinct_nontrivial=len(nontrivial),
        rule=mod.RULE + ' Non-trivial: the run\'s trace has at least '
        f'{getattr(mod, "MIN_STEPS", 2)} recorded events; distinct: by the '
        'SHA-256 of the full event trace.',
        samples=[norm(s) for s in samples],
        runs_per_hour=round(len(recs) / max(wall, 1e-6) * 3600),
        seeds=f'VERIF_SEED={seed}, run indices 0..{len(recs) - 1}',
        seeds_per_hour=round(len(recs) / max(wall, 1e-6) * 3600),
        simulated_seconds=round(sum(r['sim_s'] for r in recs), 3),
        simulated_steps=sum(r['steps'] for r in recs),
        process_lives=sum(r['lives'] for r in recs),
        faults_fired=tot('faults'), faults_armed=tot('armed'),
        probes=tot('probes'), distinct_states=len(states),
        state_measure=getattr(mod, 'STATE_MEASURE', 'digests of abstract '
                              'states recorded by the scenario'),
        distinct_traces=len(hashes),
        fault_free_runs=sum(1 for r in recs if not r['faults']),
        components=getattr(mod, 'COMPONENTS', {}),
        requested_runs=N, workers=W, unreached=unreached(),
        known_findings={k: len(v) for k, v in known.items()},
        digest=hashlib.sha256(''.join(
            r['trace_hash'] for r in recs).encode()).hexdigest()[:24])
    if tier == 'thorough':
        cov['seed_note'] = 'run index and VERIF_SEED determine each plan'
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(vios))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(osp.join(EVIDENCE, f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for e in known_findings(mod.ID):
        if e['id'] in known:
            print(f'KNOWN-FINDING: property={mod.ID} {e["what"]}')
    if vios:
        r = vios[0]
        return report(mod, tier, seed, r, base)
    if errs:
        for r in errs[:3]:
            print(f'HARNESS-ERROR run {r["i"]}: {r["error"]}')
        return 2
    if len(recs) < min(N, getattr(mod, 'MIN_RUNS', 8)):
        print(f'HARNESS-ERROR only {len(recs)} of {N} runs finished')
        return 2
    if cov['unreached']:
        print(f'WARNING conditions never reached: {cov["unreached"]}')
    if not quiet:
        print(f'{mod.ID} held on {len(recs)} runs '
              f'({len(hashes)} distinct traces, {len(states)} states, '
              f'faults {cov["faults_fired"]}) in {wall:.1f}s '
              f'digest {cov["digest"]}')
    return 0


def report(mod, tier, seed, r, base):
    key, msg = r['violation']
    print(f'violation at run {r["i"]} (VERIF_SEED={seed}): {key}: {msg}')
    sys.stdout.flush()
    budget = 60 if tier == 'quick' else 200
    small, tried = minimise(mod, r['plan'], key, base, budget)
    d = osp.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    for plan, kind in ((small, 'minimised'), (r['plan'], 'original')):
        rec = run_plan(mod, plan, base, 300, want_trace=True)
        if not _same(rec, key):
            continue
        path = osp.join(
            d, f'{mod.ID}-{key[:40]}-{seed}-{r["i"]}.json'.replace(' ', '_'))
        with open(path, 'w') as f:
            json.dump(dict(property=mod.ID, tier=tier, seed=seed,
                           run=r['i'], kind=kind, shrink_runs=tried,
                           violation=rec['violation'],
                           trace_hash=rec['trace_hash'], plan=plan,
                           original_plan=r['plan'],
                           faults=rec['faults'], trace=rec['trace']),
                      f, indent=1)
        # replay in a fresh interpreter must reproduce it exactly
        p = subprocess.run(
            [sys.executable, osp.join(VERIF, 'check.py'), mod.ID,
             '--replay', path], capture_output=True, text=True, timeout=500,
            env=dict(os.environ))
        if p.returncode == 1 and 'exact reproduction' in p.stdout:
            v = rec['violation']
            print(f'{kind} plan ({tried} shrink runs): {v[0]}: {v[1]}')
            print(f'replayed exactly in a fresh process: trace '
                  f'{rec["trace_hash"]}')
            print(f'VIOLATION property={mod.ID} replay={path}')
            return 1
        print(f'{kind} plan: fresh-process replay did not reproduce '
              f'(exit {p.returncode}): {p.stdout[-600:]} {p.stderr[-600:]}')
    print('HARNESS-ERROR violation could not be replayed exactly')
    return 2
