"""C03: ranks of a distributed search agree, never deadlock, one writes."""
import os

import torch
import torch.distributed as dist

from simkit import SimCrash
from simkit.disk import SimDisk
from simkit.ranks import SimRanks
from . import evo
from .c01 import simplify as _simplify
from .c02 import digest

ID = 'C03'
LEVEL = 'exploration'
QUICK, THOROUGH = 120, 8000
MIN_STEPS = 10
RULE = ('A run draws a search configuration, 1-4 ranks with different random '
        'streams, a scheduler decision list (which rank runs next at every '
        'collective, file operation and evaluation) and possibly a crash of '
        'the whole job, after which it resumes from the newest checkpoint. '
        'Every rank runs the real loop in its own parked thread over '
        'simulated collectives.')
STATE_MEASURE = 'digest of the full interleaving of ranks at yield points'
COMPONENTS = dict(
    real='EvolutionSearchLoop, CalibrateBNMixin, mmengine.dist wrappers, '
    'mutator, estimator, Candidates, fileio, SPOS per rank',
    stub='torch.distributed collectives, scheduler, disk, DDP wrapper, '
    'runner, loader, metric (all-reduced), clock')
ASSUMPTIONS = ['ranks interleave at collectives, file operations and '
               'evaluations; code between two yield points is atomic']
MUST_REACH = ['resumed', 'multi-rank', 'calibrated']


def gen(rng, i, tier):
    cfg = evo.gen_cfg(rng, small=True)
    cfg['calib'] = rng.choice([-1, -1, 4, 7])
    cfg['epochs'] = rng.randint(1, 3)
    n = rng.weighted([(1, 1), (6, 2), (3, 3), (1, 4)])
    lives = []
    for _ in range(rng.weighted([(5, 0), (4, 1), (1, 2)])):
        if rng.chance(0.5):
            lives.append(dict(stop=rng.randint(1, cfg['n'] * cfg['epochs'])))
        else:
            lives.append(dict(op=rng.randint(0, 4 * cfg['epochs'] + 4)))
    lives.append({})
    for l in lives:
        l['sched'] = [rng.randint(0, 3) for _ in range(rng.randint(0, 120))]
    return dict(cfg=cfg, ranks=n, lives=lives, rs=rng.seed32())


def simplify(p):
    if p['ranks'] > 2:
        yield dict(p, ranks=p['ranks'] - 1)
    for q in _simplify(p):
        yield q


def run(plan, sim):
    cfg = plan['cfg']
    ref = evo.Ref(cfg)
    work = os.path.abspath('work')
    os.makedirs(work)
    n = plan['ranks']
    sim.obs = []
    if n > 1:
        sim.probe('multi-rank')
    if cfg['calib'] > 0:
        sim.probe('calibrated')
    for li, life in enumerate(plan['lives']):
        ck, _ = evo.newest_ckpt(work)
        start = ck[0] if ck else 0
        if start:
            sim.probe('resumed')
        n0 = len(sim.obs)
        r = sim.process(one_life, sim, cfg, ref, work,
                        os.path.relpath(ck[1]) if ck else None, n, life,
                        plan['rs'] + 7919 * li)
        sim.log('life', li, r.status, r.exc)
        if r.status == 'error':
            sim.violate('rank-failed', r.exc)
        compare(sim, cfg, ref, n, start, sim.obs[n0:], r.status == 'ok')
        if r.status == 'ok':
            return
    if any(k in plan['lives'][-1] for k in ('stop', 'op')):
        return      # a minimised plan without its fault-free life
    sim.violate('no-completion', 'fault-free job did not finish')


def compare(sim, cfg, ref, n, start, obs, finished):
    per = {r: [o[1:] for o in obs if o[0] == r] for r in range(n)}
    m = min(len(v) for v in per.values())
    for j in range(m):
        vals = [per[r][j] for r in range(n)]
        for r in range(1, n):
            for what, a, b in zip(('kind', 'epoch counter', 'evaluated '
                                   'candidates', 'top-k'), vals[0], vals[r]):
                sim.check(a == b, 'ranks-disagree', lambda:
                          f'{what}: rank 0 {a!r}, rank {r} {b!r}')
    for r in range(n):
        eps = [o[1] for o in per[r]]
        sim.check(eps == list(range(start + 1, start + 1 + len(eps))),
                  'epoch-order', lambda: f'rank {r} epochs {eps}')
        if finished:
            sim.check(start + len(eps) == cfg['epochs'], 'epoch-count',
                      lambda: f'rank {r} ends at epoch {start + len(eps)} '
                      f'of {cfg["epochs"]}')


def one_life(sim, cfg, ref, work, resume, n, life, seed):
    faults = [dict(op=life['op'], kind='crash', frac=0.5)] \
        if 'op' in life else []
    if faults or 'stop' in life:
        sim.arm('crash')
    disk = SimDisk(sim, work, faults)
    ranks = SimRanks(sim, n, life['sched'],
                     rank_seed=lambda r: seed + 104729 * r)
    disk.sched = ranks.yield_
    disk.who = ranks.rank
    evals = [0]
    use_ref = cfg['calib'] <= 0

    def reduce(v):
        if n == 1:
            return v
        t = torch.tensor([v], dtype=torch.float64)
        dist.all_reduce(t)
        return float(t[0]) / n

    def rank_main(r):
        seen = []

        def on_eval(algo, m):
            ch = {str(k): evo._plain(v)
                  for k, v in algo.mutator.current_choices.items()}
            if use_ref:
                want = ref.metric(algo.mutator.current_choices, n)
                sim.check(set(want) == set(m) and all(
                    abs(want[k] - m[k]) < 1e-6 for k in m), 'wrong-metric',
                    lambda: f'rank {r}: {ch} evaluated as {m}, alone {want}')
            seen.append([sorted(ch.items()), sorted(m.items())])
            evals[0] += 1
            if life.get('stop') == evals[0]:
                sim.fired('crash')
                raise SimCrash()
            ranks.yield_('eval')

        def before(loop):
            seen.clear()

        def after(loop):
            top = evo.pool(loop.top_k_candidates)
            sim.obs.append((r, 'epoch', loop._epoch, list(seen), top))
            sim.log('epoch', r, loop._epoch, len(seen),
                    [t['score'] for t in top])

        loop, algo = evo.build_loop(
            cfg, ref.range, work, resume=resume, rank=r, dist=True,
            on_eval=on_eval, reduce=reduce, before=before, after=after)
        loop.run()
        # Candidates a rank reports at the end
        return digest(loop.candidates.__class__(),
                      loop.top_k_candidates), loop._epoch

    with disk:
        rk = ranks.run(rank_main)
    for r in rk:
        if r.exc is not None:
            raise r.exc
    bad = [o for o in disk.ops if o[0] != 0]
    sim.check(not bad, 'other-rank-writes', lambda:
              f'rank {bad[0][0]} does {bad[0][1]} {bad[0][2]}')
    ends = [r.result for r in rk]
    sim.check(all(e == ends[0] for e in ends), 'ranks-disagree',
              lambda: f'final top-k / epoch per rank: {ends}')
    sim.check('best_fix_subnet.yaml' in os.listdir(work), 'no-final-subnet',
              'search finished without best_fix_subnet.yaml')
    return None
