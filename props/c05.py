"""C05: greedy width search meets every target, also across a crash."""
import copy
import os
import os.path as osp

import torch
from mmengine import fileio

from mmrazor.engine import AutoSlimGreedySearchLoop
from mmrazor.models import ResourceEstimator
from mmrazor.engine.runner.utils import check_subnet_resources
from mmrazor.structures import load_fix_subnet
from simkit import SimCrash
from simkit.disk import SimDisk
from . import evo
from .worlds import (ListLoader, StubRunner, batch, build_oneshot, gen_cnn,
                     simplify_cnn)

ID = 'C05'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 100, 6000
MIN_STEPS = 6
RULE = ('A run draws a network, width candidates, FLOPs targets and a metric '
        'landscape, runs one undisturbed greedy search whose every shrink is '
        'checked against freshly built models, and then the same search '
        'through a list of process lives that crash or fail at drawn file '
        'operations or evaluations and resume from the saved state.')
STATE_MEASURE = 'digest of (life outcome, targets done, current subnet)'
COMPONENTS = dict(
    real='AutoSlimGreedySearchLoop, OneShotChannelMutator with channel '
    'tracing, check_subnet_resources, ResourceEstimator, export/load, fileio',
    stub='disk (real files, simulated failures), process death (fork), '
    'runner, loader, metric, clock')
ASSUMPTIONS = ['process-death crash model', 'evaluation is deterministic']
MUST_REACH = ['resumed', 'died-between-save-and-report', 'several-targets']
FP = dict(input_shape=(1, 3, 128, 128))


def gen(rng, i, tier):
    cs = (2, 3, 4, 6)
    cnn = gen_cnn(rng, max_layers=2, cs=cs)
    cands = rng.choice([[0.5, 1.0], [0.25, 0.5, 1.0], [0.34, 0.67, 1.0],
                        [0.2, 0.4, 0.6, 0.8, 1.0]])
    cfg = dict(cnn=cnn, cands=cands, mode='ratio', wseed=rng.seed32(),
               targets=sorted({round(rng.random(), 2) for _ in range(
                   rng.randint(1, 4))} | ({1.2} if rng.chance(0.2) else set()),
                   reverse=rng.chance(0.5)),
               land=rng.choice(['hash', 'hash', 'ties', 'zero', 'neg',
                                'empty']), nb=rng.randint(1, 2))
    lives = []
    for _ in range(rng.weighted([(5, 1), (3, 2), (2, 3)])):
        if rng.chance(0.2):
            lives.append(dict(evals=rng.randint(1, 12), faults=[]))
        else:
            lives.append(dict(evals=0, faults=[dict(
                op=rng.randint(0, 28),
                kind=rng.weighted([(4, 'crash'), (1, 'enospc'), (1, 'eio')]),
                frac=rng.choice([0.0, 0.5, 0.9, 1.0]))]))
    return dict(cfg=cfg, lives=lives)


def simplify(p):
    c = p['cfg']
    for q in simplify_cnn(c['cnn']):
        yield dict(p, cfg=dict(c, cnn=q))
    for j in range(len(c['targets'])):
        if len(c['targets']) > 1:
            yield dict(p, cfg=dict(
                c, targets=c['targets'][:j] + c['targets'][j + 1:]))
    for k, v in (('land', 'hash'), ('nb', 1), ('cands', [0.5, 1.0])):
        if c[k] != v:
            yield dict(p, cfg=dict(c, **{k: v}))


def fresh(cfg):
    return build_oneshot(cfg['cnn'], cfg['cands'], cfg['mode'], cfg['wseed'])


def est():
    return ResourceEstimator(flops_params_cfg=dict(FP))


def batches(cfg):
    return [batch(50 + i, classes=cfg['cnn']['classes'])
            for i in range(cfg['nb'])]


class Ref:
    def __init__(self, cfg):
        self.cfg = cfg
        m = fresh(cfg)
        self.cands = {u.alias: list(u.candidate_choices)
                      for u in m.mutator.mutable_units}
        self.f, self.s = {}, {}

    def choices(self, bins):
        return {k: self.cands[k][b - 1] for k, b in bins.items()}

    def flops(self, bins):
        k = repr(sorted(bins.items()))
        if k not in self.f:
            self.f[k] = check_subnet_resources(
                fresh(self.cfg), self.choices(bins), est())[1]['flops']
        return self.f[k]

    def score(self, bins):
        k = repr(sorted(bins.items()))
        if k not in self.s:
            m = fresh(self.cfg)
            m.mutator.set_choices(self.choices(bins))
            m.eval()
            with torch.no_grad():
                v = sum(float(m.val_step(b).double().abs().sum())
                        for b in batches(self.cfg))
            r = evo.landscape(self.cfg['land'], v)
            self.s[k] = r.get(evo.KEY, 0.0) if r else 0.0
        return self.s[k]


def build(cfg, work, targets, resume=None, on_eval=None, on_save=None):
    m = fresh(cfg)
    runner = StubRunner(m, work)

    class Loop(AutoSlimGreedySearchLoop):
        def _save_searcher_ckpt(self):
            super()._save_searcher_ckpt()
            if on_save:
                on_save(self)

    return Loop(runner, ListLoader(batches(cfg)), evo.Evaluator(
        cfg['land'], on_eval), target_flops=targets,
        estimator_cfg=dict(type='mmrazor.ResourceEstimator',
                           flops_params_cfg=dict(FP)),
        score_key=evo.KEY, resume_from=resume)


def run(plan, sim):
    cfg = plan['cfg']
    ref = Ref(cfg)
    full = {k: len(v) for k, v in ref.cands.items()}
    lo = ref.flops({k: 1 for k in full})
    hi = ref.flops(full)
    targets = sorted({round(lo + f * (hi - lo), 3) for f in cfg['targets']})
    if len(targets) > 1:
        sim.probe('several-targets')
    work0, work = osp.abspath('w0'), osp.abspath('w1')
    os.makedirs(work0)
    os.makedirs(work)

    def undisturbed():
        steps = []
        loop = build(cfg, work0, targets, on_save=lambda l: steps.append(
            dict(l.current_subnet)))
        loop.run()
        return steps, loop.searched_subnet, loop.searched_subnet_flops

    r = sim.process(undisturbed)
    if r.status != 'ok':
        sim.violate('search-failed', r.exc)
    steps, subs, flops = r.value
    want_t = sorted(targets, reverse=True)
    sim.check(len(subs) == len(want_t), 'missing-target', lambda:
              f'{len(subs)} subnets for {len(want_t)} targets')
    # every shrink is one step of one group, the best-scored one
    prev = full
    for s in steps:
        diff = {k: prev[k] - s[k] for k in prev if prev[k] != s[k]}
        sim.check(list(diff.values()) == [1], 'not-one-step',
                  lambda: f'{prev} -> {s}')
        options = {k: ref.score(dict(prev, **{k: prev[k] - 1}))
                   for k in prev if prev[k] > 1}
        best = max(options.values())
        sim.check(abs(options[list(diff)[0]] - best) < 1e-9, 'not-best-shrink',
                  lambda: f'from {prev} shrank {list(diff)[0]}, scores '
                  f'{options}')
        prev = s
        sim.log('step', sorted(s.items()))
    chain = [full] + steps
    for t, s, f in zip(want_t, subs, flops):
        # the first subnet of the chain that fits
        fit = [c for c in chain if ref.flops(c) <= t]
        sim.check(bool(fit) and s == fit[0], 'wrong-subnet-for-target',
                  lambda: f'target {t}: reported {s} with {ref.flops(s)}, '
                  f'first that fits {fit[:1]}')
        sim.check(abs(f - ref.flops(s)) < 1e-9, 'wrong-flops',
                  lambda: f'{s} reported {f}, is {ref.flops(s)}')
    check_files(sim, cfg, ref, work0, subs)

    saved = False
    lives = list(plan['lives']) + [dict(evals=0, faults=[])]
    for li, life in enumerate(lives):
        ck = osp.join(work, 'latest.pkl')
        resume = None
        state = None
        if osp.exists(ck):
            try:
                state = fileio.load(ck)
                resume = ck
            except Exception as e:
                sim.check(not saved, 'saved-state-lost', lambda:
                          f'the saved search state no longer loads: '
                          f'{type(e).__name__}')
        else:
            sim.check(not saved, 'saved-state-lost', 'latest.pkl is gone')
        if resume:
            sim.probe('resumed')
            if state['current_flops'] <= want_t[min(
                    len(state['searched_subnet']), len(want_t) - 1)]:
                sim.probe('died-between-save-and-report')
        for f in life['faults']:
            sim.arm(f['kind'])
        n0 = len(sim.obs)
        r = sim.process(one_life, sim, cfg, work, targets, resume, life)
        saved = saved or any(o == 'saved' for o in sim.obs[n0:])
        sim.log('life', li, r.status, r.exc)
        sim.state(r.status, bool(resume), state and (
            len(state['searched_subnet']),
            sorted(state['current_subnet'].items())))
        if r.status == 'error' and not r.exc.startswith('OSError'):
            sim.violate('life-failed', r.exc)
        if r.status == 'ok':
            got, gf = r.value
            sim.check(len(got) == len(subs), 'missing-target', lambda:
                      f'after {li} crashes {len(got)} subnets for '
                      f'{len(subs)} targets')
            sim.check(got == subs and gf == flops, 'resume-differs', lambda:
                      f'with crashes {gf}, undisturbed {flops}')
            check_files(sim, cfg, ref, work, subs)
            return
    sim.violate('no-completion', 'the fault-free last life did not finish')


def one_life(sim, cfg, work, targets, resume, life):
    n = [0]

    def on_eval(m):
        n[0] += 1
        sim.tick(1.0)
        if n[0] == life['evals']:
            sim.fired('crash_in_eval')
            raise SimCrash()

    with SimDisk(sim, work, life['faults']):
        loop = build(cfg, work, targets, resume, on_eval,
                     lambda l: sim.obs.append('saved'))
        loop.run()
    return loop.searched_subnet, loop.searched_subnet_flops


def check_files(sim, cfg, ref, work, subs):
    want = {}
    for s in subs:
        want['{:.2f}'.format(ref.flops(s))] = s
    files = sorted(f for f in os.listdir(work) if f.endswith('.yaml'))
    sim.check(len(files) == len(want), 'subnet-files', lambda:
              f'{files} for the subnets {sorted(want)}')
    got = []
    for f in files:
        m = fresh(cfg)
        try:
            fix = fileio.load(osp.join(work, f))
            load_fix_subnet(m, copy.deepcopy(fix))
        except Exception as e:
            sim.violate('subnet-file-unloadable',
                        f'{f}: {type(e).__name__}: {e}')
        m.eval()
        with torch.no_grad():
            got.append([m.val_step(b) for b in batches(cfg)])
    for s in want.values():
        m = fresh(cfg)
        m.mutator.set_choices(ref.choices(s))
        m.eval()
        with torch.no_grad():
            o = [m.val_step(b) for b in batches(cfg)]
        sim.check(any(all(torch.allclose(a, b, atol=1e-5)
                          for a, b in zip(o, g)) for g in got),
                  'subnet-file-differs', lambda:
                  f'no written subnet behaves like {s}')
