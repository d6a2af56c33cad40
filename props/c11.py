"""C11: greedy-sampling supernet training trains only legal pool subnets."""
import math
import os
import random

import numpy as np
import torch
from mmengine import fileio
from mmengine.model import BaseModel
from mmengine.runner import BaseLoop

from mmrazor.engine.runner.subnet_sampler_loop import GreedySamplerTrainLoop
from mmrazor.models import SPOS
from mmrazor.structures import Candidates
from .evo import KEY, Ref, landscape
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import build_spos, gen_space, legal

ID = 'C11'
LEVEL = 'exploration'
QUICK, THOROUGH = 120, 9000
MIN_STEPS = 3
RULE = ('A run trains a random supernet with GreedySamplerTrainLoop under the '
        'real Runner with random pool sizes, constraints, schedules and '
        'score landscapes; the process dies at runner hook points or a '
        'validation fails, and training resumes. Every training step and '
        'every pool validation is recorded and compared with a reference '
        'pool.')
STATE_MEASURE = 'digest of (iteration, pool size, probability, pool origin)'
COMPONENTS = dict(
    real='GreedySamplerTrainLoop, Candidates, check_subnet_resources, '
    'ResourceEstimator, SPOS supernet, NasMutator, mmengine Runner and '
    'CheckpointHook',
    stub='metric, data, moment of death, validation failures, sample_subnet '
    'of the algorithm (no shipped algorithm has one)')
ASSUMPTIONS = ['the algorithm samples uniformly from its mutator',
               'checkpoint files are complete']
MUST_REACH = ['refreshed', 'from-pool', 'constrained', 'resumed', 'trimmed',
              'ramp', 'val-failed']


def strip(data):
    return {k: v for k, v in data.items() if k != 'idx'}


class Algo(SPOS):
    """SPOS that trains the subnet it was given."""

    def sample_subnet(self):
        c = self.mutator.sample_choices()
        self.drawn.append(c)
        return c

    def loss(self, batch_inputs, data_samples=None):
        return self.architecture(batch_inputs, data_samples, mode='loss')

    def train_step(self, data, optim_wrapper):
        self.on_train(data)
        return super().train_step(strip(data), optim_wrapper)

    def val_step(self, data):
        return super().val_step(strip(data))


class Boom(RuntimeError):
    pass


def gen(rng, i, tier):
    big = tier != 'quick'
    n = rng.randint(1, 7)
    iters = rng.randint(2, 14 if not big else 40)
    s0 = rng.randint(0, iters)
    cfg = dict(
        space=gen_space(rng, max_blocks=2), wseed=rng.seed32(), n=n,
        ns=rng.randint(1, 5), k=rng.randint(1, n),
        iters=iters, sched=rng.choice(['linear', 'consine']), s0=s0,
        s1=s0 + rng.randint(1, iters), p0=rng.choice([0.0, 0.0, 0.3, 1.0]),
        p1=rng.choice([0.8, 1.0, 0.5]),
        land=rng.choice(['hash', 'hash', 'ties', 'zero', 'neg', 'empty']),
        cons=rng.choice([None, [['flops', 0.0, 0.8]], [['flops', 0.2, 1.0]],
                         [['params', 0.0, 0.7]]]),
        scalar=rng.chance(0.3), nb=rng.randint(1, 2), vb=rng.randint(1, 3),
        vi=rng.randint(1, 4), cks=rng.randint(1, 3), val=rng.chance(0.5),
        calib=-1)
    cfg['p1'] = max(cfg['p0'], cfg['p1'])
    lives = []
    for _ in range(rng.weighted([(3, 0), (3, 1), (1, 2)])):
        lives.append(rng.weighted([
            (3, ['die', rng.choice(['before_train_iter', 'after_train_iter']),
                 rng.randint(0, iters)]),
            (1, ['val', rng.randint(0, 12)])]))
    return dict(cfg=cfg, lives=lives, seed=rng.seed32())


class Evaluator:

    def __init__(self, land, algo, ev, fail):
        self.land, self.algo, self.ev, self.fail = land, algo, ev, fail
        self.acc, self.seen = 0.0, []
        self.dataset_meta = None

    def process(self, data_samples, data_batch):
        if self.fail is not None:
            if self.fail == 0:
                raise Boom('validation')
            self.fail -= 1
        self.acc += float(data_samples.double().abs().sum())
        self.seen.append(data_batch['idx'])

    def evaluate(self, size):
        m = landscape(self.land, self.acc)
        self.ev(m, self.seen, size)
        self.acc, self.seen = 0.0, []
        return m


class ValLoop(BaseLoop):

    def __init__(self, runner, ldr, sim):
        super().__init__(runner, ldr)
        self.sim = sim

    def run(self):
        self.sim.obs.append(['val', self.runner.iter])


def prob(cfg, it):
    if it > cfg['s1']:
        return cfg['p1']
    if it < cfg['s0']:
        return cfg['p0']
    f = (it - cfg['s0']) / (cfg['s1'] - cfg['s0'])
    if cfg['sched'] != 'linear':
        f = (1 - math.cos(math.pi * f)) / 2
    return cfg['p0'] + (cfg['p1'] - cfg['p0']) * f


def plain(c):
    return {str(k): (v.item() if hasattr(v, 'item') else str(v)
                     if isinstance(v, str) else v) for k, v in c.items()}


def key(c):
    return repr(sorted(plain(c).items()))


def pool(c):
    return [(s, list(d.values())[0]['score'])
            for s, d in zip(c.subnets, c.data)] if len(c) else []


def life(plan, sim, lf, first, rg):
    cfg = plan['cfg']
    random.seed(plan['seed'] % 2**31 + sim.lives)
    np.random.seed(plan['seed'] % 2**31 + sim.lives)
    ref = Ref(cfg)
    algo = build_spos(cfg['space'], cfg['wseed'], Algo)
    algo.drawn = []
    nclass = cfg['space']['classes']
    ds = ListData(8, 1, (3, 6, 6), nclass)
    vds = ListData(2 * cfg['nb'], 2, (3, 6, 6), nclass)
    tl, vl = loader(ds, 2), loader(vds, 2)
    hooks = []
    if lf and lf[0] == 'die':
        sim.arm('crash')
        hooks.append(Die(lf[1], lf[2], sim))
    r = runner(sim.scratch, algo, dict(by_epoch=False, max_iters=cfg['iters']),
               tl, optim=dict(optimizer=dict(type='SGD', lr=0.001)),
               hooks=hooks, ckpt=dict(interval=cfg['cks'], by_epoch=False),
               resume=not first, seed=plan['seed'] % 2**31)
    evals = []

    def on_eval(m, seen, size):
        idx = sorted(i for b in seen for i in b)
        sim.check(idx == list(range(len(vds))) and size == len(vds),
                  'val-incomplete', f'a candidate was scored on samples '
                  f'{idx}')
        sim.check(not algo.training, 'val-train-mode',
                  'a candidate was scored in train mode')
        evals.append((plain(algo.mutator.current_choices),
                      m[KEY] if m else 0.0))

    loop = GreedySamplerTrainLoop(
        r, tl, vl, Evaluator(cfg['land'], algo, on_eval,
                             lf[1] if lf and lf[0] == 'val' else None),
        cfg['iters'], val_begin=cfg['vb'], val_interval=cfg['vi'],
        score_key=KEY, constraints_range=rg or dict(flops=(0, 1e9)),
        estimator_cfg=dict(flops_params_cfg=dict(input_shape=(1, 3, 64, 64))),
        num_candidates=cfg['n'], num_samples=cfg['ns'], top_k=cfg['k'],
        prob_schedule=cfg['sched'], schedule_start_iter=cfg['s0'],
        schedule_end_iter=cfg['s1'], init_prob=cfg['p0'], max_prob=cfg['p1'])
    r._train_loop = loop
    if cfg['val']:
        r._val_loop = ValLoop(r, vl, sim)
        r._val_dataloader = r._val_evaluator = r._val_cfg = True
    st = dict(queue=[], prev=[], nd=0)

    def on_train(data):
        c = plain(algo.mutator.current_choices)
        it = r.iter
        bad = legal(algo.mutator, algo.mutator.current_choices)
        sim.check(bad is None, 'illegal-subnet', lambda: f'{bad}')
        sim.check(algo.training, 'trains-in-eval-mode',
                  f'iteration {it} trains in eval mode')
        res = ref.resources(algo.mutator.current_choices)
        sim.check(Ref.passes(res, rg), 'constraint-broken',
                  lambda: f'iteration {it} trains {c} with {res}, allowed '
                  f'are {rg}')
        if evals:
            refresh(it)
        sim.check(st['queue'], 'pool-not-refreshed',
                  f'iteration {it}: the pool is used up and was not '
                  'validated again')
        want = st['queue'].pop(0)
        sim.check(want == key(c), 'wrong-subnet',
                  lambda: f'iteration {it} trains {c}, its turn had {want}')
        sim.obs.append(['train', it, c, sorted(data['idx'])])

    def refresh(it):
        sim.probe('refreshed')
        sim.check(not st['queue'], 'pool-refreshed-early',
                  lambda: f'iteration {it}: validated although '
                  f'{len(st["queue"])} subnets are left')
        p = prob(cfg, it)
        sim.check(abs(loop.cur_prob - p) < 1e-6, 'probability',
                  f'iteration {it}: probability {loop.cur_prob}, the '
                  f'schedule says {p}')
        if cfg['s0'] < it < cfg['s1']:
            sim.probe('ramp')
        drawn, st['nd'] = algo.drawn[st['nd']:], len(algo.drawn)
        good = [d for d in drawn if Ref.passes(ref.resources(d), rg)]
        if rg and len(good) < len(drawn):
            sim.probe('constrained')
        old = st['prev']
        if not old or p <= 0:
            sim.check(len(drawn) == cfg['ns'] or (not old and drawn),
                      'probability', lambda: f'iteration {it}: {len(drawn)} '
                      f'draws from the supernet with probability {p} and '
                      f'{len(old)} in the pool; {cfg["ns"]} are due')
        elif p >= 1:
            sim.check(not drawn, 'probability',
                      f'iteration {it}: {len(drawn)} draws from the supernet '
                      'with probability 1 to take the pool')
        nold = cfg['ns'] - len(drawn)
        if nold > 0 and old:
            sim.probe('from-pool')
        # every member of the new pool was validated with its own score
        scores = {}
        for c, s in evals:
            scores.setdefault(key(c), []).append(s)
        p2 = pool(loop.candidates)
        for c, s in p2:
            sim.check(key(c) in scores and s in scores[key(c)],
                      'score-mixed', lambda: f'iteration {it}: pool member '
                      f'{plain(c)} has score {s}, validations gave '
                      f'{scores.get(key(c))}')
        # what must have been scored: the old pool and the new samples
        need = [key(c) for c, _ in old] + [key(c) for c in good]
        for k in need:
            sim.check(k in scores, 'not-validated',
                      lambda: f'iteration {it}: {k} was not validated')
        known = set(need)
        for c, _ in evals:
            sim.check(key(c) in known, 'stranger',
                      lambda: f'iteration {it}: {c} validated, it is neither '
                      'in the pool nor a legal sample')
        sc = [s for _, s in p2]
        sim.check(sc == sorted(sc, reverse=True), 'not-sorted',
                  lambda: f'pool scores {sc}')
        sim.check(len(p2) <= cfg['n'], 'pool-too-big',
                  lambda: f'{len(p2)} candidates, {cfg["n"]} configured')
        alls = sorted((s for _, s in evals), reverse=True)
        if len(alls) > len(p2):
            sim.probe('trimmed')
            sim.check(len(p2) == cfg['n'] and sc == alls[:len(p2)],
                      'best-lost', lambda: f'pool keeps {sc}, validated were '
                      f'{alls}')
        st['prev'] = p2
        st['queue'] = [key(c) for c, _ in p2[:cfg['k']]]
        sim.state(it, len(p2), round(p, 2), len(drawn))
        sim.obs.append(['refresh', it, len(drawn), len(good), sc])
        del evals[:]

    algo.on_train = on_train
    try:
        r.train()
    except (AssertionError, IndexError):
        drawn = algo.drawn[st['nd']:]
        if not st['prev'] and drawn and not evals and not any(
                Ref.passes(ref.resources(d), rg) for d in drawn):
            # nothing sampled was allowed: training cannot go on
            return dict(iter=-1)
        raise
    f = os.path.join(sim.scratch, 'candidates.pkl')
    sim.check(os.path.exists(f), 'pool-not-saved', 'no candidates.pkl')
    c = fileio.load(f)
    sim.check(isinstance(c, Candidates) and
              [(key(a), s) for a, s in pool(c)] ==
              [(key(a), s) for a, s in st['prev']], 'pool-not-saved',
              lambda: f'candidates.pkl has {pool(c)}, the pool was '
              f'{st["prev"]}')
    return dict(iter=r.iter)


def run(plan, sim):
    cfg = plan['cfg']
    rg = Ref(cfg).range
    sim.log('start', rg)
    start = 0
    for k, lf in enumerate(list(plan['lives']) + [None]):
        del sim.obs[:]
        res = sim.process(life, plan, sim, lf, k == 0, rg)
        evs = list(sim.obs)
        sim.log('life', lf, res.status, evs)
        if res.status == 'error':
            if 'Boom' in res.exc and lf and lf[0] == 'val':
                sim.fired('validation-fails')
                sim.probe('val-failed')
            else:
                sim.violate('stops', f'training stopped with {res.exc}\n'
                            f'{res.tb[-800:]}')
        its = [e[1] for e in evs if e[0] == 'train']
        sim.check(its == list(range(start, start + len(its))), 'iterations',
                  lambda: f'iterations {its} after resuming at {start}')
        if res.status == 'ok':
            if res.value['iter'] < 0:
                sim.log('infeasible')
                return
            sim.check(start + len(its) == max(cfg['iters'], start),
                      'iterations', lambda: f'{its}')
            if cfg['val']:
                vs = [e[1] for e in evs if e[0] == 'val']
                want = [t for t in range(start + 1, cfg['iters'] + 1)
                        if t >= cfg['vb'] and t % cfg['vi'] == 0]
                sim.check(vs == want, 'validations',
                          lambda: f'validated at {vs}, configured {want}')
            break
        ck = last_ckpt(sim.scratch)
        start = torch.load(ck, map_location='cpu')['meta']['iter'] if ck else 0
        if ck:
            sim.probe('resumed')
    sim.log('end')
