"""World shared by C01-C03: a real EvolutionSearchLoop over a real tiny
supernet; the runner, data loader and metric are stubs."""
import copy
import os
import os.path as osp
import random

import numpy as np
import torch
from mmengine import fileio

from mmrazor.engine import EvolutionSearchLoop
from mmrazor.engine.runner.utils import check_subnet_resources
from mmrazor.models import ResourceEstimator
from mmrazor.structures import load_fix_subnet
from simkit import HarnessError
from simkit.disk import SimDisk
from .worlds import (ListLoader, StubRunner, batch, build_spos, gen_space,
                     legal)

KEY = 'accuracy/top1'
FP = dict(input_shape=(1, 3, 64, 64))
EST = dict(type='mmrazor.ResourceEstimator', flops_params_cfg=FP)


def gen_cfg(rng, small=False):
    n = rng.randint(2, 4 if small else 6)
    k = rng.randint(1, n)
    mu = rng.randint(0, n)
    co = rng.randint(0, n - mu)
    cfg = dict(
        space=gen_space(rng, max_blocks=2), wseed=rng.seed32(),
        epochs=rng.randint(1, 4 if small else 5), n=n, k=k, mu=mu, co=co,
        mp=rng.choice([0.0, 0.1, 0.5, 1.0]),
        cp=rng.choice([0.0, 0.5, 1.0]),
        keep=rng.choice([1, 2, 3, 5, 0]),
        land=rng.choice(['hash', 'hash', 'ties', 'zero', 'neg', 'empty']),
        cons=rng.choice([None, None, [['flops', 0.0, 0.8]],
                         [['flops', 0.2, 1.0]], [['params', 0.0, 0.7]],
                         [['flops', 0.0, 0.1]], [['flops', 0.5, 0.5]],
                         [['flops', 0.1, 1.0], ['params', 0.0, 0.8]]]),
        scalar=rng.chance(0.3),
        calib=rng.choice([-1, -1, -1, 3, 100]),
        nb=rng.randint(1, 2))
    return cfg


class Evaluator:
    """Stub metric: a deterministic function of the real forward outputs of
    the architecture that is current when it is asked."""

    def __init__(self, land, on_eval=None, reduce=None):
        self.land, self.on_eval, self.reduce = land, on_eval, reduce
        self.acc, self.count = 0.0, 0
        self.dataset_meta = None

    def process(self, data_samples, data_batch):
        self.acc += float(data_samples.double().abs().sum())
        self.count += 1

    def evaluate(self, size):
        v = self.acc
        self.acc, self.count = 0.0, 0
        if self.reduce:
            v = self.reduce(v)
        m = landscape(self.land, v)
        if self.on_eval:
            self.on_eval(m)
        return m


def landscape(land, v):
    x = (v * 977.0) % 100.0
    if land == 'hash':
        return {KEY: x}
    if land == 'ties':
        return {KEY: float(int(x) % 3) * 10}
    if land == 'zero':
        return {KEY: 0.0}
    if land == 'neg':
        return {KEY: x - 60.0}
    if land == 'empty':
        return {} if int(x) % 3 == 0 else {KEY: x}
    raise ValueError(land)


class Ref:
    """Independent reference: every question about a subnet is answered on a
    freshly built supernet that has no history."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.score_c, self.res_c = {}, {}
        self.range = self._range()

    def fresh(self):
        return build_spos(self.cfg['space'], self.cfg['wseed'])

    def _range(self):
        cons = self.cfg['cons']
        if cons is None:
            return None
        m = self.fresh()
        # own draws; the run re-seeds afterwards
        random.seed(7)
        np.random.seed(7)
        rs = []
        for _ in range(10):
            rs.append(self.resources(m.mutator.sample_choices()))
        out = {}
        for key, lo, hi in cons:
            vals = sorted(r[key] for r in rs)
            a = vals[min(len(vals) - 1, int(lo * len(vals)))] if lo > 0 else 0
            b = vals[min(len(vals) - 1, int(hi * len(vals)))]
            if self.cfg.get('scalar') and lo == 0:
                out[key] = b
            else:
                out[key] = [a, b]
        ok = [r for r in rs if self.passes(r, out)]
        if len(ok) < 1:
            return {k: ([v[0] * 0, 1e9] if isinstance(v, list) else 1e9)
                    for k, v in out.items()}
        return out

    @staticmethod
    def passes(r, rg):
        for k, v in (rg or {}).items():
            lo, hi = v if isinstance(v, (list, tuple)) else (0, v)
            if r[k] < lo or r[k] > hi:
                return False
        return True

    def key(self, choices):
        return repr(sorted((str(k), v if not hasattr(v, 'item') else v.item())
                           for k, v in choices.items()))

    def resources(self, choices):
        k = self.key(choices)
        if k not in self.res_c:
            m = self.fresh()
            _, r = check_subnet_resources(
                m, choices, ResourceEstimator(flops_params_cfg=dict(FP)),
                dict(flops=(0, 1e12)))
            self.res_c[k] = r
        return self.res_c[k]

    def metric(self, choices, ranks=1):
        k = self.key(choices)
        if k not in self.score_c:
            vals = []
            ms = [self.fresh() for _ in range(ranks)]
            for r, m in enumerate(ms):
                m.mutator.set_choices(choices)
                if self.cfg['calib'] > 0:
                    from mmrazor.engine.runner.utils import CalibrateBNMixin
                    if ranks > 1:
                        raise HarnessError('calib ref needs one rank')
                    mx = CalibrateBNMixin()
                    mx.runner = StubRunner(m, '.')
                    mx.calibrate_bn_statistics(train_loader(self.cfg),
                                               self.cfg['calib'])
                m.eval()
                acc = 0.0
                with torch.no_grad():
                    for b in val_batches(self.cfg, r):
                        acc += float(m.val_step(b).double().abs().sum())
                vals.append(acc)
            self.score_c[k] = landscape(self.cfg['land'],
                                        sum(vals) / len(vals))
        return self.score_c[k]

    def score(self, choices, ranks=1):
        m = self.metric(choices, ranks)
        return round(m[KEY], 2) if m else 0.0


def val_batches(cfg, rank=0):
    return [batch(1000 + i + 10 * rank, classes=cfg['space']['classes'])
            for i in range(cfg['nb'])]


class TL:
    """Train loader for calibration; batches are plain dicts."""

    def __init__(self, bs):
        self.bs = bs
        self.dataset = bs

    def __iter__(self):
        return iter(self.bs)

    def __len__(self):
        return len(self.bs)


def train_loader(cfg, rank=0):
    # batches of >= 4 samples keep every budget below a whole batch boundary
    return TL([batch(2000 + i + 10 * rank, n=4,
                     classes=cfg['space']['classes']) for i in range(3)])


class ObservedLoop(EvolutionSearchLoop):
    """The real loop; run_epoch only adds observation around super()."""
    sim_before = None
    sim_after = None
    sim_saved = None

    def run_epoch(self):
        self.sim_before(self)
        super().run_epoch()
        self.sim_after(self)

    def _save_searcher_ckpt(self):
        super()._save_searcher_ckpt()
        if self.sim_saved:
            self.sim_saved(self)


class Wrapped(torch.nn.Module):
    """Stands in for the DDP wrapper."""

    def __init__(self, module):
        super().__init__()
        self.module = module
        self.device = torch.device('cpu')

    def val_step(self, d):
        return self.module.val_step(d)

    def test_step(self, d):
        return self.module.test_step(d)

    def train_step(self, *a):
        return self.module.train_step(*a)


def build_loop(cfg, rng_range, work_dir, resume=None, rank=0, dist=False,
               on_eval=None, reduce=None, before=None, after=None):
    algo = build_spos(cfg['space'], cfg['wseed'])
    model = Wrapped(algo) if dist else algo
    algo.device_ = 'cpu'
    runner = StubRunner(model, work_dir, rank=rank, distributed=dist,
                        train_dataloader=train_loader(cfg, rank))
    loop = ObservedLoop(
        runner, ListLoader(val_batches(cfg, rank)),
        Evaluator(cfg['land'],
                  (lambda m: on_eval(algo, m)) if on_eval else None, reduce),
        max_epochs=cfg['epochs'], max_keep_ckpts=cfg['keep'],
        resume_from=resume, num_candidates=cfg['n'], top_k=cfg['k'],
        num_mutation=cfg['mu'], num_crossover=cfg['co'],
        mutate_prob=cfg['mp'], crossover_prob=cfg['cp'],
        calibrate_sample_num=cfg['calib'], constraints_range=rng_range,
        estimator_cfg=copy.deepcopy(EST), score_key=KEY)
    loop.sim_before = before or (lambda l: None)
    loop.sim_after = after or (lambda l: None)
    return loop, algo


def pool(c):
    """(subnet, resources) pairs of a Candidates object, read defensively."""
    subs = c.subnets if len(c.data) else []
    return [dict(subnet={k: _plain(v) for k, v in s.items()}, score=sc,
                 flops=f, params=p)
            for s, sc, f, p in zip(subs, c.scores if subs else [],
                                   c.resources('flops') if subs else [],
                                   c.resources('params') if subs else [])]


def _plain(v):
    return v.item() if hasattr(v, 'item') else v


def check_pool(sim, cfg, ref, items, mutator, what):
    for it in items:
        bad = legal(mutator, it['subnet'])
        sim.check(bad is None, 'illegal-candidate', lambda: f'{what}: {bad}')
        if ref.range is not None:
            r = ref.resources(it['subnet'])
            sim.check(
                ref.passes(r, ref.range), 'constraint-violated',
                lambda: f'{what}: {it["subnet"]} has flops {r["flops"]} '
                f'params {r["params"]}, allowed {ref.range}')
            for k in ('flops', 'params'):
                sim.check(
                    abs(it[k] - r[k]) < 1e-9, 'wrong-recorded-resources',
                    lambda: f'{what}: {it["subnet"]} recorded {k} {it[k]}, '
                    f'is {r[k]}')


def check_topk(sim, cfg, ref, top, scored, what, ranks=1):
    want = sorted(scored, reverse=True)[:cfg['k']]
    got = [t['score'] for t in top]
    sim.check(got == want, 'top-k-not-best',
              lambda: f'{what}: kept scores {got}, best scored so far {want}')
    for t in top:
        s = ref.score(t['subnet'], ranks)
        sim.check(abs(t['score'] - s) < 1e-9, 'wrong-score',
                  lambda: f'{what}: {t["subnet"]} recorded score '
                  f'{t["score"]}, its metric is {s}')


def newest_ckpt(work):
    """What a user (or a launcher) would resume from: the newest searcher
    checkpoint that loads."""
    best = None
    names = []
    if osp.isdir(work):
        for n in sorted(os.listdir(work)):
            if n.startswith('search_epoch_') and n.endswith('.pkl'):
                names.append(int(n[len('search_epoch_'):-4]))
    for e in sorted(names, reverse=True):
        p = osp.join(work, f'search_epoch_{e}.pkl')
        try:
            d = fileio.load(p)
            assert set(d) >= {'_epoch', 'candidates', 'top_k_candidates'}
            best = (e, p, d)
            break
        except Exception:
            continue
    return best, names


def seed_life(s):
    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


def check_final(sim, cfg, ref, work, top):
    """best_fix_subnet.yaml + subnet_*.pth reload to the best subnet."""
    ypath = osp.join(work, 'best_fix_subnet.yaml')
    sim.check(osp.exists(ypath), 'no-final-subnet',
              'search finished without best_fix_subnet.yaml')
    try:
        fix = fileio.load(ypath)
    except Exception as e:
        sim.violate('final-subnet-unreadable', f'{type(e).__name__}: {e}')
    pths = [n for n in os.listdir(work) if n.startswith('subnet_')]
    sim.check(len(pths) >= 1, 'no-final-weights', 'no subnet_*.pth written')
    m = ref.fresh()
    best = top[0]['subnet']
    m2 = ref.fresh()
    try:
        load_fix_subnet(m2, fix)
        sd = torch.load(osp.join(work, sorted(pths)[-1]))
        miss = m2.load_state_dict(sd['state_dict'], strict=True)
    except Exception as e:
        sim.violate('final-subnet-unloadable', f'{type(e).__name__}: {e}')
    m.mutator.set_choices(best)
    m.eval(), m2.eval()
    if cfg['calib'] > 0:
        return  # supernet statistics were recalibrated during the search
    b = val_batches(cfg)[0]
    with torch.no_grad():
        a, c = m.val_step(b), m2.val_step(b)
    sim.check(a.shape == c.shape and torch.allclose(a, c, atol=1e-5),
              'final-subnet-differs',
              lambda: f'exported subnet is not the top-1 {best}: outputs '
              f'differ by {(a - c).abs().max() if a.shape == c.shape else "shape"}')
