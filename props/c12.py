"""C12: batch-norm calibration is exact and leaves nothing but statistics."""
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel
from torch.nn.modules.batchnorm import _BatchNorm

from mmrazor.engine.runner.utils.calibrate_bn_mixin import CalibrateBNMixin
from mmrazor.models.algorithms.base import BaseAlgorithm
from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
from mmrazor.models.mutators import ChannelMutator, OneShotChannelMutator
from simkit.ranks import SimRanks
from simkit.sim import sdigest
from . import c09
from .worlds import (PARSE, CnnArch, ListLoader, NullLogger, build_spos,
                     gen_cnn, gen_space, seeded_init)

ID = 'C12'
LEVEL = 'exploration'
QUICK, THOROUGH = 260, 20000
MIN_STEPS = 3
RULE = ('A run calibrates a random supernet, masked or slimmable network '
        'several times under different subnets and random ragged batches on '
        '1-3 simulated ranks; forward passes or the loader fail half way. '
        'Statistics are compared with averages computed from the recorded '
        'inputs of a twin, everything else with its state before.')
STATE_MEASURE = 'digest of (subnet, batch sizes, N, ranks)'
COMPONENTS = dict(
    real='CalibrateBNMixin, AverageMeter, dynamic and switchable batch norm, '
    'mutators, BaseModel.test_step',
    stub='torch.distributed collectives, scheduler, loader, DDP wrapper')
ASSUMPTIONS = ['forward passes in train mode are deterministic (no dropout)',
               'every rank has as many batches as the others']
MUST_REACH = ['cut', 'exact-end', 'short', 'ranks', 'uneven-ranks', 'failed',
              'loader-failed', 'unchosen', 'sliced', 'scattered',
              'switchable', 'bn1d', 'again']


class Boom(RuntimeError):
    pass


class Tail(CnnArch):
    """CnnArch with a normalised hidden linear layer."""

    def __init__(self, cfg):
        super().__init__(cfg)
        n = self.head.in_features
        self.hid = nn.Linear(n, n)
        self.bn1 = nn.BatchNorm1d(n)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.stem(inputs)
        for l in self.layers:
            x = l(x)
        return self.head(F.relu(self.bn1(self.hid(x.mean((2, 3))))))


class Alg(BaseAlgorithm):

    def __init__(self, arch, mut):
        super().__init__(arch)
        self.mutator = mut
        mut.prepare_from_supernet(self.architecture)


def gen(rng, i, tier):
    kind = rng.weighted([(3, 'nas'), (3, 'oneshot'), (2, 'seq'), (2, 'slim'),
                         (1, 'tail')])
    cfg = dict(kind=kind, wseed=rng.seed32())
    if kind == 'nas':
        cfg['net'] = gen_space(rng)
    else:
        cfg['net'] = gen_cnn(rng, 2, ('conv', 'res', 'dw', 'cat')
                             if kind != 'slim' else ('conv', 'res', 'dw'),
                             cs=(2, 4, 6, 8))
    cfg['cands'] = rng.choice([[0.5, 1.0], [0.25, 0.5, 0.75, 1.0]])
    cfg['fr'] = sorted(rng.sample([0.3, 0.5, 0.75], rng.randint(1, 2)))
    cfg['deploy'] = -1
    world = rng.weighted([(6, 1), (3, 2), (1, 3)])
    nb = rng.randint(1, 5)
    b = rng.randint(1, 6)
    sizes = []
    uneven = rng.chance(0.4)
    for r in range(world):
        s = [b if not uneven else rng.randint(1, 6) for _ in range(nb)]
        if rng.chance(0.5):
            s[-1] = rng.randint(1, 6)
        sizes.append(s)
    if kind == 'tail':
        sizes = [[max(2, x) for x in s] for s in sizes]
    total = sum(map(sum, sizes))
    calls = []
    for _ in range(rng.randint(1, 4)):
        n = rng.weighted([(4, rng.randint(1, total + 4)),
                          (1, sum(s[0] for s in sizes)), (1, total),
                          (1, 2)])
        fault = None
        if world == 1 and rng.chance(0.3):
            fault = rng.choice([['fwd', rng.randint(0, nb - 1)],
                                ['mid', rng.randint(0, nb - 1)],
                                ['load', rng.randint(0, nb - 1)]])
        calls.append([rng.seed32(), n, fault])
    return dict(cfg=cfg, sizes=sizes, calls=calls, again=rng.chance(0.4),
                form=rng.choice(['tensor', 'list', 'dict']),
                sched=[rng.randint(0, 3) for _ in range(30)],
                seed=rng.seed32())


def simplify(plan):
    if len(plan['sizes']) > 1:
        yield dict(plan, sizes=plan['sizes'][:-1])
    if len(plan['sizes'][0]) > 1:
        yield dict(plan, sizes=[s[:-1] for s in plan['sizes']])


def build(cfg):
    kind = cfg['kind']
    torch.manual_seed(0)
    if kind == 'nas':
        return build_spos(cfg['net'], cfg['wseed'])
    if kind == 'slim':
        return c09.build(dict(cfg, kind='slimmable'))
    arch = Tail(cfg['net']) if kind == 'tail' else CnnArch(cfg['net'])
    if kind == 'oneshot':
        mut = OneShotChannelMutator(
            channel_unit_cfg=dict(
                type='OneShotMutableChannelUnit',
                default_args=dict(candidate_choices=list(cfg['cands']),
                                  choice_mode='ratio')),
            parse_cfg=copy.deepcopy(PARSE))
    else:
        mut = ChannelMutator(
            channel_unit_cfg=dict(type='L1MutableChannelUnit',
                                  default_args=dict(choice_mode='number')),
            parse_cfg=copy.deepcopy(PARSE))
    m = Alg(arch, mut)
    seeded_init(m, cfg['wseed'])
    return m


def choose(cfg, algo, seed):
    """Apply a random subnet, the same on every copy of the model."""
    import random
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % 2**31)
    torch.manual_seed(seed)
    if cfg['kind'] == 'slim':
        algo.mutator.set_choices(random.choice(algo.mutator.subnets))
    else:
        algo.mutator.set_choices(algo.mutator.sample_choices())


def data(plan, r):
    g = torch.Generator().manual_seed(plan['seed'] % 2**31 + r)
    out = []
    for n in plan['sizes'][r]:
        x = torch.randn(n, 3, 6, 6, generator=g) * 2 + 1
        y = list(range(n))
        if plan['form'] == 'list':
            x = list(x)
        out.append(dict(inputs=x, data_samples=y) if plan['form'] != 'dict'
                   else dict(inputs=dict(a=x), data_samples=y, extra=y))
    return out


class Pre(nn.Module):
    """Data preprocessor: the forms a batch may have."""

    def forward(self, batch, training=False):
        x = batch['inputs']
        if isinstance(x, dict):
            x = x['a']
        if isinstance(x, list):
            x = torch.stack(x)
        assert len(batch['data_samples']) == len(x)
        return dict(inputs=x)


class Wrapped(nn.Module):
    """What a DDP wrapper adds: device and the inner module."""

    def __init__(self, m):
        super().__init__()
        self.module = m
        self.device = torch.device('cpu')

    def test_step(self, data):
        return self.module.test_step(data)


class Loop(CalibrateBNMixin):

    def __init__(self, runner):
        self.runner = runner


class Rn:

    def __init__(self, model):
        self.model = model
        self.logger = NullLogger()


class FailLoader(ListLoader):
    at = None

    def __iter__(self):
        for i, b in enumerate(self.batches):
            if self.at == i:
                raise Boom('loader')
            yield b


def prep(cfg, algo):
    if cfg['kind'] == 'nas':
        algo.architecture.forward = functools_partial(algo.architecture)
    algo.data_preprocessor = Pre()
    return algo


def functools_partial(arch):
    f = type(arch).forward

    def g(inputs, data_samples=None, mode='tensor'):
        return f(arch, inputs, data_samples, 'tensor')
    return g


def snap(algo):
    return {n: v.detach().clone() for n, v in algo.state_dict().items()}


def hooks(model):
    return {n: (len(m._forward_hooks), len(m._forward_pre_hooks),
                len(m._backward_hooks), sorted(
                    k for k in m.__dict__ if 'meter' in k),
                getattr(m, 'momentum', None))
            for n, m in model.named_modules()}


def norms(model):
    return {n: m for n, m in model.named_modules()
            if isinstance(m, _BatchNorm)}


def features(m):
    """Positions of the statistics a normalisation layer uses now."""
    attrs = getattr(m, 'mutable_attrs', {})
    if 'num_features' in attrs:
        return attrs['num_features'].current_mask.bool()
    return torch.ones(m.num_features, dtype=torch.bool)


def cut(plan, n):
    """Batch sizes every rank contributes when N samples are asked for."""
    w = len(plan['sizes'])
    left, out = n, []
    for b in range(len(plan['sizes'][0])):
        share = -(-left // w)
        s = [min(plan['sizes'][r][b], share) for r in range(w)]
        out.append(s)
        left -= sum(s)
        if left <= 0:
            break
    return out


def expected(plan, twin, sizes):
    """{bn name: (mean, var)} averaged over the batches of all ranks."""
    acc = {}
    ns = norms(twin)
    handles = []

    def mk(name, m):

        def f(mod, inp):
            x = inp[0].double()
            if isinstance(mod, SwitchableBatchNorm2d) and \
                    int(features(mod).sum()) != mod.num_features:
                return
            x = x.transpose(0, 1).flatten(1)
            n = len(inp[0])
            a = acc.setdefault(name, [0, 0., 0.])
            a[0] += n
            a[1] = a[1] + n * x.mean(1)
            a[2] = a[2] + n * x.var(1, unbiased=True)
        return f

    for name, m in ns.items():
        handles.append(m.register_forward_pre_hook(mk(name, m)))
    twin.train()
    with torch.no_grad():
        for r in range(len(plan['sizes'])):
            for b, row in zip(data(plan, r), sizes):
                x = b['inputs']
                x = x['a'] if isinstance(x, dict) else x
                x = torch.stack(x) if isinstance(x, list) else x
                twin.architecture(x[:row[r]])
    for h in handles:
        h.remove()
    return {n: (a[1] / a[0], a[2] / a[0]) for n, a in acc.items()}


def check_call(plan, sim, algo, before, h0, model, exp, n, who):
    after = snap(algo)
    sim.check(hooks(model) == h0, 'hooks-left', lambda: f'{who}: hooks, '
              f'meters or momentum changed: ' + str([
                  (k, h0[k], v) for k, v in hooks(model).items()
                  if h0[k] != v][:2]))
    ns = norms(algo)
    stats = set()
    for name, m in ns.items():
        keep = ~features(m)
        if name not in exp:
            keep = torch.ones_like(keep)
            sim.probe('unchosen')
        elif bool(keep.any()):
            sim.probe('sliced')
            k = int((~keep).sum())
            if bool(keep[:k].any()):
                sim.probe('scattered')
        if isinstance(m, SwitchableBatchNorm2d) and name not in exp:
            sim.probe('switchable')
        for j, what in enumerate(('running_mean', 'running_var')):
            k = f'{name}.{what}'
            stats.add(k)
            sim.check(torch.equal(before[k][keep], after[k][keep]),
                      'other-statistics', lambda: f'{who}: {k} changed '
                      'where the subnet does not use it')
            if name in exp and n is not None:
                e = exp[name][j]
                sim.check(torch.allclose(after[k][~keep].double(), e,
                                         rtol=1e-3, atol=1e-4),
                          'statistics', lambda: f'{who}: {k} is '
                          f'{after[k][~keep].tolist()}, the first {n} '
                          f'samples give {e.tolist()}')
        stats.add(f'{name}.num_batches_tracked')
    for k in before:
        if k not in stats:
            sim.check(torch.equal(before[k], after[k]), 'changed',
                      lambda: f'{who}: {k} changed')
    return after


def rank_life(plan, sim, r, world, outs):
    cfg = plan['cfg']
    algo = prep(cfg, build(cfg))
    twin = prep(cfg, build(cfg))
    model = Wrapped(algo) if world > 1 else algo
    loop = Loop(Rn(model))
    bs = data(plan, r)
    ld = FailLoader(bs)
    cnt = dict(n=0, fault=None, seen=[])

    def pre(mod, args, kw):
        cnt['seen'].append(len(args[0] if args else kw['inputs']))
        cnt['n'] += 1
        f = cnt['fault']
        if f and f[0] == 'fwd' and f[1] == cnt['n'] - 1:
            raise Boom('forward')

    def mid(mod, i, o):
        f = cnt['fault']
        if f and f[0] == 'mid' and f[1] == cnt['n'] - 1:
            raise Boom('forward')

    algo.architecture.register_forward_pre_hook(pre, with_kwargs=True)
    algo.architecture.head.register_forward_pre_hook(
        lambda m, i: mid(m, i, None))
    for ci, (seed, n, fault) in enumerate(plan['calls']):
        sizes = cut(plan, n)
        if cfg['kind'] == 'tail' and any(x < 2 for row in sizes
                                         for x in row):
            continue
        choose(cfg, algo, seed)
        choose(cfg, twin, seed)
        exp = expected(plan, twin, sizes)
        who = f'calibration {ci} on {n} samples'
        for again in range(1 + plan['again']):
            before, h0 = snap(algo), hooks(model)
            cnt.update(n=0, fault=fault if not again else None, seen=[])
            ld.at = fault[1] if fault and fault[0] == 'load' and \
                not again else None
            if cnt['fault']:
                sim.arm({'load': 'loader'}.get(fault[0], fault[0]) +
                        '-fails')
            try:
                loop.calibrate_bn_statistics(ld, n)
            except Boom:
                sim.fired({'load': 'loader'}.get(fault[0], fault[0]) +
                          '-fails')
                sim.probe('failed' if fault[0] != 'load' else
                          'loader-failed')
                check_call(plan, sim, algo, before, h0, model, exp, None,
                           who + ', failed')
                sim.log('failed', ci)
                continue
            if r == 0:
                sim.check(cnt['seen'] == [row[0] for row in sizes],
                          'samples', lambda: f'{who}: passes over '
                          f'{cnt["seen"]} samples, due are '
                          f'{[row[0] for row in sizes]}')
            after = check_call(plan, sim, algo, before, h0, model, exp, n,
                               who)
            outs.setdefault((ci, again), {})[r] = sdigest(
                {k: v for k, v in after.items() if 'running' in k})
            if r == 0:
                sim.log('calibrated', ci, n, cnt['seen'])
                sim.state(seed, sizes)
                probes(plan, sim, sizes, n, world)
                if again:
                    sim.probe('again')
            algo.eval()
    return True


def probes(plan, sim, sizes, n, world):
    if world > 1:
        sim.probe('ranks')
        if any(len(set(row)) > 1 for row in sizes):
            sim.probe('uneven-ranks')
    if sum(map(sum, sizes)) < n:
        sim.probe('short')
    elif any(a < b for a, b in zip(
            sizes[-1], [s[len(sizes) - 1] for s in plan['sizes']])):
        sim.probe('cut')
    else:
        sim.probe('exact-end')
    if plan['cfg']['kind'] == 'tail':
        sim.probe('bn1d')


def run(plan, sim):
    world = len(plan['sizes'])
    if build(plan['cfg']) is None:
        sim.log('no')
        sim.log('widths')
        sim.log('end')
        return
    sim.log('start', world)
    outs = {}

    def go():
        if world == 1:
            rank_life(plan, sim, 0, 1, outs)
            return
        SR = SimRanks(sim, world, plan['sched'])
        for rk in SR.run(lambda r: rank_life(plan, sim, r, world, outs)):
            if rk.exc is not None:
                raise rk.exc
        for k, d in outs.items():
            sim.check(len(set(d.values())) == 1, 'ranks-differ',
                      f'{k}: the ranks end with different statistics')

    res = sim.process(go)
    if res.status == 'error':
        sim.violate('fails', f'calibration fails with {res.exc}\n'
                    f'{res.tb[-900:]}')
    sim.log('end')
