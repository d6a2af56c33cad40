"""C23: distributed wrappers keep all ranks on the averaged gradient."""
from types import SimpleNamespace

import torch
from mmengine.logging import MessageHub
from mmengine.model import MMDistributedDataParallel
from mmengine.optim import OptimWrapper, OptimWrapperDict

from mmrazor.engine.runner import LSQEpochBasedLoop, QATEpochBasedLoop
from mmrazor.implementations.pruning.group_fisher.algorithm import \
    GroupFisherDDP
from mmrazor.models.algorithms import (AutoSlimDDP, BigNASDDP,
                                       SlimmableNetworkDDP)
from mmrazor.models.algorithms.nas.darts import DartsDDP
from mmrazor.models.algorithms.nas.dsnas import DSNASDDP
from mmrazor.models.algorithms.pruning.dmcp import DMCPDDP
from mmrazor.models.algorithms.quantization.mm_architecture import \
    MMArchitectureQuantDDP
from simkit.ddp import wrap
from simkit.ranks import SimRanks
from simkit.sim import tdigest
from . import c09, c14, c22, quant
from .diff import build_darts, build_dsnas, gen_diff, simplify_diff
from .worlds import batch, build_spos, gen_cnn, gen_space, simplify_cnn

ID = 'C23'
LEVEL = 'exploration'
QUICK, THOROUGH = 110, 9000
MIN_STEPS = 3
RUN_TIMEOUT = 200
RULE = ('A run trains one of the algorithms in its distributed wrapper on '
        '1-3 simulated ranks with different data, different random streams '
        'and random sub-network choices, in a random interleaving of the '
        'collectives. After every step the trainable parameters of all '
        'ranks are compared bit for bit with each other, and with a second '
        'run of the same algorithm without wrapper whose gradients are '
        'averaged by hand.')
STATE_MEASURE = 'digest of the parameters after every step'
COMPONENTS = dict(
    real='SlimmableNetworkDDP, AutoSlimDDP, BigNASDDP, DSNASDDP, DartsDDP, '
    'DMCPDDP, GroupFisherDDP, MMArchitectureQuantDDP, '
    'MMDistributedDataParallel with SPOS, PyTorch\'s reducer, OptimWrapper',
    stub='network between the ranks, data')
ASSUMPTIONS = ['the wrapper\'s initial broadcast is not simulated, all '
               'ranks start from the same weights']
KINDS = ['autoslim', 'slimmable', 'bignas', 'deployed', 'dsnas', 'darts',
         'unrolled', 'dmcp', 'fisher', 'qat', 'lsq', 'spos']
MUST_REACH = ['kind-' + k for k in KINDS] + [
    'own-subnets', 'accumulate', 'ranks-3', 'arch-moved', 'scale-moved']


def gen(rng, i, tier):
    kind = rng.weighted([(2, 'autoslim'), (2, 'slimmable'), (2, 'bignas'),
                         (1, 'deployed'), (3, 'dsnas'), (2, 'darts'),
                         (2, 'unrolled'), (4, 'dmcp'), (2, 'fisher'),
                         (2, 'qat'), (3, 'lsq'), (2, 'spos')])
    cfg = dict(kind=kind, wseed=rng.seed32(),
               n=rng.weighted([(1, 1), (5, 2), (2, 3)]),
               steps=rng.randint(1, 3), mom=rng.choice([0., 0.9]),
               lr=rng.choice([0.02, 0.1]), wd=rng.choice([0., 1e-3]),
               same=rng.chance(0.2), acc=rng.weighted([(3, 1), (1, 2)]))
    if kind in ('autoslim', 'slimmable', 'bignas', 'deployed'):
        for _ in range(50):
            sub = c09.gen(rng.sub('c09', _), i, tier)['cfg']
            if sub['kind'] == kind:
                break
        else:
            sub = None
        if sub is None:
            cfg['kind'] = kind = 'spos'
        else:
            cfg['sub'] = dict(sub, drop=0.0)
            cfg['acc'] = sub['acc']
    if kind in ('dsnas', 'darts', 'unrolled'):
        cfg['net'] = gen_diff(rng, kind == 'dsnas', 2)
        cfg['flops'] = rng.choice([0, 1e9])
        if kind == 'dsnas':
            cfg['acc'] = 1
            if rng.chance(0.3):
                cfg['net']['fix'] = rng.choice([0.2, 0.4])
        else:
            # random relaxations differ between ranks, see C21
            for b in cfg['net']['blocks']:
                b.pop('gumbel', None)
        if kind == 'unrolled':
            cfg['acc'] = 1
    elif kind == 'dmcp':
        p = c22.gen(rng.sub('c22'), i, tier)['cfg']
        p.update(start=rng.choice([-1, -1, 0, 1]), freq=1,
                 alpha=rng.choice([0.3, 1.]))
        cfg['sub'] = p
        cfg['acc'] = 1
    elif kind == 'fisher':
        cfg['sub'] = dict(
            arch=gen_cnn(rng, 2, ('conv', 'res', 'dw', 'cat'),
                         cs=(2, 3, 4, 6)),
            interval=rng.choice([1, 2, 3]),
            norm=rng.choice(['flops', 'act', 'none']), wseed=cfg['wseed'])
        cfg['acc'] = 1
    elif kind in ('qat', 'lsq'):
        cfg['arch'] = quant.gen_arch(rng)
        cfg['q'] = quant.gen_q(rng, kind == 'lsq')
    elif kind == 'spos':
        cfg['net'] = gen_space(rng, rich=False)
        # accumulation over passes that use other parameters is not
        # averaged by PyTorch's wrapper itself
        cfg['acc'] = 1
    return dict(cfg=cfg, seed=rng.seed32(),
                sched=[rng.randint(0, 5) for _ in range(60)])


def simplify(plan):
    cfg = plan['cfg']
    for k, v in (('mom', 0.), ('wd', 0.), ('steps', 1), ('n', 2)):
        if cfg[k] != v and not (k == 'n' and cfg[k] == 1):
            yield dict(plan, cfg=dict(cfg, **{k: v}))
    if cfg['kind'] in ('dsnas', 'darts', 'unrolled'):
        for n in simplify_diff(cfg['net']):
            yield dict(plan, cfg=dict(cfg, net=n))
    if cfg['kind'] in ('qat', 'lsq'):
        for n in quant.simplify_arch(cfg['arch']):
            yield dict(plan, cfg=dict(cfg, arch=n))
    if cfg['kind'] == 'dmcp':
        for n in simplify_cnn(cfg['sub']['net']):
            yield dict(plan, cfg=dict(cfg, sub=dict(cfg['sub'], net=n)))


def build(cfg):
    k = cfg['kind']
    if k in ('autoslim', 'slimmable', 'bignas', 'deployed'):
        return c09.build(cfg['sub'])
    if k == 'dsnas':
        return build_dsnas(cfg['net'], cfg['wseed'], cfg['flops'], 0, 50)
    if k in ('darts', 'unrolled'):
        return build_darts(cfg['net'], cfg['wseed'], k == 'unrolled')
    if k == 'dmcp':
        return c22.build(cfg['sub'], c22.full_flops(cfg['sub']))
    if k == 'fisher':
        return c14.build(cfg['sub'])
    if k in ('qat', 'lsq'):
        return quant.build(cfg['arch'], cfg['q'], cfg['wseed'])
    a = build_spos(cfg['net'], cfg['wseed'])
    a.train()
    return a


WRAP = dict(autoslim=AutoSlimDDP, slimmable=SlimmableNetworkDDP,
            deployed=SlimmableNetworkDDP, bignas=BigNASDDP, dsnas=DSNASDDP,
            darts=DartsDDP, unrolled=DartsDDP, dmcp=DMCPDDP,
            fisher=GroupFisherDDP, qat=MMArchitectureQuantDDP,
            lsq=MMArchitectureQuantDDP, spos=MMDistributedDataParallel)
# as in the shipped configs; the others have parameters that some batch
# does not use
ALL_USED = ('autoslim', 'fisher', 'darts', 'unrolled')


def optims(cfg, a):
    def sgd(ps, lr):
        return torch.optim.SGD(ps, lr=lr, momentum=cfg['mom'],
                               weight_decay=cfg['wd'])
    if cfg['kind'] in ('dsnas', 'darts', 'unrolled', 'dmcp'):
        return OptimWrapperDict(
            architecture=OptimWrapper(sgd(a.architecture.parameters(),
                                          cfg['lr']),
                                      accumulative_counts=cfg['acc']),
            mutator=OptimWrapper(sgd(a.mutator.parameters(), 0.5),
                                 accumulative_counts=cfg['acc']))
    return OptimWrapper(sgd(a.parameters(), cfg['lr']),
                        accumulative_counts=cfg['acc'])


def average(S, ps):
    """The mean of the gradients of all ranks."""
    vals = S.collective('reference_mean', (len(ps), ), [
        None if p.grad is None else p.grad.detach().clone() for p in ps])
    for j, p in enumerate(ps):
        col = [v[j] for v in vals]
        if all(c is None for c in col):
            p.grad = None
            continue
        col = [torch.zeros_like(p) if c is None else c for c in col]
        p.grad = sum(col[1:], col[0].clone()) / S.n


def reference(cfg, a, ow, S):
    """Make optimizers average gradients themselves."""
    if cfg['kind'] == 'unrolled':
        # every gradient of the step is that of the mean loss
        for w in ow.values():
            def backward(loss, _f=w.backward, **k):
                _f(loss, **k)
                average(S, list(a.parameters()))
            w.backward = backward
        return
    ws = list(ow.values()) if isinstance(ow, OptimWrapperDict) else [ow]
    for w in ws:
        o = w.optimizer

        def step(*args, _f=o.step, _o=o, **k):
            average(S, [p for g in _o.param_groups for p in g['params']])
            return _f(*args, **k)
        o.step = step


def trainable(a):
    return [p for p in a.parameters() if p.requires_grad]


def data(plan, r, it, kind):
    cfg = plan['cfg']
    if cfg['same']:
        r = 0
    sz = 8 if kind == 'bignas' else 6
    classes = 2
    for k in ('sub', 'net', 'arch'):
        d = cfg.get(k)
        if isinstance(d, dict):
            d = d.get('net', d.get('arch', d)) if k == 'sub' else d
            classes = d.get('classes', classes)
    return batch(plan['seed'] % 1000 + 31 * r + 1000 * it, 3, sz, classes)


class _Data(list):
    dataset = None


def quant_epochs(plan, r, m, ow, out):
    cfg = plan['cfg']

    def call_hook(name, **kw):
        if name == 'after_train_iter':
            hub.update_info('iter', loop._iter + 1)
        # the initial scales are averaged after the first step
        if name == 'after_train_epoch' or (name == 'before_train_iter'
                                           and loop._iter):
            out.append([p.detach().clone() for p in m.parameters()])
    hub = MessageHub.get_current_instance()
    ns = SimpleNamespace(model=m, call_hook=call_hook, val_loop=None,
                         optim_wrapper=ow, visualizer=None, distributed=True)
    n1 = max(1, cfg['steps'] - 1)
    cls = LSQEpochBasedLoop if cfg['kind'] == 'lsq' else QATEpochBasedLoop
    bs = _Data(data(plan, r, it, cfg['kind']) for it in range(n1))
    loop = cls(ns, bs, 2 if cfg['steps'] > 1 else 1)
    loop.run()


def train(plan, sim, models, wrapped):
    cfg = plan['cfg']
    kind, n = cfg['kind'], cfg['n']
    S = SimRanks(sim, n, plan['sched'],
                 rank_seed=lambda r: plan['seed'] % 1000 + (
                     0 if cfg['same'] else 7 * r))

    def body(r):
        a = models[r]
        if kind == 'dsnas':
            a.world_size = n
        hub = MessageHub.get_instance(f'c23-{plan["seed"]}-{r}-{wrapped}')
        hub.update_info('epoch', 0)
        hub.update_info('iter', 0)
        hub.update_info('max_iters', cfg['steps'])
        m = a
        if wrapped:
            m = wrap(WRAP[kind], a, S,
                     find_unused_parameters=kind not in ALL_USED
                     or 'route' in str(cfg.get('net')))
        ow = optims(cfg, a)
        if not isinstance(ow, OptimWrapperDict):
            ow.initialize_count_status(m, 0, cfg['steps'])
        if not wrapped:
            reference(cfg, a, ow, S)
        m.train()
        out = [[p.detach().clone() for p in a.parameters()]]
        subs = []
        if kind in ('qat', 'lsq'):
            # the loops decide when scales are observed and when learned
            quant_epochs(plan, r, m, ow, out)
            names = [k for k, p in a.named_parameters()]
            return out, names, subs
        for it in range(cfg['steps']):
            hub.update_info('iter', it)
            b = data(plan, r, it, kind)
            if kind in ('darts', 'unrolled'):
                b = [b, data(plan, r, 50 + it, kind)]
            m.train_step(b, ow)
            out.append([p.detach().clone() for p in a.parameters()])
            if hasattr(a, 'mutator') and kind in ('spos', 'autoslim',
                                                  'bignas', 'dsnas'):
                subs.append(str(a.mutator.current_choices))
        names = [k for k, p in a.named_parameters()]
        return out, names, subs
    rs = S.run(body)
    for r in rs:
        if r.exc is not None:
            sim.violate('unexpected', f'rank {r.i} raised '
                        f'{type(r.exc).__name__}: {r.exc}\n{r.tb}')
    return [r.result for r in rs]


def run(plan, sim):
    cfg = plan['cfg']
    kind, n = cfg['kind'], cfg['n']
    sets = []
    for _ in range(2):
        torch.manual_seed(plan['seed'] % 1000)
        ms = [build(cfg) for _ in range(n)]
        sets.append(ms)
    if sets[0][0] is None:
        for _ in range(MIN_STEPS):
            sim.log('collide')
        return
    sim.probe('kind-' + kind)
    if cfg['acc'] > 1:
        sim.probe('accumulate')
    if n == 3:
        sim.probe('ranks-3')
    got = train(plan, sim, sets[0], True)
    names = got[0][1]
    if len({tuple(g[2]) for g in got}) > 1:
        sim.probe('own-subnets')
    for it in range(len(got[0][0])):
        base = got[0][0][it]
        sim.log('step', it, [tdigest(p) for p in base][:4])
        sim.state([tdigest(p) for p in base])
        for r in range(1, n):
            bad = [names[j] for j, (p, q) in enumerate(
                zip(base, got[r][0][it]))
                if not torch.equal(p.nan_to_num(), q.nan_to_num())]
            sim.check(not bad, 'ranks', f'{kind}: after step {it} rank {r} '
                      f'differs from rank 0 in {bad}')
        if it:
            for j, k in enumerate(names):
                if torch.equal(base[j], got[0][0][0][j]):
                    continue
                if 'arch_params' in k:
                    sim.probe('arch-moved')
                if k.endswith('scale'):
                    sim.probe('scale-moved')
    ref = train(plan, sim, sets[1], False)
    for it in range(1, len(got[0][0])):
        for j, k in enumerate(names):
            p, q = got[0][0][it][j], ref[0][0][it][j]
            if not p.isfinite().all() or not q.isfinite().all():
                return
            sim.check(torch.allclose(p, q, rtol=1e-3, atol=1e-5), 'mean',
                      lambda: f'{kind}: after step {it} {k} is off by '
                      f'{float((p - q).abs().max())} from what the mean of '
                      'the gradients makes of it')
