"""C09: sandwich training updates once per batch from exactly its subnets."""
import copy
import os
import random
import sys

import numpy as np
import torch
import torch.distributed as dist
import torch.nn.functional as F
from mmengine.model import BaseModel
from torch import nn

from mmrazor.models.algorithms import (AutoSlim, AutoSlimDDP, BigNAS,
                                       BigNASDDP, SlimmableNetwork,
                                       SlimmableNetworkDDP)
from mmrazor.models.architectures.backbones import AttentiveMobileNetV3
from mmrazor.models.architectures.dynamic_ops import DynamicLinear
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannelUnit)
from mmrazor.models.mutators import (ChannelMutator, NasMutator,
                                     OneShotChannelMutator,
                                     SlimmableChannelMutator)
from simkit import SimCrash
from .rr import ListData, last_ckpt, loader, runner
from .worlds import PARSE, CnnArch, gen_cnn, seeded_init, simplify_cnn

ID = 'C09'
LEVEL = 'exploration'
QUICK, THOROUGH = 120, 9000
MIN_STEPS = 3
RULE = ('A run trains a random AutoSlim, BigNAS or slimmable supernet (plain '
        'or in its DDP wrapper) under the real Runner with random '
        'accumulation. Forward or backward of any subnet fails and is '
        'retried or skipped; the process dies inside a step and resumes. '
        'After every step losses, parameters, buffers and gradients are '
        'compared with a twin that adds up the losses of the same subnets '
        'by hand.')
STATE_MEASURE = 'digest of (algorithm, subnet choices of the step, count)'
COMPONENTS = dict(
    real='AutoSlim, BigNAS, SlimmableNetwork, their DDP wrappers (one '
    'process), mutators, ConfigurableDistiller, OptimWrapper, '
    'reinitialize_optim_wrapper_count_status, mmengine Runner',
    stub='data, moments of failure and death')
ASSUMPTIONS = [
    'whoever retries a failed step drops its gradients and counts first, as '
    'mmengine requires of every model',
    'the gradients of a partial accumulation are lost when a process dies, '
    'as in mmengine']
MUST_REACH = ['autoslim', 'bignas', 'slimmable', 'deployed', 'ddp', 'update',
              'multi-batch', 'update-per-subnet', 'remainder', 'failed',
              'failed-backward', 'retried', 'resumed', 'skipped']


class Boom(RuntimeError):
    pass


class BigArch(BaseModel):

    def __init__(self, cfg):
        super().__init__()
        n = len(cfg['num_blocks'])
        self.backbone = AttentiveMobileNetV3(
            copy.deepcopy({k: cfg[k] for k in (
                'kernel_size', 'num_blocks', 'expand_ratio',
                'num_out_channels')}), out_indices=(n, ),
            act_cfg_list=['ReLU'] * (n + 2), stride_list=cfg['stride'],
            with_se_list=cfg['se'], fine_grained_mode=cfg['fine'],
            conv_cfg=dict(type='mmrazor.BigNasConv2d'),
            norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d'),
            zero_init_residual=False)
        self.head = DynamicLinear(self.backbone.out_channels, cfg['classes'])
        OneShotMutableChannelUnit._register_channel_container(
            self.head, MutableChannelContainer)
        MutableChannelContainer.register_mutable_channel_to_module(
            self.head, self.backbone.last_mutable_channels, False)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.backbone(inputs)[-1]
        y = self.head(x.flatten(1))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def distiller(cfg):
    rec = dict(fc=dict(type='ModuleOutputs', source='head'))
    return dict(
        type='ConfigurableDistiller', teacher_recorders=copy.deepcopy(rec),
        student_recorders=copy.deepcopy(rec),
        distill_losses=dict(loss_kl=dict(type='KLDivergence', tau=cfg['tau'],
                                         loss_weight=cfg['kw'])),
        loss_forward_mappings=dict(loss_kl=dict(
            preds_S=dict(recorder='fc', from_student=True),
            preds_T=dict(recorder='fc', from_student=False))))


def gen_big(rng):
    n = rng.randint(1, 2)

    def ch():
        return rng.choice([[8, 8, 8], [8, 16, 8], [16, 16, 8]])

    return dict(
        kernel_size=[rng.choice([[3, 3, 2], [3, 5, 2]]) for _ in range(n)],
        num_blocks=[rng.choice([[1, 1, 1], [1, 2, 1], [2, 2, 1]])
                    for _ in range(n)],
        expand_ratio=[rng.choice([[1, 1, 1], [1, 2, 1], [2, 3, 1]])
                      for _ in range(n + 1)],
        num_out_channels=[ch() for _ in range(n + 2)],
        stride=[rng.choice([1, 2]) for _ in range(n)],
        se=[rng.chance(0.3) for _ in range(n)], fine=rng.chance(0.3),
        classes=rng.randint(2, 4))


def gen(rng, i, tier):
    kind = rng.weighted([(4, 'autoslim'), (3, 'slimmable'), (2, 'bignas'),
                         (1, 'deployed')])
    cfg = dict(kind=kind, wseed=rng.seed32(), ddp=rng.chance(0.3))
    if kind == 'bignas':
        cfg.update(net=gen_big(rng), drop=rng.choice([0.0, 0.2, 0.9]),
                   stages=rng.choice([[1], [1, 2], []]))
    else:
        cfg['net'] = gen_cnn(rng, 2, ('conv', 'res', 'dw', 'cat')
                             if kind == 'autoslim' else
                             ('conv', 'res', 'dw'), cs=(2, 4, 6, 8))
    cfg['nr'] = rng.randint(0, 3)
    cfg['tau'] = rng.choice([1, 2])
    cfg['kw'] = rng.choice([1, 0.5])
    cfg['cands'] = rng.choice([[0.5, 1.0], [0.25, 0.5, 0.75, 1.0],
                               [0.3, 0.6, 1.0]])
    cfg['fr'] = sorted(rng.sample([0.3, 0.5, 0.75], rng.randint(1, 2)))
    k = (cfg['nr'] + 2 if kind in ('autoslim', 'bignas')
         else 1 if kind == 'deployed' else len(cfg['fr']) + 1)
    cfg['acc'] = rng.weighted([(6, k), (2, 2 * k), (1, 1), (1, 3),
                               (1, 2 * k + 1)])
    cfg['deploy'] = rng.randint(0, len(cfg['fr']))
    cfg['mom'] = rng.choice([0.0, 0.9])
    cfg['wd'] = rng.choice([0.0, 1e-3])
    iters = rng.randint(1, 6)
    cfg.update(iters=iters, cks=rng.randint(1, 3), n=rng.randint(3, 8))
    faults = []
    for _ in range(rng.weighted([(3, 0), (3, 1), (1, 2)])):
        faults.append([rng.randint(0, iters - 1), rng.randint(0, k - 1),
                       rng.weighted([(2, 'fwd'), (1, 'mid'), (1, 'bwd'),
                                     (3, 'die')]),
                       rng.choice(['retry', 'skip'])])
        if cfg['ddp']:    # torch's DDP cannot go on after a failed pass
            faults[-1][2] = 'die'
    return dict(cfg=cfg, faults=faults, seed=rng.seed32())


def simplify(plan):
    cfg = plan['cfg']
    if cfg['kind'] != 'bignas':
        for c in simplify_cnn(cfg['net']):
            yield dict(plan, cfg=dict(cfg, net=c))
    for k, v in (('ddp', False), ('nr', 0), ('mom', 0.0), ('wd', 0.0)):
        if cfg[k] != v and (k != 'nr' or cfg['acc'] == 1):
            yield dict(plan, cfg=dict(cfg, **{k: v}))
    if cfg['iters'] > 1:
        yield dict(plan, cfg=dict(cfg, iters=cfg['iters'] - 1))


def build(cfg, cls=None):
    """The supernet algorithm; None if the widths of the plan collide."""
    kind = cfg['kind']
    torch.manual_seed(0)
    if kind == 'bignas':
        m = (cls or BigNAS)(
            architecture=BigArch(cfg['net']), mutator=NasMutator(),
            distiller=distiller(cfg), num_random_samples=cfg['nr'],
            drop_path_rate=cfg['drop'],
            backbone_dropout_stages=cfg['stages'])
    elif kind == 'autoslim':
        m = (cls or AutoSlim)(
            architecture=CnnArch(cfg['net']),
            mutator=OneShotChannelMutator(
                channel_unit_cfg=dict(
                    type='OneShotMutableChannelUnit', default_args=dict(
                        candidate_choices=list(cfg['cands']),
                        choice_mode='ratio')),
                parse_cfg=copy.deepcopy(PARSE)),
            distiller=distiller(cfg), num_random_samples=cfg['nr'])
    else:
        units = slim_units(cfg)
        if units is None:
            return None
        m = (cls or SlimmableNetwork)(
            architecture=CnnArch(cfg['net']),
            mutator=SlimmableChannelMutator(
                channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                      units=units),
                parse_cfg=copy.deepcopy(PARSE)),
            deploy_index=cfg['deploy'] if kind == 'deployed' else -1)
    seeded_init(m, cfg['wseed'])
    return m


def slim_units(cfg):
    probe = ChannelMutator(
        channel_unit_cfg=dict(type='SequentialMutableChannelUnit',
                              default_args={}),
        parse_cfg=copy.deepcopy(PARSE))
    probe.prepare_from_supernet(CnnArch(cfg['net']))
    units = {}
    for u in probe.mutable_units:
        ws = sorted({max(1, int(u.num_channels * f)) for f in cfg['fr']} |
                    {u.num_channels})
        if len(ws) != len(cfg['fr']) + 1:
            return None
        units[u.name] = dict(init_args=dict(candidate_choices=ws))
    return units or None


def plain(c):
    return {str(k): (v.item() if hasattr(v, 'item') else v)
            for k, v in c.items()}


def extreme(mut, f):
    """Largest or smallest choice of every decision, from its options."""
    if isinstance(mut, NasMutator):
        out = {}
        for k, ms in mut.search_groups.items():
            m = ms[0]
            out[str(k)] = f(m.candidate_choices if hasattr(
                m, 'candidate_choices') else m.choices)
        return out
    return {u.name: f(u.candidate_choices) for u in mut.mutable_units}


class Twin:
    """Adds up the losses of given subnets and steps a plain optimizer."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.m = build(cfg)
        self.m.train()
        self.opt = torch.optim.SGD(self.m.parameters(), lr=0.05,
                                   momentum=cfg['mom'],
                                   weight_decay=cfg['wd'])
        self.m.architecture.head.register_forward_hook(self.hook)
        self.count = 0
        self.updates = 0

    def hook(self, mod, i, o):
        self.logits = o

    def one(self, j, choices, data, k):
        cfg, m = self.cfg, self.m
        if cfg['kind'] != 'deployed':
            m.mutator.set_choices(choices)
        if cfg['kind'] == 'bignas':
            self.drop(cfg['drop'] if j == 0 else 0.)
        loss = m.architecture(data['inputs'], data['data_samples'],
                              mode='loss')['loss']
        out = dict(loss=float(loss))
        if cfg['kind'] in ('autoslim', 'bignas'):
            if j == 0:
                self.teacher = self.logits.detach()
            else:
                t = cfg['tau']
                p = torch.softmax(self.teacher / t, 1)
                kl = (p * (p.log() - torch.log_softmax(self.logits / t, 1))
                      ).sum() / len(p) * t * t * cfg['kw']
                out['loss_kl'] = float(kl)
                if cfg['kind'] == 'bignas':
                    out = dict(loss_kl=float(kl))
                    loss = kl
                else:
                    loss = loss + kl
        a, mx = cfg['acc'], cfg['iters'] * k
        rem = mx % a
        f = a if self.count < mx - rem else rem
        (loss / f).backward()
        self.count += 1
        if self.count % a == 0 or self.count == mx:
            self.opt.step()
            self.opt.zero_grad()
            self.updates += 1
        return out

    def drop(self, rate):
        cfg = self.cfg
        stages = [[b for b in s if hasattr(b, 'drop_path_rate')]
                  for s in self.m.architecture.backbone.layers[:-1]]
        total = sum(len(s) for s in stages)
        seen = 0
        for idx, s in enumerate(stages, 1):
            if idx in cfg['stages']:
                for b, block in enumerate(s):
                    block.drop_path_rate = rate * (seen + b) / total
            seen += len(s)

    def save(self, f):
        torch.save(dict(m=self.m.state_dict(), o=self.opt.state_dict(),
                        c=self.count), f)

    def load(self, f):
        d = torch.load(f)
        self.m.load_state_dict(d['m'])
        self.opt.load_state_dict(d['o'])
        self.count = d['c']


def compare(sim, algo, twin, what):
    n2 = dict(twin.m.named_parameters())
    for n, p in algo.named_parameters():
        q = n2[n]
        sim.check(torch.allclose(p, q, rtol=1e-4, atol=1e-5),
                  'parameters', lambda: f'{what}: parameter {n} differs from '
                  f'the sum of its subnets by {(p - q).abs().max()}')
        g, h = p.grad, q.grad
        g = torch.zeros_like(p) if g is None else g
        h = torch.zeros_like(p) if h is None else h
        sim.check(torch.allclose(g, h, rtol=1e-3, atol=1e-5),
                  'gradients', lambda: f'{what}: gradient of {n} differs by '
                  f'{(g - h).abs().max()}')
    n2 = dict(twin.m.named_buffers())
    for n, p in algo.named_buffers():
        sim.check(torch.allclose(p.double(), n2[n].double(), rtol=1e-4,
                                 atol=1e-5), 'buffers',
                  lambda: f'{what}: buffer {n} differs')


def life(plan, sim, fi, first):
    cfg = plan['cfg']
    random.seed(plan['seed'] % 2**31 + sim.lives)
    np.random.seed(plan['seed'] % 2**31 + sim.lives)
    algo = build(cfg)
    if algo is None:
        return None
    twin = Twin(cfg)
    kind = cfg['kind']
    k = (1 if kind == 'deployed' else len(cfg['fr']) + 1
         if kind == 'slimmable' else cfg['nr'] + 2)
    faults = [f for f in plan['faults'][fi:]]
    st = dict(passes=[], fault=None, sync=[])
    model = algo
    if cfg['ddp']:
        dist.init_process_group('gloo', store=dist.HashStore(), rank=0,
                                world_size=1)

    def pre(mod, args, kw):
        j = len(st['passes'])
        st['passes'].append(plain(algo.mutator.current_choices)
                            if kind != 'deployed' else {})
        st['sync'].append(getattr(model, 'require_backward_grad_sync', True))
        f = st['fault']
        if f and f[1] == j:
            if f[2] == 'fwd':
                raise Boom()
            if f[2] == 'die':
                sim.fired('crash')
                raise SimCrash()

    def head(mod, i, o):
        j = len(st['passes']) - 1
        f = st['fault']
        if f and f[1] == j:
            if f[2] == 'mid':
                raise Boom()
            if f[2] == 'bwd':
                def g(grad):
                    raise Boom()
                o.register_hook(g)

    algo.architecture.register_forward_pre_hook(pre, with_kwargs=True)
    algo.architecture.head.register_forward_hook(head)
    base = {'autoslim': (AutoSlim, AutoSlimDDP),
            'bignas': (BigNAS, BigNASDDP)}.get(
                kind, (SlimmableNetwork, SlimmableNetworkDDP))
    sup = base[1] if cfg['ddp'] else base[0]

    def step(self, data, optim_wrapper):
        it = r.iter
        data = {a: b for a, b in data.items() if a != 'idx'}
        if it == st.get('start') and st.get('resumed'):
            compare(sim, algo, twin, f'resume at {it}')
        elif it == 0 and not st.get('copied'):
            st['copied'] = True    # the runner initialises weights
            twin.m.load_state_dict(algo.state_dict())
        tries = 0
        while True:
            tries += 1
            del st['passes'][:], st['sync'][:]
            st['fault'] = faults[0] if tries == 1 and faults and \
                faults[0][0] == it else None
            if st['fault']:
                sim.arm({'die': 'crash'}.get(st['fault'][2],
                                             st['fault'][2] + '-fails'))
            before = [p.detach().clone() for p in algo.parameters()]
            rng = torch.get_rng_state()
            ups = twin.updates
            try:
                out = sup.train_step(self, data, optim_wrapper)
            except Boom:
                f = faults.pop(0)
                sim.obs.append(['failed', it])
                sim.fired(f[2] + '-fails')
                sim.probe('failed' if f[2] != 'bwd' else 'failed-backward')
                follow(st['passes'][:f[1]], data, rng, it)
                if ups == twin.updates:
                    sim.check(all(torch.equal(a, b) for a, b in zip(
                        before, algo.parameters())), 'failed-step-updates',
                        f'the step {it} failed before its update but changed '
                        'parameters')
                twin.m.load_state_dict(
                    {**twin.m.state_dict(), **dict(algo.named_buffers())},
                    strict=False)
                optim_wrapper.zero_grad()
                twin.opt.zero_grad()
                skip = f[3] == 'skip'
                c = (it + skip) * k
                optim_wrapper.initialize_count_status(algo, c,
                                                      cfg['iters'] * k)
                twin.count = c
                if skip:
                    sim.probe('skipped')
                    out = dict(loss=torch.zeros(()))
                    break
                sim.probe('retried')
                continue
            st['fault'] = None
            seen = list(st['passes'])
            subnets(seen, it)
            want = follow(seen, data, rng, it)
            losses(out, want, it)
            compare(sim, algo, twin, f'step {it}')
            break
        if (it + 1) % cfg['cks'] == 0:
            twin.save(os.path.join(sim.scratch, f'ref_{it + 1}.pth'))
        sim.obs.append(['step', it])
        return out

    def follow(passes, data, rng, it):
        after = torch.get_rng_state()
        torch.set_rng_state(rng)
        want = []
        for j, c in enumerate(passes):
            ups = twin.updates
            want.append(twin.one(j, back(c), data, k))
            if twin.updates > ups:
                sim.probe('update')
                sim.check(st['sync'][j], 'no-sync', f'step {it}: the ranks '
                          'do not exchange the gradients of the subnet '
                          'whose backward pass triggers the update')
        torch.set_rng_state(after)
        return want

    def back(c):
        if kind != 'bignas':
            return c
        return {g: c[str(g)] for g in twin.m.mutator.search_groups}

    def subnets(seen, it):
        sim.check(len(seen) == k, 'passes', lambda: f'step {it} evaluated '
                  f'{len(seen)} subnets, configured are {k}')
        sim.state(kind, seen, twin.count)
        if kind in ('autoslim', 'bignas'):
            mx, mn = extreme(algo.mutator, max), extreme(algo.mutator, min)
            sim.check(seen[0] == mx, 'no-largest', lambda: f'step {it} '
                      f'starts with {seen[0]}, largest is {mx}')
            sim.check(mn in seen[1:], 'no-smallest', lambda: f'step {it} '
                      f'evaluated {seen}, smallest is {mn}')
            for c in seen:
                sim.check(set(c) == set(mx), 'illegal', lambda: f'{c}')
                opts = extreme(algo.mutator, list)
                for g, v in c.items():
                    sim.check(v in opts[g], 'illegal', lambda: f'step {it}: '
                              f'{g}={v}, options {opts[g]}')
        elif kind == 'slimmable':
            units = slim_units(cfg)
            want = [{n: u['init_args']['candidate_choices'][i]
                     for n, u in units.items()} for i in range(k)]
            sim.check(sorted(map(repr, map(sort, seen))) ==
                      sorted(map(repr, map(sort, want))), 'passes',
                      lambda: f'step {it} trained {seen}, configured {want}')

    def sort(d):
        return sorted(d.items())

    def losses(out, want, it):
        got = {a: float(b.mean() if torch.is_tensor(b) else b)
               for a, b in out.items()}
        if kind == 'deployed':
            names = ['']
        elif kind == 'slimmable':
            names = [f'subnet_{i}.' for i in range(k)]
        else:
            names = ['max_subnet.', 'min_subnet.'] + [
                f'random{i}_subnet.' for i in range(cfg['nr'])]
        flat = {n + a: b for n, w in zip(names, want) for a, b in w.items()}
        sim.check(set(got) == set(flat) and all(
            abs(got[a] - flat[a]) <= 1e-4 * max(1, abs(flat[a]))
            for a in flat), 'losses', lambda: f'step {it} reports {got}, '
            f'its subnets have {flat}')

    if cfg['ddp']:
        cls = type('Sim' + sup.__name__, (sup, ), dict(train_step=step))
        model = cls(module=algo, find_unused_parameters=True)
    else:
        algo.__class__ = type('Sim' + sup.__name__, (sup, ),
                              dict(train_step=step))
    ds = ListData(cfg['n'], plan['seed'] % 97, (3, 8, 8),
                  cfg['net']['classes'])
    r = runner(sim.scratch, model,
               dict(by_epoch=False, max_iters=cfg['iters']), loader(
                   ds, 3, drop_last=True),
               optim=dict(optimizer=dict(type='SGD', lr=0.05,
                                         momentum=cfg['mom'],
                                         weight_decay=cfg['wd']),
                          accumulative_counts=cfg['acc']),
               ckpt=dict(interval=cfg['cks'], by_epoch=False),
               resume=not first, seed=plan['seed'] % 2**31)
    ck = last_ckpt(sim.scratch)
    if not first and ck:
        st['start'] = torch.load(ck, map_location='cpu')['meta']['iter']
        twin.load(os.path.join(sim.scratch, f'ref_{st["start"]}.pth'))
        st['resumed'] = True
    r.train()
    sim.check(not cfg['iters'] or all(
        p.grad is None or not p.grad.abs().max() > 0
        for p in algo.parameters()), 'gradients',
        'gradients are left over at the end')
    return r.iter


def run(plan, sim):
    cfg = plan['cfg']
    faults = plan['faults']
    faults.sort()
    start, fi = 0, 0
    sim.log('start', cfg['kind'], cfg['acc'])
    k = cfg['nr'] + 2
    first = True
    while True:
        del sim.obs[:]
        res = sim.process(life, plan, sim, fi, first)
        first = False
        evs = list(sim.obs)
        sim.log('life', res.status, evs)
        if res.status == 'ok' and res.value is None:
            sim.log('no widths')
            sim.log('end')
            return
        if res.status == 'error':
            sim.violate('stops', f'{res.exc}\n{res.tb[-800:]}')
        its = [e[1] for e in evs if e[0] == 'step']
        sim.check(its == list(range(start, start + len(its))), 'iterations',
                  lambda: f'{its} from {start}')
        sim.probe(cfg['kind'])
        if cfg['ddp']:
            sim.probe('ddp')
        if res.status == 'ok':
            sim.check(start + len(its) == cfg['iters'], 'iterations',
                      lambda: f'{its} of {cfg["iters"]}')
            break
        # which fault killed it
        fi = next(i for i in range(fi, len(faults))
                  if faults[i][2] == 'die' and faults[i][0] >= start) + 1
        ck = last_ckpt(sim.scratch)
        start = torch.load(ck, map_location='cpu')['meta']['iter'] if ck \
            else 0
        if ck:
            sim.probe('resumed')
    k = {'deployed': 1, 'slimmable': len(cfg['fr']) + 1}.get(
        cfg['kind'], cfg['nr'] + 2)
    if cfg['acc'] > k:
        sim.probe('multi-batch')
    if cfg['acc'] < k:
        sim.probe('update-per-subnet')
    if cfg['iters'] * k % cfg['acc']:
        sim.probe('remainder')
    sim.log('end')
