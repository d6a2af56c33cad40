"""C04: an exported subnet equals the supernet at those choices."""
import copy
import os
import random

import torch
import torch.nn as nn
from mmengine import fileio

import mmrazor.models  # noqa
from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
from mmrazor.models.architectures.dynamic_ops.mixins import DynamicMixin
from mmrazor.models.mutables import OneShotMutableOP
from mmrazor.models.mutables.base_mutable import BaseMutable
from mmrazor.models.mutables.mutable_channel import MutableChannelContainer
from mmrazor.registry import MODELS
from mmrazor.registry.registry import sub_model
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)
from simkit.sim import sdigest, tdigest
from . import zoo
from .c06 import Nas, builder, gen_chan, gen_nas, World
from .worlds import CnnArch, batch, simplify_cnn

ID = 'C04'
LEVEL = 'exploration'
QUICK, THOROUGH = 320, 10000
MIN_STEPS = 4
RULE = ('A run builds a supernet (operation/value/width/kernel/depth choices '
        'or a traced CNN under a channel mutator), applies a random history '
        'of choices, training steps and exports in every mode, some failing '
        'half way; after each export the supernet must be bit-identical to '
        'before, and the description, written to a file and loaded into a '
        'newly built network together with the weights, must be fixed and '
        'give the same outputs as the supernet did at those choices.')
STATE_MEASURE = 'digest of (kind, export path, choices)'
COMPONENTS = dict(
    real='export_fix_subnet, load_fix_subnet, convert_fix_subnet, sub_model, '
    'mutables, dynamic ops, mutators, mmengine file handlers',
    stub='network definitions, weights and data; failing conversions')
ASSUMPTIONS = ['CPU arithmetic is deterministic']
MUST_REACH = ['mutable', 'mutator', 'sliced', 'file', 'sub-model',
              'export-failed', 'prefix', 'trained', 'train-mode', 'zoo']


class Boom(RuntimeError):
    pass


@MODELS.register_module()
class SimNas4(Nas):

    def __init__(self, cfg, init_cfg=None):
        super().__init__(cfg)
        self.init_cfg = init_cfg


@MODELS.register_module()
class SimCnn4(CnnArch):

    def __init__(self, cfg, init_cfg=None):
        super().__init__(cfg)
        self.init_cfg = init_cfg


@MODELS.register_module()
class SimZoo4(zoo.ZooArch):

    def __init__(self, cfg, init_cfg=None):
        super().__init__(cfg)
        self.init_cfg = init_cfg


def gen(rng, i, tier):
    kind = rng.weighted([(5, 'nas'), (4, 'chan'), (3, 'zoo')])
    plan = dict(kind=kind, wseed=rng.seed32(), seed=rng.seed32())
    if kind == 'nas':
        plan['cfg'] = gen_nas(rng)
    elif kind == 'zoo':
        plan['cfg'] = zoo.gen(rng)
    else:
        plan['cfg'], plan['mut'] = gen_chan(rng)
    ops = []
    for _ in range(rng.randint(2, 7 if tier == 'quick' else 14)):
        op = rng.weighted([(4, 'set'), (2, 'sample'), (2, 'train'),
                           (6, 'export'), (1, 'mode')])
        ops.append([op, rng.seed32()])
    ops.append(['export', rng.seed32()])
    plan['ops'] = ops
    return plan


def snapshot(m, x):
    a = m.architecture
    s = dict(state=sdigest(m.state_dict()))
    s['flags'] = [(n, y.training) for n, y in m.named_modules()]
    s['types'] = [(n, type(y).__name__) for n, y in m.named_modules()]
    s['req'] = [(n, p.requires_grad) for n, p in m.named_parameters()]
    s['grads'] = sdigest({n: p.grad if p.grad is not None else 0
                          for n, p in m.named_parameters()})
    s['hooks'] = [(n, len(y._forward_hooks), len(y._forward_pre_hooks),
                   len(y._backward_hooks)) for n, y in m.named_modules()]
    s['fixed'] = [(n, y.is_fixed) for n, y in a.named_modules()
                  if isinstance(y, BaseMutable)]
    s['choices'] = repr(m.mutator.current_choices)
    s['ids'] = [(n, id(p)) for n, p in m.named_parameters()]
    return s


def compare(sim, a, b, what):
    for k in a:
        sim.check(a[k] == b[k], 'supernet-altered',
                  lambda: f'{what} changed the supernet ({k}): '
                  f'{diff(a[k], b[k])}')


def diff(a, b):
    if isinstance(a, list):
        return [(x, y) for x, y in zip(a, b) if x != y][:3] + \
            ([f'{len(a)} vs {len(b)}'] if len(a) != len(b) else [])
    return f'{a} -> {b}'


def run(plan, sim):
    random.seed(plan['seed'] % 2**32)
    torch.manual_seed(plan['seed'] % 2**31)
    build = builder(plan['kind'])
    m = build(plan)
    skip = m is None
    if not skip and plan['kind'] == 'chan':
        skip = any(
            (c > u.num_channels if isinstance(c, int) else c > 1.0)
            for u in m.mutator.mutable_units
            for c in getattr(u, 'candidate_choices', []))
    if skip:
        for _ in range(MIN_STEPS):
            sim.log('skip')
        return
    sim.probe(plan['kind'])
    E = Exp(plan, sim, m, build)
    E.W.do_set(plan['seed'])
    for op, s in plan['ops']:
        sim.log('op', op)
        if op in ('set', 'sample'):
            getattr(E.W, 'do_' + op)(s)
        elif op == 'train':
            t = m.architecture.training
            E.W.do_train(s)
            m.architecture.train(t)
            E.trained = True
        elif op == 'mode':
            m.train(s % 2 == 0)
            if m.training:
                sim.probe('train-mode')
        else:
            E.export(s)


class Exp:

    def __init__(self, plan, sim, m, build):
        self.plan, self.sim, self.m, self.build = plan, sim, m, build
        self.W = World(plan, sim, m, build)
        self.x = batch(plan['seed'] % 997, n=3, classes=2)['inputs']
        self.n = 0
        self.trained = False

    @torch.no_grad()
    def out(self, net, mode):
        """Outputs and what the pass leaves in the statistics (train mode:
        batch statistics are used); the network is left as it was."""
        keep = {k: v.clone() for k, v in net.state_dict().items()}
        flags = [(y, y.training) for y in net.modules()]
        net.train(mode == 'train')
        st = torch.get_rng_state()
        torch.manual_seed(7)
        o = net(self.x)
        torch.set_rng_state(st)
        net.load_state_dict(keep)
        for y, f in flags:
            y.training = f
        return o

    def export(self, s):
        sim, m, plan = self.sim, self.m, self.plan
        r = random.Random(s)
        nas = plan['kind'] != 'chan'
        mode = 'mutable' if nas else 'mutator'
        whole = not nas or r.random() < 0.4     # algorithm or architecture
        slice_ = r.random() < 0.6
        chan = r.random() < 0.6
        src = m if whole else m.architecture
        before = snapshot(m, self.x)
        want = {k: self.out(m.architecture, k) for k in ('eval', 'train')}
        compare(sim, before, snapshot(m, self.x), 'harness')
        if r.random() < 0.25:
            self.failing(src, mode, r)
            compare(sim, before, snapshot(m, self.x), 'a failed export')
        try:
            desc, static = export_fix_subnet(
                src, export_subnet_mode=mode, slice_weight=slice_,
                export_channel=chan)
        except Exception as e:
            sim.violate('export-fails', f'{mode} slice={slice_} choices '
                        f'{m.mutator.current_choices}: '
                        f'{type(e).__name__}: {e}')
        compare(sim, before, snapshot(m, self.x), f'exporting ({mode}, '
                f'slice={slice_})')
        sim.probe(mode)
        sim.check((static is not None) == slice_, 'slice-missing',
                  f'slice_weight={slice_} gave {type(static)}')
        cur = m.mutator.current_choices
        sim.state(plan['kind'], mode, slice_, whole, cur)
        self.n += 1
        # the file
        ext = r.choice(['yaml', 'json'])
        f = os.path.join(sim.scratch, f'sub{self.n}.{ext}')
        try:
            fileio.dump(convert_fix_subnet(desc) if nas else
                        copy.deepcopy(desc), f)
        except Exception as e:
            sim.violate('not-writable', f'description {desc}: '
                        f'{type(e).__name__}: {e}')
        sim.probe('file')
        keep = copy.deepcopy(desc) if not nas else dict(desc)
        if slice_:
            sim.probe('sliced')
            sub = static.architecture if whole else static
            sup = dict(m.architecture.named_modules())
            for n, y in sub.named_modules():
                if n in sup and y.training != sup[n].training:
                    sim.violate('mode-lost', f'{n} {type(y).__name__}: '
                                f'training={y.training}, in the supernet '
                                f'{sup[n].training}')
            for n, v in m.architecture.state_dict().items():
                if hasattr(sup.get(n.rpartition('.')[0]), 'candidate_bn'):
                    continue        # each width has a norm of its own
                w = sub.state_dict().get(n)
                if w is not None and w.shape == v.shape \
                        and tdigest(v) != tdigest(w):
                    sim.violate('weights-differ', f'{n}: {v} in the '
                                f'supernet, {w} in the sliced network')
            self.fixed(sub, 'the sliced network')
            self.same(sub, want, 'the sliced network', cur)
            self.separate(sub, before)
        # unsliced: weights of the supernet + description from the file
        # l1 masks and switchable norms are not kept by a bare description
        l1 = plan.get('mut', {}).get('k') in ('l1', 'slim')
        how = r.choice(['api', 'sub']) if not l1 else 'sliced'
        sd = copy.deepcopy(m.architecture.state_dict())
        if how == 'api' or how == 'sliced':
            net = self.fresh()
            if how == 'api':
                net.load_state_dict(sd, strict=False)
            self.load(net, f, mode, whole)
        else:
            net = self.sub(f, mode, whole, sd)
        self.fixed(net, 'the reloaded network')
        if how != 'sliced':
            self.same(net, want, 'the reloaded network', cur)
        if slice_:
            net2 = self.fresh()
            self.load(net2, f, mode, whole)
            w = os.path.join(sim.scratch, f'w{self.n}.pth')
            torch.save(sub.state_dict(), w)
            try:
                net2.load_state_dict(torch.load(w), strict=True)
            except RuntimeError as e:
                sim.violate('weights-mismatch', f'sliced weights do not fit '
                            f'the described network: {e}')
            self.same(net2, want, 'description plus sliced weights', cur)
        if not nas:
            sim.check(repr(keep) == repr(desc), 'description-altered',
                      lambda: 'loading a file changed an exported '
                      'description in memory')
        compare(sim, before, snapshot(m, self.x), 'loading an export')
        sim.log('exported', mode, slice_, want['eval'])

    def fresh(self):
        if self.plan['kind'] == 'nas':
            return Nas(copy.deepcopy(self.plan['cfg']))
        if self.plan['kind'] == 'zoo':
            return zoo.ZooArch(copy.deepcopy(self.plan['cfg']))
        return CnnArch(copy.deepcopy(self.plan['cfg']))

    def kw(self, whole):
        return dict(extra_prefix='architecture.') if whole else {}

    def load(self, net, f, mode, whole):
        try:
            if mode == 'mutator':
                load_fix_subnet(net, f, load_subnet_mode='mutator')
            elif whole or self.n % 2:
                if whole:
                    self.sim.probe('prefix')
                load_fix_subnet(net, f, **self.kw(whole))
            else:
                # the network as a part of a larger one
                self.sim.probe('prefix')
                box = nn.Module()
                box.student = net
                load_fix_subnet(box, f, prefix='student.')
        except Exception as e:
            self.sim.violate('load-fails', f'{open(f).read()[:600]}: '
                             f'{type(e).__name__}: {e}')

    def sub(self, f, mode, whole, sd):
        self.sim.probe('sub-model')
        w = os.path.join(self.sim.scratch, f's{self.n}.pth')
        torch.save(dict(state_dict=sd, meta={}), w)
        cfg = dict(type=dict(nas='SimNas4', zoo='SimZoo4',
                             chan='SimCnn4')[self.plan['kind']],
                   cfg=copy.deepcopy(self.plan['cfg']))
        try:
            return sub_model(
                cfg, f, mode=mode, init_weight_from_supernet=True,
                init_cfg=dict(type='Pretrained', checkpoint=w),
                **(self.kw(whole) if mode == 'mutable' else {}))
        except Exception as e:
            self.sim.violate('load-fails', f'sub_model: {type(e).__name__}: '
                             f'{e}')

    def failing(self, src, mode, r):
        """The k-th conversion of an operator fails."""
        sim = self.sim
        ts = sorted({type(y) for y in src.modules()
                     if isinstance(y, DynamicMixin)}, key=lambda t: t.__name__)
        if not ts:
            return
        t = r.choice(ts)
        k = [r.randint(1, 4)]
        orig = t.to_static_op

        def boom(self_):
            k[0] -= 1
            if k[0] == 0:
                raise Boom('conversion')
            return orig(self_)
        sim.arm('conversion-fails')
        own = 'to_static_op' in t.__dict__
        t.to_static_op = boom
        try:
            export_fix_subnet(src, export_subnet_mode=mode, slice_weight=True)
        except Boom:
            sim.fired('conversion-fails')
            sim.probe('export-failed')
        finally:
            if own:
                t.to_static_op = orig
            else:
                del t.to_static_op

    def fixed(self, net, what):
        for n, y in net.named_modules():
            if isinstance(y, DynamicMixin):
                self.sim.violate('still-dynamic', f'{what}: {n} is a '
                                 f'{type(y).__name__}')
            if isinstance(y, BaseMutable) and not isinstance(
                    y, MutableChannelContainer):
                self.sim.check(y.is_fixed, 'still-mutable',
                               f'{what}: {n} {type(y).__name__}')
            if isinstance(y, OneShotMutableOP):
                self.sim.check(len(y.choices) == 1, 'still-mutable',
                               lambda: f'{what}: {n} keeps {y.choices}')

    def same(self, net, want, what, cur):
        for k, w in want.items():
            if not torch.isfinite(w).all():
                self.sim.log('not finite')
                continue
            try:
                got = self.out(net, k)
            except Exception as e:
                self.sim.violate('subnet-fails', f'{what} at {cur}: '
                                 f'{type(e).__name__}: {e}')
            self.sim.check(
                got.shape == w.shape and torch.allclose(
                    got, w, rtol=1e-3, atol=1e-4 * (1 + float(w.abs().max()))),
                'subnet-differs',
                lambda: f'{what} at {cur}: output ({k} mode) differs from '
                f'the supernet by {(got - w).abs().max().item():.3g}')

    def separate(self, sub, before):
        """Training the export leaves the supernet alone."""
        with torch.no_grad():
            keep = [p.clone() for p in sub.parameters()]
            for p in sub.parameters():
                p.add_(1)
            for b in sub.buffers():
                b.add_(1)
        compare(self.sim, before, snapshot(self.m, self.x),
                'changing the sliced network')
        with torch.no_grad():
            for p, k in zip(sub.parameters(), keep):
                p.copy_(k)
            for b in sub.buffers():
                b.sub_(1)


def simplify(plan):
    c = plan['cfg']
    if plan['kind'] == 'chan':
        for s in simplify_cnn(c):
            yield dict(plan, cfg=s)
    elif plan['kind'] == 'zoo':
        for s in zoo.simplify(c):
            yield dict(plan, cfg=s)
    else:
        if c['ops']:
            yield dict(plan, cfg=dict(c, ops=[], groups=[]))
        for k in ('kernels', 'depths', 'ratio', 'aliased', 'derfirst',
                  'dyndeep'):
            if c.get(k):
                yield dict(plan, cfg={a: b for a, b in c.items() if a != k})
