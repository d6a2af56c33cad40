"""Tiny but real supernets: every searchable part is mmrazor code, only the
sizes are small. Everything is built from a JSON config."""
import copy
from types import SimpleNamespace
import functools

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel

import mmrazor.models  # noqa
from mmrazor.models import SPOS
from mmrazor.models.architectures.dynamic_ops import (BigNasConv2d,
                                                      DynamicBatchNorm2d,
                                                      DynamicConv2d,
                                                      DynamicLinear,
                                                      DynamicSequential)
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannel,
                                     OneShotMutableChannelUnit,
                                     OneShotMutableOP, OneShotMutableValue)
from mmrazor.models.mutators import NasMutator

reg = MutableChannelContainer.register_mutable_channel_to_module


def seeded_init(model, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in sorted(model.named_parameters()):
            p.copy_(torch.randn(p.shape, generator=g) * 0.3)
        for n, b in sorted(model.named_buffers()):
            if n.endswith('running_mean'):
                b.copy_(torch.randn(b.shape, generator=g) * 0.1)
            elif n.endswith('running_var'):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return model


def make_op(kind, c):
    if kind == 'c1':
        return nn.Sequential(nn.Conv2d(c, c, 1, bias=False), nn.ReLU())
    if kind == 'c3':
        return nn.Sequential(nn.Conv2d(c, c, 3, padding=1, bias=False),
                             nn.BatchNorm2d(c), nn.ReLU())
    if kind == 'dw':
        return nn.Sequential(nn.Conv2d(c, c, 3, padding=1, groups=c),
                             nn.BatchNorm2d(c))
    if kind == 'id':
        return nn.Identity()
    if kind == 'wide':
        return nn.Sequential(nn.Conv2d(c, 2 * c, 1), nn.ReLU(),
                             nn.Conv2d(2 * c, c, 1))
    raise ValueError(kind)


OPS = ['c1', 'c3', 'dw', 'id', 'wide']


class NetArch(BaseModel):
    """stem conv -> [channel/kernel-searchable stage] -> [depth-searchable
    stage] -> op-choice blocks -> pooled linear head.

    cfg: c (width of op blocks), ops: list of lists of op kinds,
         widths: candidate out channels of the dynamic stem or None,
         kernels: kernel sizes of the stem or None, depths: list or None,
         ratio: widths given as ratios, classes.
    """

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        c = cfg['c']
        ks = cfg.get('kernels')
        kmax = max(ks) if ks else 3
        widths = cfg.get('widths')
        self.dynamic = bool(widths or ks)
        wmax = c
        self.stem_act = nn.ReLU()
        if self.dynamic:
            self.stem = BigNasConv2d(3, wmax, kmax, padding=kmax // 2)
            self.stem_bn = DynamicBatchNorm2d(wmax)
            self.mid = DynamicConv2d(wmax, c, 3, padding=1, bias=True)
        else:
            self.stem = nn.Conv2d(3, wmax, 3, padding=1)
            self.stem_bn = nn.BatchNorm2d(wmax)
            self.mid = nn.Conv2d(wmax, c, 3, padding=1, bias=True)
        if cfg.get('depths'):
            n = max(cfg['depths'])
            self.deep = DynamicSequential(
                *[make_op('c3' if i % 2 else 'c1', c) for i in range(n)])
        else:
            self.deep = nn.Identity()
        blocks = []
        for kinds in cfg['ops']:
            blocks.append(OneShotMutableOP(nn.ModuleDict(
                {k: make_op(k, c) for k in kinds})))
        self.blocks = nn.ModuleList(blocks)
        if self.dynamic and cfg.get('head_dynamic'):
            self.head = DynamicLinear(c, cfg.get('classes', 4))
        else:
            self.head = nn.Linear(c, cfg.get('classes', 4))
        self.register_mutables()

    def register_mutables(self):
        cfg = self.cfg
        if self.dynamic:
            OneShotMutableChannelUnit._register_channel_container(
                self, MutableChannelContainer)
            if cfg.get('widths'):
                mode = 'ratio' if cfg.get('ratio') else 'number'
                mw = OneShotMutableChannel(
                    cfg['c'], candidate_choices=list(cfg['widths']),
                    choice_mode=mode)
                # searchable models keep the mutable as an attribute (see
                # AttentiveMobileNetV3), which is how export/load finds it
                self.mutable_width = mw
                reg(self.stem, mw, True)
                reg(self.stem_bn, mw, False)
                reg(self.mid, mw, False)
            if cfg.get('kernels'):
                mk = OneShotMutableValue(value_list=list(cfg['kernels']))
                self.stem.register_mutable_attr('kernel_size', mk)
        if cfg.get('depths'):
            md = OneShotMutableValue(value_list=list(cfg['depths']))
            self.deep.register_mutable_attr('depth', md)

    def features(self, x):
        x = self.stem_act(self.stem_bn(self.stem(x)))
        x = self.mid(x)
        x = self.deep(x)
        for b in self.blocks:
            x = b(x)
        return x

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.features(inputs)
        y = self.head(x.mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def gen_space(rng, rich=True, max_blocks=3):
    """A random search-space config (JSON)."""
    c = rng.choice([2, 3, 4, 6])
    cfg = dict(c=c, classes=rng.choice([2, 3, 5]))
    nb = rng.randint(1, max_blocks)
    cfg['ops'] = []
    for _ in range(nb):
        k = rng.randint(1, 4)
        cfg['ops'].append(rng.sample(OPS, k))
    if rich and rng.chance(0.6):
        if rng.chance(0.8):
            ws = sorted(rng.sample(range(1, c + 1), rng.randint(1, c)))
            if c not in ws:
                ws.append(c)
            cfg['widths'] = ws
        if rng.chance(0.6):
            cfg['kernels'] = rng.choice([[1, 3], [3, 5], [1, 3, 5]])
    if rich and rng.chance(0.4):
        cfg['depths'] = sorted(rng.sample([1, 2, 3], rng.randint(1, 3)))
    return cfg


def build_spos(cfg, wseed, algo_cls=SPOS):
    arch = NetArch(cfg)
    algo = algo_cls(architecture=arch, mutator=NasMutator())
    seeded_init(algo, wseed)
    algo.eval()
    return algo


def batch(seed, n=2, size=6, classes=4):
    g = torch.Generator().manual_seed(seed)
    return dict(inputs=torch.randn(n, 3, size, size, generator=g),
                data_samples=torch.randint(0, classes, (n, ), generator=g))


def legal(mutator, choices):
    """Is ``choices`` a complete, legal point of the search space?"""
    groups = mutator.search_groups
    if set(choices) != set(groups):
        return f'groups {sorted(map(str, choices))} != ' \
               f'{sorted(map(str, groups))}'
    for k, ms in groups.items():
        m = ms[0]
        opts = m.candidate_choices if hasattr(m, 'candidate_choices') \
            else m.choices
        if choices[k] not in list(opts):
            return f'{k}: {choices[k]!r} not in {list(opts)}'
    return None


class StubRunner:
    """What search loops need of a Runner; the loop itself is real."""

    def __init__(self, model, work_dir, rank=0, distributed=False,
                 train_dataloader=None, logger=None):
        self.model = model
        self.work_dir = work_dir
        self.rank = rank
        self.distributed = distributed
        self.train_dataloader = train_dataloader
        self.logger = logger or NullLogger()
        self.hooks = []
        self.visualizer = SimpleNamespace(dataset_meta=None)
        self.message_hub = None
        self.epoch = 0

    def call_hook(self, name, **kw):
        self.hooks.append(name)

    def build_dataloader(self, d, *a, **k):
        return d

    def build_evaluator(self, e):
        return e


class NullLogger:

    def info(self, *a, **k):
        pass

    debug = warning = error = critical = log = info


class ListLoader:
    """A deterministic data loader over explicit batches."""

    def __init__(self, batches, n=None):
        self.batches = batches
        self.dataset = DS(n if n is not None else sum(
            len(b['inputs']) for b in batches))
        self.batch_size = len(batches[0]['inputs']) if batches else 1

    def __iter__(self):
        return iter(self.batches)

    def __len__(self):
        return len(self.batches)


class DS:
    metainfo = dict(classes=('a', 'b'))

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


# ------------------------------------------------ channel-prunable networks
class CnnArch(BaseModel):
    """conv / residual / depthwise / concat layers, pooled linear head.

    cfg: layers: [{k: conv|res|dw|cat, c}], classes, stem, bn, tap."""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        c = cfg.get('stem', 4)
        bn = cfg.get('bn', True)
        bno = cfg.get('bno')
        mods = [nn.Conv2d(3, c, 3, padding=1, bias=not bn)]
        if bn:
            mods.append(nn.BatchNorm2d(c, **(bno or {})))
        mods.append(nn.ReLU())
        self.stem = nn.Sequential(*mods)
        ls = []
        for l in cfg['layers']:
            ls.append(Block(l, c, bn, bno))
            c = ls[-1].out
        self.layers = nn.ModuleList(ls)
        k = cfg.get('classes', 3)
        self.flat = cfg.get('flat', 1)
        c = c * self.flat ** 2
        if cfg.get('hid'):
            self.head = nn.Sequential(
                nn.Linear(c, cfg['hid']), nn.ReLU(), nn.Linear(cfg['hid'], k))
        else:
            self.head = nn.Linear(c, k)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.stem(inputs)
        for l in self.layers:
            x = l(x)
        if self.flat > 1:
            y = F.adaptive_avg_pool2d(x, self.flat).flatten(1)
        else:
            y = x.mean((2, 3))
        y = self.head(y)
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def _cbr(ci, co, bn, relu=True, groups=1, o=None, bno=None):
    o = o or {}
    k, d = o.get('k', 3), o.get('d', 1)
    m = [nn.Conv2d(ci, co, k, stride=o.get('s', 1), dilation=d,
                   padding=o.get('p', d * (k // 2)),
                   bias=not bn or o.get('b', False), groups=groups)]
    if bn:
        m.append(nn.BatchNorm2d(co, **(bno or {})))
    if relu:
        m.append(nn.ReLU())
    return nn.Sequential(*m)


class Block(nn.Module):

    def __init__(self, l, ci, bn, bno=None):
        super().__init__()
        self.kind = l['k']
        c = l['c']
        kw = dict(o=l.get('o'), bno=bno)
        kw1 = dict(o=l.get('o1'), bno=bno)
        if self.kind == 'conv':
            self.a = _cbr(ci, c, bn, **kw)
            self.out = c
        elif self.kind == 'res':
            self.a = _cbr(ci, c, bn, **kw)
            self.b = _cbr(c, ci, bn, relu=False, **kw1)
            self.out = ci
        elif self.kind == 'dw':
            self.a = _cbr(ci, ci, bn, groups=ci, **kw)
            self.b = _cbr(ci, c, bn, **kw1)
            self.out = c
        elif self.kind == 'cat':
            self.a = _cbr(ci, c, bn, **kw)
            self.b = _cbr(ci, c, bn, **kw1)
            self.out = 2 * c

    def forward(self, x):
        if self.kind == 'conv':
            return self.a(x)
        if self.kind == 'res':
            return F.relu(x + self.b(self.a(x)))
        if self.kind == 'dw':
            return self.b(self.a(x))
        return torch.cat([self.a(x), self.b(x)], 1)


def gen_cnn(rng, max_layers=3, kinds=('conv', 'res', 'dw', 'cat'), bn=True,
            cs=(2, 3, 4, 6, 8)):
    n = rng.randint(1, max_layers)
    return dict(stem=rng.choice(list(cs)), classes=rng.randint(2, 4), bn=bn,
                layers=[dict(k=rng.choice(list(kinds)), c=rng.choice(list(cs)))
                        for _ in range(n)])


def decorate_cnn(rng, cfg, track=True):
    """Kernel, stride, dilation, padding, bias, norm and head variants."""
    def opt(stride=False):
        o = {}
        if rng.chance(0.5):
            o['k'] = rng.choice([1, 3, 5])
        if rng.chance(0.3):
            o['d'] = 2
        if stride and rng.chance(0.5):
            o['s'] = 2
        if rng.chance(0.3):
            o['b'] = True
        return o
    cfg = dict(cfg, layers=[dict(l) for l in cfg['layers']])
    for l in cfg['layers']:
        if rng.chance(0.7):
            l['o'] = opt(l['k'] in ('conv', 'dw'))
        if rng.chance(0.5):
            l['o1'] = opt()
    if cfg.get('bn') and rng.chance(0.6):
        cfg['bno'] = dict(eps=rng.choice([1e-5, 1e-2, 0.3]),
                          momentum=rng.choice([0.1, 0.4, None]))
        if track and rng.chance(0.2):
            cfg['bno']['track_running_stats'] = False
    if rng.chance(0.3):
        cfg['flat'] = 2
    if rng.chance(0.4):
        cfg['hid'] = rng.choice([2, 4, 6])
    return cfg


PARSE = dict(_scope_='mmrazor', type='ChannelAnalyzer',
             demo_input=(1, 3, 6, 6), tracer_type='BackwardTracer')


def simplify_cnn(cfg):
    for k in ('bno', 'flat', 'hid'):
        if cfg.get(k):
            yield {a: b for a, b in cfg.items() if a != k}
    for j, l in enumerate(cfg['layers']):
        for k in ('o', 'o1'):
            for q in [None] + list(l.get(k) or ()):
                if l.get(k):
                    m = dict(l)
                    if q is None:
                        m.pop(k)
                    else:
                        m[k] = {a: b for a, b in l[k].items() if a != q}
                    yield dict(cfg, layers=cfg['layers'][:j] + [m]
                               + cfg['layers'][j + 1:])
    for j in range(len(cfg['layers'])):
        if len(cfg['layers']) > 1:
            yield dict(cfg, layers=cfg['layers'][:j] + cfg['layers'][j + 1:])


from mmrazor.models.algorithms.base import BaseAlgorithm  # noqa
from mmrazor.models.mutators import OneShotChannelMutator  # noqa


class Prunable(BaseAlgorithm):
    """Architecture plus channel mutator; what a width search operates on."""

    def __init__(self, arch, mutator):
        super().__init__(arch)
        self.mutator = mutator
        mutator.prepare_from_supernet(self.architecture)


def build_oneshot(cfg, cands, mode, wseed):
    mut = OneShotChannelMutator(
        channel_unit_cfg=dict(
            type='OneShotMutableChannelUnit',
            default_args=dict(candidate_choices=list(cands),
                              choice_mode=mode)),
        parse_cfg=copy.deepcopy(PARSE))
    m = Prunable(CnnArch(cfg), mut)
    seeded_init(m, wseed)
    m.eval()
    return m
