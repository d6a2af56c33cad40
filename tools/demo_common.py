"""Small real supernets and stub runners used by the demonstrations."""
import os
import random
import sys
import warnings
from types import SimpleNamespace

warnings.filterwarnings('ignore')
import numpy as np  # noqa
import torch  # noqa
import torch.nn as nn  # noqa
import torch.nn.functional as F  # noqa
from mmengine.model import BaseModel  # noqa

import mmrazor.models  # noqa
from mmrazor.models import SPOS  # noqa
from mmrazor.models.architectures.dynamic_ops import (  # noqa
    BigNasConv2d, DynamicBatchNorm2d, DynamicConv2d, DynamicSequential)
from mmrazor.models.mutables import (  # noqa
    MutableChannelContainer, OneShotMutableChannel,
    OneShotMutableChannelUnit, OneShotMutableOP, OneShotMutableValue)
from mmrazor.models.mutators import NasMutator  # noqa

KEY = 'accuracy/top1'


def seed(s):
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def op(kind, c):
    if kind == 'c1':
        return nn.Sequential(nn.Conv2d(c, c, 1), nn.ReLU())
    if kind == 'c3':
        return nn.Sequential(
            nn.Conv2d(c, c, 3, padding=1), nn.BatchNorm2d(c), nn.ReLU())
    return nn.Sequential(
        nn.Conv2d(c, 2 * c, 1), nn.ReLU(), nn.Conv2d(2 * c, c, 1))


class Net(BaseModel):

    def __init__(self, c=4, blocks=3, widths=(2, 4), depths=(1, 2, 3)):
        super().__init__()
        self.stem = BigNasConv2d(3, c, 3, padding=1)
        self.bn = DynamicBatchNorm2d(c)
        self.mid = DynamicConv2d(c, c, 3, padding=1)
        self.deep = DynamicSequential(*[op('c1', c)
                                        for _ in range(max(depths))])
        self.blocks = nn.ModuleList([
            OneShotMutableOP(nn.ModuleDict(
                {k: op(k, c) for k in ('c1', 'c3', 'wide')}))
            for _ in range(blocks)])
        self.head = nn.Linear(c, 4)
        OneShotMutableChannelUnit._register_channel_container(
            self, MutableChannelContainer)
        self.width = OneShotMutableChannel(
            c, candidate_choices=list(widths), choice_mode='number')
        reg = MutableChannelContainer.register_mutable_channel_to_module
        reg(self.stem, self.width, True)
        reg(self.bn, self.width, False)
        reg(self.mid, self.width, False)
        self.deep.register_mutable_attr(
            'depth', OneShotMutableValue(value_list=list(depths)))

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.mid(F.relu(self.bn(self.stem(inputs))))
        x = self.deep(x)
        for b in self.blocks:
            x = b(x)
        y = self.head(x.mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def supernet(s=0, **kw):
    st = torch.get_rng_state()
    torch.manual_seed(s)
    m = SPOS(architecture=Net(**kw), mutator=NasMutator())
    torch.set_rng_state(st)
    m.eval()
    return m


def batch(s, n=2, size=6):
    g = torch.Generator().manual_seed(s)
    return dict(inputs=torch.randn(n, 3, size, size, generator=g),
                data_samples=torch.randint(0, 4, (n, ), generator=g))


class Log:

    def info(self, *a, **k):
        pass

    debug = warning = error = log = info


class Runner:

    def __init__(self, model, work_dir, rank=0, distributed=False,
                 train_dataloader=None):
        self.model, self.work_dir = model, work_dir
        self.rank, self.distributed = rank, distributed
        self.train_dataloader = train_dataloader
        self.logger, self.hooks = Log(), []
        self.visualizer = SimpleNamespace(dataset_meta=None)

    def call_hook(self, name, **kw):
        self.hooks.append(name)

    def build_dataloader(self, d, *a, **k):
        return d

    def build_evaluator(self, e):
        return e


class Loader(list):

    @property
    def dataset(self):
        return SimpleNamespace(
            metainfo={}, __len__=lambda s: 4) if False else DS()


class DS(list):
    metainfo = {}


class Metric:
    """Score of whatever the model currently computes."""
    dataset_meta = None

    def __init__(self, f=None, reduce=None):
        self.f = f or (lambda v: (v * 977.0) % 100)
        self.v, self.reduce, self.seen = 0.0, reduce, []

    def process(self, data_samples, data_batch):
        self.v += float(data_samples.double().abs().sum())

    def evaluate(self, n):
        v, self.v = self.v, 0.0
        if self.reduce:
            v = self.reduce(v)
        self.seen.append(self.f(v))
        return {KEY: self.seen[-1]}


def evo(work, model=None, metric=None, rank=0, distributed=False, wrap=None,
        cls=None, **kw):
    from mmrazor.engine import EvolutionSearchLoop
    model = model or supernet()
    r = Runner(wrap(model) if wrap else model, work, rank, distributed,
               kw.pop('train', None))
    args = dict(max_epochs=3, max_keep_ckpts=3, num_candidates=4, top_k=2,
                num_mutation=2, num_crossover=2, mutate_prob=0.5,
                crossover_prob=0.5, score_key=KEY, constraints_range=None,
                estimator_cfg=dict(type='mmrazor.ResourceEstimator',
                                   input_shape=(1, 3, 6, 6)))
    args.update(kw)
    return (cls or EvolutionSearchLoop)(
        r, Loader([batch(1)]), metric or Metric(), **args)
