"""Small differentiable supernets made of the shipped differentiable
mutables; only the candidate operations and the sizes are the harness's."""
import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel

import mmrazor.models  # noqa
from mmrazor.models import DSNAS, Darts
from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     OneHotMutableOP)
from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
    GumbelChoiceRoute
from mmrazor.models.mutators import NasMutator
from mmrazor.registry import MODELS
from .worlds import OPS, make_op, seeded_init


@MODELS.register_module(force=True)
class SimOp(nn.Module):

    def __init__(self, kind, c):
        super().__init__()
        self.m = make_op(kind, c)

    def forward(self, x):
        return self.m(x)


def cands(kinds, c):
    return {k: dict(type='SimOp', kind=k, c=c) for k in kinds}


class DiffNet(BaseModel):
    """stem -> blocks -> pooled linear head. A block is an operation choice
    ({'op': kinds}) or a choice of routes from all earlier features, each
    edge being an operation choice of its own ({'route': [kinds, ...]})."""

    def __init__(self, cfg, onehot=False):
        super().__init__()
        c = cfg['c']
        self.cfg = cfg
        self.stem = nn.Conv2d(3, c, 3, padding=1)
        self.bn = nn.BatchNorm2d(c)
        op = OneHotMutableOP if onehot else DiffMutableOP
        kw = dict(fix_threshold=cfg['fix']) if onehot and 'fix' in cfg else {}
        blocks = []
        for i, b in enumerate(cfg['blocks']):
            alias = b.get('alias')
            if 'op' in b:
                blocks.append(op(cands(b['op'], c), alias=alias, **kw))
            else:
                edges = nn.ModuleDict()
                for j, kinds in enumerate(b['route']):
                    edges[f'e{j}'] = op(
                        cands(kinds, c),
                        alias=None if alias is None else f'{alias}e{j}')
                cls = GumbelChoiceRoute if b.get('gumbel') else \
                    DiffChoiceRoute
                kw2 = dict(alias=alias, with_arch_param=b.get('soft', True))
                if b.get('gumbel'):
                    kw2.update(hard=b.get('hard', True), tau=b.get('tau', 1.))
                else:
                    kw2.update(num_chosen=b.get('num', 2))
                blocks.append(cls(edges, **kw2))
        self.blocks = nn.ModuleList(blocks)
        self.head = nn.Linear(c, cfg.get('classes', 3))
        self.calls = 0
        self.fail_at = None
        self.fail_bwd = False

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.calls += 1
        boom = self.fail_at is not None and self.calls >= self.fail_at
        if boom and not self.fail_bwd:
            raise RuntimeError('injected forward failure')
        x = F.relu(self.bn(self.stem(inputs)))
        if boom:
            def explode(g):
                raise RuntimeError('injected backward failure')
            x.register_hook(explode)
        feats = [x]
        for b in self.blocks:
            if isinstance(b, DiffChoiceRoute):
                n = len(self.cfg['blocks'][len(feats) - 1]['route'])
                x = b([feats[k % len(feats)] for k in range(n)])
            else:
                x = b(x)
            feats.append(x)
        y = self.head(x.mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def gen_diff(rng, onehot=False, max_blocks=3):
    c = rng.choice([2, 3, 4])
    cfg = dict(c=c, classes=rng.choice([2, 3]), blocks=[])
    alias = rng.chance(0.3) and not onehot
    first = None
    for i in range(rng.randint(1, max_blocks)):
        if onehot or rng.chance(0.5):
            b = dict(op=rng.sample(OPS, rng.randint(1, 4)))
            if alias:
                if first is None:
                    first = b['op']
                if rng.chance(0.7):
                    b = dict(op=list(first), alias='shared')
        else:
            b = dict(route=[rng.sample(OPS, rng.randint(1, 3))
                            for _ in range(rng.randint(2, 4))],
                     num=rng.randint(1, 2))
            if rng.chance(0.3):
                b.update(gumbel=True, hard=rng.chance(0.5),
                         tau=rng.choice([0.5, 1., 2.]))
            elif rng.chance(0.2):
                b['soft'] = False
        cfg['blocks'].append(b)
    return cfg


def build_darts(cfg, wseed, unroll=False, norm_training=False):
    a = Darts(architecture=DiffNet(cfg), mutator=NasMutator(), unroll=unroll,
              norm_training=norm_training)
    seeded_init(a, wseed)
    return a


def build_dsnas(cfg, wseed, flops=1e9, pretrain=0, finetune=10):
    a = DSNAS(architecture=DiffNet(cfg, True), mutator=NasMutator(),
              pretrain_epochs=pretrain, finetune_epochs=finetune,
              flops_constraints=flops,
              estimator_cfg=dict(
                  flops_params_cfg=dict(input_shape=(1, 3, 6, 6))))
    seeded_init(a, wseed)
    return a


def simplify_diff(cfg):
    for i in range(len(cfg['blocks'])):
        if len(cfg['blocks']) > 1:
            yield dict(cfg, blocks=cfg['blocks'][:i] + cfg['blocks'][i + 1:])
        b = cfg['blocks'][i]
        if 'op' in b and len(b['op']) > 1:
            for k in range(len(b['op'])):
                nb = dict(b, op=b['op'][:k] + b['op'][k + 1:])
                if 'alias' not in b:
                    yield dict(cfg, blocks=cfg['blocks'][:i] + [nb]
                               + cfg['blocks'][i + 1:])
        if 'route' in b and len(b['route']) > 1:
            nb = dict(b, route=b['route'][:-1])
            yield dict(cfg, blocks=cfg['blocks'][:i] + [nb]
                       + cfg['blocks'][i + 1:])
