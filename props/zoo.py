"""The search spaces the library ships, at tiny sizes."""
import copy

import torch.nn as nn
import torch.nn.functional as F
from mmcls.models import *  # noqa: F401,F403
from mmengine.model import BaseModel

import mmrazor.models  # noqa
from mmrazor.models.architectures.dynamic_ops import DynamicSequential
from mmrazor.models.architectures.dynamic_ops.mixins import \
    DynamicChannelMixin
from mmrazor.models.mutables import OneShotMutableOP
from mmrazor.registry import MODELS

KINDS = ('autoformer', 'mbv3', 'mbv2', 'shuffle')
SIZE = dict(autoformer=32, mbv3=16, mbv2=16, shuffle=16)


def gen(rng, kind=None):
    kind = kind or rng.weighted([(4, 'autoformer'), (4, 'mbv3'), (1, 'mbv2'),
                                 (1, 'shuffle')])
    c = dict(zoo=kind)
    if kind == 'autoformer':
        c['embed'] = sorted(rng.sample([4, 6, 8, 12, 16], rng.randint(1, 3)))
        c['heads'] = sorted(rng.sample([1, 2, 3], rng.randint(1, 2)))
        m = rng.choice([[0.5, 1.0, 1.5, 2.0, 3.0], [1, 2, 3]])
        c['mlp'] = sorted(rng.sample(m, rng.randint(1, 3)))
        c['depth'] = sorted(rng.sample([1, 2, 3], rng.randint(1, 2)))
        c['qkv_bias'] = rng.chance(0.8)
        c['final'] = rng.chance(0.8)
        c['drop'] = rng.weighted([(3, 0.0), (1, 0.3)])
    elif kind == 'mbv3':
        n = rng.randint(1, 3)
        c['k'] = [rng.choice([[3, 3, 2], [3, 5, 2], [1, 5, 2], [5, 5, 2]])
                  for _ in range(n)]
        c['nb'] = [rng.choice([[1, 1, 1], [1, 2, 1], [2, 3, 1], [1, 3, 1]])
                   for _ in range(n)]
        c['e'] = [rng.choice([[1, 1, 1], [1, 2, 1], [2, 3, 1], [2, 2, 1]])
                  for _ in range(n)] + [rng.choice([[1, 1, 1], [2, 3, 1]])]
        c['ch'] = [rng.choice([[8, 8, 8], [8, 16, 8], [16, 16, 8],
                               [8, 24, 8]]) for _ in range(n + 2)]
        c['stride'] = [rng.choice([1, 2]) for _ in range(n)]
        c['se'] = [rng.chance(0.4) for _ in range(n)]
        c['fine'] = rng.chance(0.4)
        c['att'] = rng.chance(0.7)
        if not c['att']:        # plain shortcuts need widths that agree
            c['ch'] = [[max(w[:2])] * 2 + [8] for w in c['ch']]
        c['wide'] = rng.weighted([(4, 1.0), (1, 2.0)])
    else:
        n = 3 if kind == 'shuffle' else rng.randint(1, 3)
        c['st'] = [[rng.choice([8, 16]), rng.randint(1, 2), rng.choice([1, 2])]
                   for _ in range(n)]
        c['last'] = rng.chance(0.7)
    return c


def backbone(c):
    c = copy.deepcopy(c)
    k = c['zoo']
    if k == 'autoformer':
        return dict(
            type='mmrazor.AutoformerBackbone', img_size=32, patch_size=16,
            qkv_bias=c['qkv_bias'], use_final_norm=c['final'],
            drop_rate=c['drop'],
            arch_setting=dict(mlp_ratios=c['mlp'], num_heads=c['heads'],
                              depth=c['depth'], embed_dims=c['embed'])), \
            max(c['embed'])
    if k == 'mbv3':
        n = len(c['k'])
        last = int(max(c['ch'][-1][:2]) * c['wide'])
        return dict(
            type='mmrazor.AttentiveMobileNetV3', out_indices=(n, ),
            widen_factor=c['wide'], fine_grained_mode=c['fine'],
            with_attentive_shortcut=c['att'], stride_list=c['stride'],
            with_se_list=c['se'], zero_init_residual=False,
            act_cfg_list=['Swish'] * (n + 2),
            conv_cfg=dict(type='mmrazor.BigNasConv2d'),
            norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d'),
            arch_setting=dict(kernel_size=c['k'], num_blocks=c['nb'],
                              expand_ratio=c['e'],
                              num_out_channels=c['ch'])), last
    if k == 'mbv2':
        op = dict(type='OneShotMutableOP', candidates={
            f'k{a}e{e}': dict(type='mmrazor.MBBlock', kernel_size=a,
                              expand_ratio=e, norm_cfg=dict(type='BN'),
                              act_cfg=dict(type='ReLU6'))
            for a in (3, 5) for e in (1, 3)})
        return dict(
            type='mmrazor.SearchableMobileNetV2', first_channels=8,
            last_channels=16, widen_factor=1.0,
            out_indices=(len(c['st']), ),
            arch_setting=[[ch, nb, st, op] for ch, nb, st in c['st']]), 16
    op = dict(type='OneShotMutableOP', candidates=dict(
        s3=dict(type='mmrazor.ShuffleBlock', kernel_size=3),
        s5=dict(type='mmrazor.ShuffleBlock', kernel_size=5),
        x=dict(type='mmrazor.ShuffleXception')))
    return dict(
        type='mmrazor.SearchableShuffleNetV2', widen_factor=1.0,
        with_last_layer=False, out_indices=(len(c['st']) - 1, ),
        arch_setting=[[ch, nb, op] for ch, nb, st in c['st']]), \
        c['st'][-1][0]


class ZooArch(BaseModel):

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        b, n = backbone(cfg)
        self.backbone = MODELS.build(b)
        self.n = n
        self.head = nn.Linear(n, 3)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        k = SIZE[self.cfg['zoo']]
        x = inputs
        if x.size(-1) != k:
            x = F.interpolate(x, (k, k), mode='nearest')
        x = self.backbone(x)[-1]
        if x.dim() == 4:
            x = x.mean((2, 3))
        w = self.head.weight[:, :x.size(1)]
        y = F.linear(x, w, self.head.bias)
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def support(arch, grads):
    """(what, name, ok): where the gradients of one pass may be."""
    for n, m in arch.named_modules():
        if isinstance(m, OneShotMutableOP) and not m.is_fixed:
            for k in m.choices:
                if k != m.current_choice:
                    p = f'{n}._candidates.{k}.'
                    bad = [g for g in grads if g.startswith(p)
                           and grads[g].abs().sum() > 0]
                    yield f'gradients in an operation not chosen: {bad}', \
                        n, not bad
        if isinstance(m, DynamicSequential):
            d = m.mutable_depth
            if d is not None:
                for i in range(len(m._modules)):
                    p = f'{n}.{i}.'
                    has = any(g.startswith(p) for g in grads)
                    if i >= int(d.current_choice):
                        yield f'depth {d.current_choice}, block {i} used', \
                            n, not has
                    elif any(x.startswith(p) for x, q in
                             arch.named_parameters() if q.requires_grad):
                        yield f'depth {d.current_choice}, block {i} unused', \
                            n, has
        if isinstance(m, DynamicChannelMixin) and f'{n}.weight' in grads:
            g = grads[f'{n}.weight']
            i = m.get_mutable_attr('in_channels')
            o = m.get_mutable_attr('out_channels')
            for dim, mut in ((0, o), (1, i)):
                if mut is None or (dim == 1 and (
                        g.dim() == 1 or getattr(m, 'groups', 1) > 1)):
                    continue
                k = int(mut.current_mask.sum())
                v = mut.activated_channels if hasattr(
                    mut, 'activated_channels') else k
                yield f'{v} channels active, mask of {k}', n, v == k
                off = g.index_select(
                    dim, (~mut.current_mask.bool()).nonzero().flatten())
                yield f'gradients outside the {k} channels of dim {dim}', \
                    n, not off.numel() or float(off.abs().sum()) == 0


def simplify(c):
    k = c['zoo']
    if k == 'autoformer':
        for f in ('embed', 'heads', 'mlp', 'depth'):
            for j in range(len(c[f])):
                if len(c[f]) > 1:
                    yield dict(c, **{f: c[f][:j] + c[f][j + 1:]})
    elif k == 'mbv3' and len(c['k']) > 1:
        yield dict(c, k=c['k'][:1], nb=c['nb'][:1], e=[c['e'][0], c['e'][-1]],
                   ch=[c['ch'][0], c['ch'][1], c['ch'][-1]],
                   stride=c['stride'][:1], se=c['se'][:1])
