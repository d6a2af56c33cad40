"""Small networks quantised by the shipped quantizers (C15, C24)."""
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel

import mmrazor.models  # noqa
from mmrazor.models.algorithms import MMArchitectureQuant
from mmrazor.models.task_modules.tracer.fx.custom_tracer import \
    UntracedMethodRegistry
from .worlds import Block, _cbr, seeded_init


class QHead(nn.Module):
    """Loss and predictions cannot be traced (skipped methods)."""

    def __init__(self, c, classes):
        super().__init__()
        self.fc = nn.Linear(c, classes)

    def forward(self, x):
        return self.fc(x)

    def loss(self, x, data_samples):
        return self._get_loss(self(x), data_samples)

    def predict(self, x, data_samples):
        return self._get_predictions(self(x), data_samples)

    def _get_loss(self, y, data_samples):
        return dict(loss=F.cross_entropy(y, data_samples))

    def _get_predictions(self, y, data_samples):
        return [F.softmax(r, 0) for r in y]


class QArch(BaseModel):
    """conv / res / dw / cat / reused layers, untraceable head."""

    def __init__(self, cfg):
        super().__init__()
        c = cfg.get('stem', 4)
        self.stem = _cbr(3, c, True)
        self.pool = nn.MaxPool2d(3, 1, 1) if cfg.get('pool') else None
        self.relu6 = nn.ReLU6() if cfg.get('relu6') else None
        ls = []
        self.kinds = []
        for l in cfg['layers']:
            if l['k'] == 'again':
                ls.append(_cbr(c, c, l.get('bn', True)))
            elif l['k'] == 'nobn':
                ls.append(_cbr(c, l['c'], False))
                c = l['c']
            elif l['k'] == 'lin':
                ls.append(nn.Conv2d(c, l['c'], 1))
                c = l['c']
            else:
                ls.append(Block(l, c, True))
                c = ls[-1].out
            self.kinds.append(l['k'])
        self.layers = nn.ModuleList(ls)
        self.head = QHead(c, cfg.get('classes', 3))

    def feats(self, x):
        x = self.stem(x)
        if self.pool is not None:
            x = self.pool(x)
        for k, l in zip(self.kinds, self.layers):
            x = l(x)
            if k == 'again':
                x = l(x)
        if self.relu6 is not None:
            x = self.relu6(x)
        return F.adaptive_avg_pool2d(x, 1).flatten(1)

    deploying = False   # the deployment rewriter removes the modes

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.feats(inputs)
        if QArch.deploying:
            return self.head(x)
        if mode == 'loss':
            return self.head.loss(x, data_samples)
        if mode == 'predict':
            return self.head.predict(x, data_samples)
        return self.head(x)


def gen_arch(rng, n=2, again=True):
    kinds = ['conv', 'res', 'dw', 'cat', 'nobn', 'lin']
    if again:
        kinds.append('again')
    cs = (2, 3, 4, 6)
    return dict(stem=rng.choice(list(cs)), classes=rng.randint(2, 4),
                pool=rng.chance(0.4), relu6=rng.chance(0.2),
                layers=[dict(k=rng.choice(kinds), c=rng.choice(list(cs)),
                             bn=rng.chance(0.7))
                        for _ in range(rng.randint(1, n))])


def simplify_arch(a):
    for j in range(len(a['layers'])):
        if len(a['layers']) > 1:
            yield dict(a, layers=a['layers'][:j] + a['layers'][j + 1:])
    for j, l in enumerate(a['layers']):
        if l['k'] != 'nobn':
            ls = list(a['layers'])
            ls[j] = dict(l, k='nobn')
            yield dict(a, layers=ls)
    for k in ('pool', 'relu6'):
        if a.get(k):
            yield dict(a, **{k: False})


def gen_q(rng, lsq):
    """Quantisation scheme."""
    back = rng.choice(['native', 'openvino', 'tensorrt'])
    d = dict(back=back, lsq=lsq, w_pc=rng.chance(0.6),
             a_obs=rng.choice(['mm', 'ma']), w_bit=rng.choice([8, 8, 4]),
             w_sym=True, a_bit=rng.choice([8, 8, 4]),
             a_dtype='quint8' if rng.chance(0.6) else 'qint8',
             a_sym=rng.chance(0.6), w_range=rng.chance(0.5))
    if back == 'openvino':
        d['a_dtype'] = 'quint8'
        d['w_range'] = True
    if back == 'tensorrt':
        d['a_dtype'] = 'qint8'
        d['w_range'] = d['a_sym'] = True
    return d


def qconfig(q):
    if q['lsq']:
        wo = 'LSQPerChannelObserver' if q['w_pc'] else 'LSQObserver'
        ao, fq = 'LSQObserver', 'LearnableFakeQuantize'
    else:
        wo = 'PerChannelMinMaxObserver' if q['w_pc'] else 'MinMaxObserver'
        ao = 'MovingAverageMinMaxObserver' if q['a_obs'] == 'ma' else \
            'MinMaxObserver'
        fq = 'FakeQuantize'
    a = dict(qdtype=q['a_dtype'], bit=q['a_bit'], is_symmetry=q['a_sym'])
    if ao.startswith('Moving'):
        a['averaging_constant'] = 0.1
    return dict(
        w_observer=dict(type='mmrazor.' + wo),
        a_observer=dict(type='mmrazor.' + ao),
        w_fake_quant=dict(type='mmrazor.' + fq),
        a_fake_quant=dict(type='mmrazor.' + fq),
        w_qscheme=dict(qdtype='qint8', bit=q['w_bit'], is_symmetry=True,
                       is_symmetric_range=q['w_range']),
        a_qscheme=a)


QUANT = dict(native='TorchNativeQuantizer', openvino='OpenVINOQuantizer',
             tensorrt='TensorRTQuantizer')


def build(arch, q, wseed, size=6):
    UntracedMethodRegistry.method_dict.clear()
    model = MMArchitectureQuant(
        seeded_init(QArch(arch), wseed),
        dict(type='mmrazor.' + QUANT[q['back']],
             global_qconfig=qconfig(q),
             tracer=dict(type='mmrazor.CustomTracer', skipped_methods=[
                 'props.quant.QHead._get_loss',
                 'props.quant.QHead._get_predictions'])),
        input_shapes=(1, 3, size, size))
    return model
