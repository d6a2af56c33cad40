"""C06: any history of architecture choices leaves a consistent model."""
import copy
import random

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel, BaseModule

import mmrazor.models  # noqa
from mmrazor.models.architectures.dynamic_ops import (BigNasConv2d,
                                                      DynamicBatchNorm2d,
                                                      DynamicConv2d,
                                                      DynamicSequential)
from mmrazor.models.mutables import (DerivedMutable, MutableChannelContainer,
                                     OneShotMutableChannel,
                                     OneShotMutableChannelUnit,
                                     OneShotMutableOP, OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.models.mutables.mutable_module.one_shot_mutable_module import \
    OneShotProbMutableOP
from mmrazor.models.mutators import (ChannelMutator, NasMutator,
                                     OneShotChannelMutator,
                                     SlimmableChannelMutator)
from mmrazor.models.mutables.mutable_channel.simple_mutable_channel import \
    SimpleMutableChannel
from . import zoo
from .worlds import (OPS, PARSE, CnnArch, batch, decorate_cnn, gen_cnn, legal, make_op,
                     reg, seeded_init, simplify_cnn)

ID = 'C06'
LEVEL = 'exploration'
QUICK, THOROUGH = 500, 12000
MIN_STEPS = 4
RULE = ('A run builds a search space (operation, value, width, kernel and '
        'depth choices, custom groups, aliases, derived widths; or a '
        'shipped space (Autoformer, AttentiveMobileNetV3, MobileNetV2, '
        'ShuffleNetV2) at a tiny size; or a traced '
        'CNN under a one-shot, sequential, L1 or slimmable channel mutator; '
        'or an expression of derived mutables) and applies a random history '
        'of sampling, setting, max/min, illegal settings, training steps, '
        'failing forward passes and fixing. After every operation the '
        'choices are read back, groups compared, derived values recomputed, '
        'and the output compared bit for bit with a freshly built model set '
        'to those choices and numerically with an independent functional '
        'model that slices the weights itself.')
STATE_MEASURE = 'digest of (kind, current choices)'
COMPONENTS = dict(
    real='NasMutator, ChannelMutator family, mutable channels/values/'
    'modules, derived mutables, channel containers and units, dynamic ops, '
    'channel tracer',
    stub='network definitions, weights and data; failing layers')
ASSUMPTIONS = ['CPU arithmetic is deterministic',
               'candidate widths do not exceed the layer width']
MUST_REACH = ['nas', 'der', 'chan', 'expr', 'fixed', 'failed-forward',
              'illegal', 'trained', 'grouped', 'slimmable', 'ratio', 'zoo',
              'autoformer', 'mbv3', 'mbv2', 'shuffle']


class Boom(RuntimeError):
    pass


# ----------------------------------------------------------------- NAS model
class Nas(BaseModel):
    """stem[width,kernel] - mid - depth stage - op blocks - expand[derived] -
    project - concat - head."""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        c = cfg['c']
        ks = cfg.get('kernels') or [3]
        self.stem = BigNasConv2d(3, c, max(ks), padding=max(ks) // 2)
        self.stem_bn = DynamicBatchNorm2d(c)
        e = cfg['e']
        emax = max(e) if isinstance(e, list) else e
        w2 = cfg['w2'][-1]
        ec = int(c * emax)
        self.exp = DynamicConv2d(c, ec, 1, bias=False)
        self.exp_bn = DynamicBatchNorm2d(ec)
        self.dw = DynamicConv2d(ec, ec, 3, padding=1, groups=ec)
        self.proj = DynamicConv2d(ec, w2, 1)
        self.cat = DynamicConv2d(c + w2, c, 1)
        d = cfg.get('depths')
        self.deep = DynamicSequential(
            *[DynamicConv2d(c, c, 3, padding=1) if cfg.get('dyndeep')
              else make_op('c3' if i % 2 else 'c1', c)
              for i in range(max(d))]) if d else nn.Identity()
        self.blocks = nn.ModuleList()
        for b in cfg['ops']:
            cand = nn.ModuleDict({k: make_op(k, c) for k in b['k']})
            if b.get('p'):
                m = OneShotProbMutableOP(cand, choice_probs=list(b['p']),
                                         alias=b.get('alias'))
            else:
                m = OneShotMutableOP(cand, alias=b.get('alias'))
            self.blocks.append(m)
        self.head = nn.Linear(c, 3)
        OneShotMutableChannelUnit._register_channel_container(
            self, MutableChannelContainer)
        mode = 'ratio' if cfg.get('ratio') else 'number'

        def cand(ws, n):
            return [w / n for w in ws] if cfg.get('ratio') else list(ws)
        al = (lambda x: x) if cfg.get('aliased') else (lambda x: None)
        w1 = OneShotMutableChannel(c, cand(cfg['w1'], c), mode,
                                   alias=al('width1'))
        w2m = OneShotMutableChannel(w2, cand(cfg['w2'], w2), mode,
                                    alias=al('width2'))
        ev = None
        if isinstance(e, list):
            ev = OneShotMutableValue(value_list=list(e), alias=al('expand'))
            we = w1 * ev if cfg.get('how', 'mul') == 'mul' else \
                w1.derive_expand_mutable(ev)
        else:
            we = w1 * e
        if cfg.get('derfirst'):
            self.we = we
        self.w1, self.w2 = w1, w2m
        if ev is not None:
            self.ev = ev
        self.we = we

        def put(mod, m, out, start, end):
            MutableChannelContainer.register_mutable_channel_to_module(
                mod, m, out, start, end)
        put(self.stem, self.w1, True, 0, c)
        put(self.stem_bn, self.w1, False, 0, c)
        put(self.exp, self.w1, False, 0, c)
        put(self.exp, self.we, True, 0, ec)
        put(self.exp_bn, self.we, False, 0, ec)
        put(self.dw, self.we, False, 0, ec)
        put(self.dw, self.we, True, 0, ec)
        put(self.proj, self.we, False, 0, ec)
        put(self.proj, self.w2, True, 0, w2)
        put(self.cat, self.w1, False, 0, c)
        put(self.cat, self.w2, False, c, c + w2)
        if cfg.get('kernels'):
            self.stem.register_mutable_attr('kernel_size', OneShotMutableValue(
                value_list=list(ks)))
        if d:
            self.deep.register_mutable_attr(
                'depth', OneShotMutableValue(value_list=list(d)))

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = F.relu(self.stem_bn(self.stem(inputs)))
        y = self.dw(F.relu(self.exp_bn(self.exp(x))))
        x = self.cat(torch.cat([x, self.proj(y)], 1))
        x = self.deep(x)
        for b in self.blocks:
            x = b(x)
        y = self.head(x.mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y

    # what the choices are, read from the mutables one by one
    def asked(self):
        c, cfg = self.cfg['c'], self.cfg
        w1 = self.w1.current_choice
        w2 = self.w2.current_choice
        if cfg.get('ratio'):
            w1, w2 = round(w1 * c), round(w2 * cfg['w2'][-1])
        e = self.ev.current_choice if isinstance(cfg['e'], list) else cfg['e']
        k = self.stem.mutable_attrs['kernel_size'].current_choice \
            if cfg.get('kernels') else 3
        d = self.deep.mutable_depth.current_choice if cfg.get('depths') else 0
        ops = [b.current_choice for b in self.blocks]
        return dict(w1=w1, w2=w2, e=e, k=k, d=d, ops=ops)

    @torch.no_grad()
    def reference(self, x, a):
        """Functional model: slices plain weights by the asked choices."""
        c = self.cfg['c']
        n1, n2 = a['w1'], a['w2']
        ne = int(n1 * a['e'])
        w = self.stem.weight
        o = (w.size(2) - a['k']) // 2
        w = w[:n1, :, o:o + a['k'], o:o + a['k']]
        x = F.conv2d(x, w, self.stem.bias[:n1], padding=a['k'] // 2)

        def bn(m, x, n):
            return F.batch_norm(x, m.running_mean[:n], m.running_var[:n],
                                m.weight[:n], m.bias[:n], False, 0, m.eps)
        x = F.relu(bn(self.stem_bn, x, n1))
        y = F.conv2d(x, self.exp.weight[:ne, :n1])
        y = F.relu(bn(self.exp_bn, y, ne))
        y = F.conv2d(y, self.dw.weight[:ne], self.dw.bias[:ne], padding=1,
                     groups=ne)
        z = F.conv2d(y, self.proj.weight[:n2, :ne], self.proj.bias[:n2])
        wc = torch.cat([self.cat.weight[:, :n1],
                        self.cat.weight[:, c:c + n2]], 1)
        x = F.conv2d(torch.cat([x, z], 1), wc, self.cat.bias)
        if self.cfg.get('depths'):
            for i in range(a['d']):
                x = self.deep._modules[str(i)](x)
        for b, k in zip(self.blocks, a['ops']):
            x = b._candidates[k](x)
        return self.head(x.mean((2, 3)))


def gen_nas(rng):
    c = rng.choice([2, 4, 6, 7, 49])
    cfg = dict(c=c, w1=sorted(set(rng.sample(range(1, c + 1),
                                             rng.randint(1, min(c, 5)))
                                  + [c])))
    c2 = rng.choice([2, 3, 4])
    cfg['w2'] = sorted(set(rng.sample(range(1, c2 + 1), rng.randint(1, c2))
                           + [c2]))
    cfg['e'] = rng.weighted([(2, 2), (1, 1.5), (1, 1), (3, [1, 2]),
                             (1, [1, 2, 3]), (1, [1.0, 1.5, 2.0])])
    if isinstance(cfg['e'], list) and rng.chance(0.4):
        cfg['how'] = 'derive'
    if rng.chance(0.35):
        cfg['ratio'] = True
    if rng.chance(0.5):
        cfg['kernels'] = rng.choice([[1, 3], [3, 5], [1, 3, 5]])
    if rng.chance(0.5):
        cfg['depths'] = sorted(rng.sample([1, 2, 3], rng.randint(1, 3)))
    for k in ('aliased', 'derfirst', 'dyndeep'):
        if rng.chance(0.3):
            cfg[k] = True
    cfg['ops'] = []
    cfg['groups'] = []
    if rng.chance(0.7):
        n = rng.randint(1, 4)
        kinds = rng.sample(OPS, rng.randint(1, 3))
        for i in range(n):
            b = dict(k=list(kinds) if rng.chance(0.6)
                     else rng.sample(OPS, rng.randint(1, 4)))
            cfg['ops'].append(b)
        same = [i for i in range(n) if cfg['ops'][i]['k'] == kinds]
        how = rng.randint(0, 3)
        if len(same) > 1 and how == 1:
            for i in same:
                cfg['ops'][i]['alias'] = 'al'
            if rng.chance(0.4):
                cfg['groups'] = [['al']]
        elif len(same) > 1 and how == 2:
            cfg['groups'] = [[f'blocks.{i}' for i in same]]
        for b in cfg['ops']:
            if rng.chance(0.2):
                p = [rng.randint(0, 3) for _ in b['k']]
                if sum(p):
                    b['p'] = [x / sum(p) for x in p]
    return cfg


class Wrap(BaseModule):

    def __init__(self, arch, mutator):
        super().__init__()
        self.architecture = arch
        self.mutator = mutator
        mutator.prepare_from_supernet(arch)


def build_nas(plan):
    cfg = copy.deepcopy(plan['cfg'])
    m = Wrap(Nas(cfg), NasMutator(custom_groups=cfg['groups'] or None))
    seeded_init(m.architecture, plan['wseed'])
    m.eval()
    return m


def build_zoo(plan):
    m = Wrap(zoo.ZooArch(copy.deepcopy(plan['cfg'])), NasMutator())
    seeded_init(m.architecture, plan['wseed'])
    m.eval()
    return m


def builder(kind):
    return dict(nas=build_nas, chan=build_chan, zoo=build_zoo)[kind]


# ------------------------------------------------------------- channel model
def build_chan(plan):
    cfg = plan['cfg']
    t = plan['mut']
    arch = CnnArch(copy.deepcopy(cfg))
    if t['k'] == 'oneshot':
        da = dict(candidate_choices=list(t['cands']), choice_mode=t['mode'])
        if t.get('divisor'):
            da['divisor'] = t['divisor']
        mut = OneShotChannelMutator(
            channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                  default_args=da),
            parse_cfg=copy.deepcopy(PARSE))
    elif t['k'] == 'slim':
        probe = ChannelMutator(
            channel_unit_cfg=dict(type='SequentialMutableChannelUnit',
                                  default_args={}),
            parse_cfg=copy.deepcopy(PARSE))
        probe.prepare_from_supernet(CnnArch(copy.deepcopy(cfg)))
        units = {}
        for u in probe.mutable_units:
            n = u.num_channels
            ws = sorted({max(1, int(n * f)) for f in t['fr']} | {n})
            while len(ws) < len(t['fr']) + 1:
                ws.insert(0, ws[0])
            units[u.name] = dict(init_args=dict(candidate_choices=sorted(ws)))
        for u in units.values():
            if len(set(u['init_args']['candidate_choices'])) != \
                    len(u['init_args']['candidate_choices']):
                return None
        mut = SlimmableChannelMutator(
            channel_unit_cfg=dict(type='SlimmableChannelUnit', units=units),
            parse_cfg=copy.deepcopy(PARSE))
    else:
        mut = ChannelMutator(
            channel_unit_cfg=dict(
                type='L1MutableChannelUnit' if t['k'] == 'l1'
                else 'SequentialMutableChannelUnit',
                default_args=dict(choice_mode=t['mode'],
                                  divisor=t.get('divisor', 1))),
            parse_cfg=copy.deepcopy(PARSE))
    m = Wrap(arch, mut)
    seeded_init(m.architecture, plan['wseed'])
    m.eval()
    return m


@torch.no_grad()
def chan_reference(m, plan, x):
    """The plain network with the channels that are not selected zeroed."""
    ref = CnnArch(copy.deepcopy(plan['cfg']))
    sd = {k: v for k, v in m.architecture.state_dict().items()
          if k in ref.state_dict()}
    assert set(sd) == set(ref.state_dict())
    ref.load_state_dict(sd)
    ref.eval()
    mods = dict(ref.named_modules())
    dyn = dict(m.architecture.named_modules())
    t = plan['mut']['k']
    for u in m.mutator.mutable_units:
        mask = u.mutable_channel.current_mask
        n = u.num_channels
        want = u.current_choice
        if isinstance(want, float):
            want = round(want * n)
        if int(mask.sum()) != want:
            return ('mask', f'{u.name}: {int(mask.sum())} channels active, '
                    f'choice {u.current_choice}')
        if t != 'l1' and not bool(mask[:want].all()):
            return ('mask', f'{u.name}: mask is not the first {want}')
        for ch in u.output_related:
            mod = mods.get(ch.name)
            if isinstance(mod, (nn.Conv2d, nn.BatchNorm2d, nn.Linear)):
                _mask(mod, mask, ch.start, ch.end)
        if t == 'slim' and want != n:
            for ch in list(u.output_related) + list(u.input_related):
                bn = dyn.get(ch.name)
                if hasattr(bn, 'candidate_bn'):
                    b = bn.candidate_bn[str(want)]
                    r = mods[ch.name]
                    for p in ('weight', 'bias', 'running_mean',
                              'running_var'):
                        getattr(r, p).data[:want] = getattr(b, p).data
        for ch in u.input_related:
            mod = mods.get(ch.name)
            if isinstance(mod, nn.BatchNorm2d):
                _mask(mod, mask, ch.start, ch.end)
    return ('out', ref(x))


def _mask(mod, mask, a, b):
    def hook(_m, _i, out):
        out = out.clone()
        out[:, a:b] = out[:, a:b] * mask.view(
            1, -1, *[1] * (out.dim() - 2))
        return out
    mod.register_forward_hook(hook)


def gen_chan(rng):
    mk = rng.weighted([(4, 'oneshot'), (2, 'slim'), (2, 'seq'), (2, 'l1')])
    kinds = ('conv', 'res', 'dw', 'cat') if mk != 'slim' else (
        'conv', 'res', 'dw')
    mode = rng.choice(['number', 'ratio']) if mk != 'slim' else 'number'
    div = rng.weighted([(3, 1), (1, 2), (1, 4), (1, 8)]) \
        if mk in ('oneshot', 'seq') else 1
    cs = [div * k for k in (1, 2, 3)] if div > 1 else [2, 3, 4, 6, 7]
    if rng.chance(0.1) and div == 1:
        cs = [49]
    cfg = gen_cnn(rng, 2, kinds, bn=rng.chance(0.85), cs=cs)
    if mk == 'oneshot' and mode == 'number':
        for l in cfg['layers']:
            l['c'] = cfg['stem']
        if any(l['k'] == 'cat' for l in cfg['layers']):
            mode = 'ratio'
    if rng.chance(0.6):
        cfg = decorate_cnn(rng, cfg, track=mk != 'slim')
        if cfg.get('hid'):
            cfg['hid'] = cfg['stem']
    t = dict(k=mk, mode=mode, divisor=div)
    if mk == 'oneshot':
        if mode == 'number':
            n = cfg['stem']
            t['cands'] = sorted(set(rng.sample(
                range(1, n + 1), rng.randint(1, min(n, 5))) + [n]))
        else:
            d = rng.choice([4, 8, 12])
            k = rng.sample(range(1, d), rng.randint(1, min(5, d - 1)))
            t['cands'] = sorted([x / d for x in k] + [1.0])
    if mk == 'slim':
        t['fr'] = sorted(rng.sample([0.25, 0.5, 0.75], rng.randint(1, 2)))
    return cfg, t


# --------------------------------------------------------- derived mutables
def mkdiv(v, d):
    new = max(d, int(v + d / 2) // d * d)
    if new < 0.9 * v:
        new += d
    return new


def gen_expr(rng, nsrc, depth=0):
    """[op, ...] over channel sources (c i), value sources (v i)."""
    if depth > 2 or rng.chance(0.25):
        return ['c', rng.randint(0, nsrc['c'] - 1)]
    k = rng.weighted([(3, 'mul'), (2, 'mulf'), (2, 'mulv'), (2, 'div'),
                      (1, 'divd'), (2, 'cat'), (1, 'same'), (1, 'divv'),
                      (1, 'divf')])
    sub = gen_expr(rng, nsrc, depth + 1)
    if k in ('mulv', 'divv'):
        sub = ['c', rng.randint(0, nsrc['c'] - 1)]
        return [k, sub, rng.randint(0, nsrc['v'] - 1),
                rng.choice(['op', 'fn'])]
    if k == 'mul':
        return [k, sub, rng.randint(1, 3)]
    if k == 'mulf':
        return [k, sub, rng.choice([0.5, 1.5, 2.0, 2.5])]
    if k == 'div':
        return [k, sub, rng.randint(1, 4)]
    if k == 'divf':
        return [k, sub, rng.choice([2.0, 3.0])]
    if k == 'divd':
        return [k, sub, rng.randint(1, 4), rng.choice([1, 2, 4])]
    if k == 'cat':
        return [k, sub, gen_expr(rng, nsrc, depth + 1)]
    return [k, sub]


def build_expr(e, cs, vs):
    k = e[0]
    if k == 'c':
        return cs[e[1]]
    a = build_expr(e[1], cs, vs)
    if k == 'mul':
        return a.derive_expand_mutable(e[2])
    if k == 'mulf':
        return a.derive_expand_mutable(e[2])
    if k == 'mulv':
        v = vs[e[2]]
        return a * v if e[3] == 'op' else a.derive_expand_mutable(v)
    if k == 'div':
        return a.derive_divide_mutable(e[2])
    if k == 'divf':
        return a.derive_divide_mutable(e[2])
    if k == 'divd':
        return a.derive_divide_mutable(e[2], e[3])
    if k == 'divv':
        v = vs[e[2]]
        return a // v if e[3] == 'op' else a.derive_divide_mutable(v)
    if k == 'cat':
        return DerivedMutable.derive_concat_mutable(
            [a, build_expr(e[2], cs, vs)])
    return a.derive_same_mutable()


# ------------------------------------------------------------------ plans
def gen(rng, i, tier):
    kind = rng.weighted([(4, 'nas'), (4, 'chan'), (2, 'expr'), (2, 'zoo')])
    plan = dict(kind=kind, wseed=rng.seed32(), seed=rng.seed32())
    if kind == 'nas':
        plan['cfg'] = gen_nas(rng)
    elif kind == 'zoo':
        plan['cfg'] = zoo.gen(rng)
    elif kind == 'chan':
        plan['cfg'], plan['mut'] = gen_chan(rng)
    else:
        plan['cfg'] = gen_expr_cfg(rng)
    n = rng.randint(3, 12 if tier == 'quick' else 25)
    ops = []
    for _ in range(n):
        op = rng.weighted([(4, 'sample'), (5, 'set'), (2, 'max'), (2, 'min'),
                           (2, 'bad'), (2, 'boom'), (1, 'train')])
        ops.append([op, rng.seed32()])
    plan['ops'] = ops
    plan['fix'] = rng.chance(0.5)
    return plan


def gen_expr_cfg(rng):
    cs = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([4, 8, 12, 48])
        cs.append(dict(n=n, mode=rng.weighted([(2, 'number'),
                                               (1, 'ratio')]),
                       cand=sorted(set(rng.sample(range(1, n + 1), 3) + [n])),
                       t=rng.choice(['seq', 'one'])))
    vs = []
    for _ in range(rng.randint(1, 2)):
        vs.append(rng.choice([[1, 2], [1, 2, 3], [2, 4], [1.0, 2.0]]))
    es = [gen_expr(rng, dict(c=len(cs), v=len(vs))) for _ in
          range(rng.randint(1, 3))]
    # padded containers: (start, end) of the covered part
    return dict(cs=cs, vs=vs, es=es,
                gap=[rng.randint(0, 3), rng.randint(0, 3)])


def run(plan, sim):
    random.seed(plan['seed'] % 2**32)
    if plan['kind'] == 'expr':
        return run_expr(plan, sim)
    build = builder(plan['kind'])
    m = build(plan)
    if m is None:
        sim.log('skip', 'no distinct widths')
        for _ in range(MIN_STEPS):
            sim.log('skip')
        return
    W = World(plan, sim, m, build)
    if plan['kind'] == 'nas':
        sim.probe('nas')
        sim.probe('der')
        if plan['cfg'].get('ratio'):
            sim.probe('ratio')
    elif plan['kind'] == 'zoo':
        sim.probe('zoo')
        sim.probe(plan['cfg']['zoo'])
    else:
        sim.probe('chan')
        if plan['mut']['k'] == 'slim':
            sim.probe('slimmable')
        if plan['mut']['mode'] == 'ratio':
            sim.probe('ratio')
        for u in m.mutator.mutable_units:
            cc = getattr(u, 'candidate_choices', [])
            if any((c > u.num_channels if isinstance(c, int) else c > 1.0)
                   for c in cc):
                for _ in range(MIN_STEPS):
                    sim.log('skip')
                return
    # a newly built one-shot model has no operation chosen yet
    W.do_set(plan['seed'])
    W.verify('start')
    for op, s in plan['ops']:
        sim.log('op', op)
        getattr(W, 'do_' + op)(s)
        W.verify(op)
    if plan['fix'] and W.nas:
        W.fix()


class World:

    def __init__(self, plan, sim, m, build):
        self.plan, self.sim, self.m, self.build = plan, sim, m, build
        self.nas = plan['kind'] in ('nas', 'zoo')
        self.zoo = plan['kind'] == 'zoo'
        self.asked = None
        self.x = batch(plan['wseed'] % 1000, classes=2)['inputs']
        self.twin_sd = None
        if self.nas and any(len(g) > 1
                            for g in m.mutator.search_groups.values()):
            sim.probe('grouped')

    # -- the space
    def parts(self):
        mut = self.m.mutator
        if self.nas:
            return {k: v for k, v in mut.search_groups.items()}
        return {u.name: [u] for u in mut.mutable_units}

    def options(self, m):
        if hasattr(m, 'candidate_choices'):
            return list(m.candidate_choices)
        if hasattr(m, 'choices'):
            return list(m.choices)
        n = m.num_channels
        d = m.divisor
        nums = [k for k in range(d, n + 1, d)]
        return nums if m.is_num_mode else [k / n for k in nums]

    def has_ops(self):
        if self.zoo:
            return self.plan['cfg']['zoo'] in ('mbv2', 'shuffle')
        return self.nas and bool(self.plan['cfg']['ops'])

    # -- operations
    def _set(self, ch, label):
        mut = self.m.mutator
        try:
            mut.set_choices(copy.deepcopy(ch))
        except (AssertionError, KeyError, ValueError, TypeError,
                RuntimeError, AttributeError) as e:
            self.sim.violate('legal-refused', f'{label}: legal choices {ch} '
                             f'refused: {type(e).__name__}: {e}')
        self.asked = dict(ch)

    def do_sample(self, s):
        if self.plan.get('mut', {}).get('k') == 'slim':
            return self.do_set(s)
        random.seed(s)
        import numpy as np
        np.random.seed(s % 2**32)
        ch = self.m.mutator.sample_choices()
        parts = self.parts()
        self.sim.check(set(ch) == set(parts), 'sample-incomplete',
                       lambda: f'sampled {sorted(ch)}, parts '
                       f'{sorted(parts)}')
        for k, v in ch.items():
            o = self.options(parts[k][0])
            self.sim.check(v in o, 'sample-illegal',
                           lambda: f'{k}: sampled {v!r}, options {o}')
            p = getattr(parts[k][0], 'choice_probs', None)
            if p:
                self.sim.check(
                    p[list(parts[k][0].choices).index(v)] > 0,
                    'sample-illegal', f'{k}: option {v} has probability 0')
        self._set(ch, 'sample')

    def do_set(self, s):
        r = random.Random(s)
        if self.plan.get('mut', {}).get('k') == 'slim':
            ch = r.choice(self.m.mutator.subnets)
            if r.random() < 0.3:
                ch = {k: r.choice(self.options(ms[0]))
                      for k, ms in self.parts().items()}
        else:
            ch = {k: r.choice(self.options(ms[0]))
                  for k, ms in self.parts().items()}
        self._set(ch, 'set')

    def _ext(self, which, s):
        mut = self.m.mutator
        if self.has_ops() or not hasattr(mut, 'set_max_choices'):
            return self.do_set(s)
        want = {k: self.options(ms[0])[0 if which == 'min' else -1]
                for k, ms in self.parts().items()}
        try:
            if s % 2:
                getattr(mut, f'set_{which}_choices')()
            else:
                mut.set_choices(mut.sample_choices(which))
        except Exception as e:
            self.sim.violate('legal-refused',
                             f'{which}: {type(e).__name__}: {e}')
        self.asked = want

    def do_max(self, s):
        self._ext('max', s)

    def do_min(self, s):
        self._ext('min', s)

    def do_bad(self, s):
        """An illegal value for one part is refused and changes nothing."""
        parts = self.parts()
        r = random.Random(s)
        cand = [(k, ms) for k, ms in parts.items()
                if hasattr(ms[0], 'candidate_choices')
                or isinstance(ms[0], OneShotMutableValue)]
        if not cand:
            return
        k, ms = r.choice(cand)
        o = self.options(ms[0])
        bad = o[-1] + (1 if isinstance(o[-1], int) else 0.37)
        self.sim.arm('illegal-choice')
        try:
            ms[0].current_choice = bad
        except (AssertionError, ValueError, KeyError, RuntimeError):
            self.sim.fired('illegal-choice')
            self.sim.probe('illegal')
            return
        self.sim.violate('illegal-accepted', f'{k} accepted {bad}, options '
                         f'{o}')

    def leaves(self):
        return [(n, x) for n, x in self.m.architecture.named_modules()
                if isinstance(x, (nn.Conv2d, nn.BatchNorm2d, nn.Linear,
                                  nn.ReLU))]

    def do_boom(self, s):
        r = random.Random(s)
        n, mod = r.choice(self.leaves())
        before = torch.is_grad_enabled()

        def hook(*a):
            raise Boom(n)
        h = mod.register_forward_pre_hook(hook)
        self.sim.arm('forward-fails')
        try:
            self.m.architecture(self.x)
        except Boom:
            self.sim.fired('forward-fails')
            self.sim.probe('failed-forward')
        finally:
            h.remove()
        torch.set_grad_enabled(before)

    def do_train(self, s):
        a = self.m.architecture
        a.train()
        b = batch(s % 1000, n=4, classes=2)
        loss = a(b['inputs'], b['data_samples'], mode='loss')['loss']
        loss.backward()
        with torch.no_grad():
            for p in a.parameters():
                if p.grad is not None:
                    p -= 0.05 * p.grad
                p.grad = None
        a.eval()
        self.sim.probe('trained')
        if self.plan.get('mut', {}).get('k') == 'l1':
            # the mask is the ranking of the weights when it was set
            self._set(self.asked, 'reset')

    # -- checks
    def verify(self, op):
        sim, mut = self.sim, self.m.mutator
        parts = self.parts()
        cur = mut.current_choices
        sim.check(set(cur) == set(parts), 'incomplete',
                  lambda: f'{op}: choices {sorted(cur)} parts '
                  f'{sorted(parts)}')
        for k, ms in parts.items():
            for x in ms:
                v = x.current_choice
                sim.check(v in self.options(x), 'illegal-current',
                          lambda: f'after {op}: {k} reports {v!r}, options '
                          f'{self.options(x)}')
                sim.check(v == ms[0].current_choice, 'group-differs',
                          lambda: f'after {op}: group {k}: '
                          f'{[y.current_choice for y in ms]}')
                sim.check(v == self.asked[k], 'readback',
                          lambda: f'after {op}: {k} was set to '
                          f'{self.asked[k]!r}, reads {v!r}')
            sim.check(cur[k] == self.asked[k], 'readback',
                      lambda: f'after {op}: {k}: {cur[k]!r}')
        sim.state(self.plan['kind'], cur)
        with torch.no_grad():
            try:
                out = self.m.architecture(self.x)
            except Exception as e:
                sim.violate('cannot-run', f'after {op}, choices {cur}: '
                            f'{type(e).__name__}: {e}')
        sim.log('out', out)
        self.fresh(out, cur, op)
        if self.zoo:
            return self.support(op, cur)
        if self.nas:
            a = self.m.architecture.asked()
            ref = self.m.architecture.reference(self.x, a)
        else:
            what, ref = chan_reference(self.m, self.plan, self.x)
            sim.check(what == 'out', 'mask', lambda: f'after {op}: {ref}')
        ok = torch.allclose(out, ref, rtol=1e-3, atol=1e-4)
        sim.check(ok, 'not-the-subnet', lambda: f'after {op}, choices {cur}: '
                  f'output differs from the network sliced by hand by '
                  f'{(out - ref).abs().max().item():.3g}')

    def fresh(self, out, cur, op):
        """History independence: a new model at these choices and weights."""
        if not hasattr(self, 'pristine'):
            self.pristine = self.build(self.plan)
        t = self.pristine if self.nas is False else self.build(self.plan)
        if not self.nas:
            # one pristine model per run, set to full width in between
            full = {k: self.options(ms[0])[-1]
                    for k, ms in self.parts().items()}
            t.mutator.set_choices(full)
        t.architecture.load_state_dict(
            {k: v for k, v in self.m.architecture.state_dict().items()})
        t.mutator.set_choices(copy.deepcopy(cur))
        with torch.no_grad():
            o2 = t.architecture(self.x)
        self.sim.check(torch.equal(out, o2), 'history-dependent',
                       lambda: f'after {op}, choices {cur}: output differs '
                       f'from a freshly built model by '
                       f'{(out - o2).abs().max().item():.3g}')

    def support(self, op, cur):
        """Only the selected part of the network is trained."""
        sim, a = self.sim, self.m.architecture
        keep = {k: v.clone() for k, v in a.state_dict().items()}
        b = batch(self.plan['wseed'] % 1000, n=4, classes=2)
        a.train()
        a(b['inputs'], b['data_samples'], mode='loss')['loss'].backward()
        a.eval()
        grads = {n: p.grad for n, p in a.named_parameters()
                 if p.grad is not None}
        for p in a.parameters():
            p.grad = None
        a.load_state_dict(keep)
        for what, n, ok in zoo.support(a, grads):
            sim.check(ok, 'outside-subnet', lambda: f'after {op}, choices '
                      f'{cur}: {n}: {what}')

    def fix(self):
        sim, arch = self.sim, self.m.architecture
        cur = self.m.mutator.current_choices
        with torch.no_grad():
            want = arch(self.x)
        for k, ms in self.parts().items():
            for x in ms:
                y = x.mutable_channel if hasattr(x, 'mutable_channel') else x
                if y.is_fixed:
                    continue
                if isinstance(y, SquentialMutableChannel):
                    y.fix_chosen(y.dump_chosen().chosen)
                else:
                    y.fix_chosen(cur[k])
        for k, ms in self.parts().items():
            for x in ms:
                y = x.mutable_channel if hasattr(x, 'mutable_channel') else x
                sim.check(y.is_fixed, 'not-fixed', k)
                v = y.current_choice
                sim.check(v == cur[k], 'readback',
                          lambda: f'{k} fixed to {cur[k]!r} reads {v!r}')
        if not self.zoo:
            sim.check(arch.we.is_fixed, 'not-fixed',
                      'a width derived from fixed choices is not fixed')
        with torch.no_grad():
            got = arch(self.x)
        sim.check(torch.equal(want, got), 'fix-changes',
                  'output changed by fixing the current choices')
        sim.probe('fixed')
        sim.log('fixed', got)


def run_expr(plan, sim):
    sim.probe('expr')
    cfg = plan['cfg']
    cs, csz = [], []
    for c in cfg['cs']:
        if c['t'] == 'one':
            cand = [k / c['n'] for k in c['cand']] if c['mode'] == 'ratio' \
                else list(c['cand'])
            cs.append(OneShotMutableChannel(c['n'], cand, c['mode']))
        else:
            cs.append(SquentialMutableChannel(c['n'], c['mode']))
        csz.append(c['n'])
        if c['mode'] == 'ratio':
            sim.probe('ratio')
    vs = [OneShotMutableValue(value_list=list(v)) for v in cfg['vs']]
    ds = [build_expr(e, cs, vs) for e in cfg['es']]
    gap = cfg['gap']
    box = MutableChannelContainer(gap[0] + csz[0] + gap[1])
    box.register_mutable(cs[0], gap[0], gap[0] + csz[0])
    cn = list(csz)
    vn = [max(v) for v in cfg['vs']]
    sizes = [None] * len(ds)

    def check(op):
        for j, (e, d) in enumerate(zip(cfg['es'], ds)):
            if d in cs:
                continue
            want = expect(e, cn, vn, csz)
            try:
                got, mask = d.current_choice, d.current_mask
            except Exception as ex:
                sim.violate('derived-fails', f'{e}: {type(ex).__name__}: '
                            f'{ex}')
            sim.log('derived', j, got)
            sim.check(got == want, 'derived-choice',
                      lambda: f'after {op}: {e} with channels {cn}, values '
                      f'{vn} is {got}, expected {want}')
            sim.check(int(mask.sum()) == want, 'derived-mask',
                      lambda: f'after {op}: {e} with channels {cn}, values '
                      f'{vn}: {int(mask.sum())} channels active, choice '
                      f'{got}')
            if sizes[j] is None:
                sizes[j] = len(mask)
            sim.check(len(mask) == sizes[j], 'derived-size',
                      lambda: f'after {op}: {e}: mask size changed from '
                      f'{sizes[j]} to {len(mask)}')
            src = d.source_mutables
            need = sources(e, cs, vs)
            sim.check({id(x) for x in need} <= {id(x) for x in src},
                      'derived-sources', lambda: f'{e}: sources '
                      f'{len(src)}, needs {len(need)}')
        try:
            mask = box.current_mask
        except Exception as ex:
            sim.violate('container', f'container with gaps {gap} around '
                        f'{csz[0]} channels: {type(ex).__name__}: {ex}')
        want = [True] * gap[0] + [i < cn[0] for i in range(csz[0])] + \
            [True] * gap[1]
        sim.check(mask.tolist() == want, 'container',
                  lambda: f'container {mask.tolist()} expected {want}')

    check('start')
    for op, s in plan['ops']:
        r = random.Random(s)
        sim.log('op', op)
        if op in ('set', 'sample', 'boom', 'train'):
            if r.random() < 0.6 or not vs:
                i = r.randrange(len(cs))
                c = cfg['cs'][i]
                n = r.choice(c['cand'])
                if op == 'boom':        # a caller's own mask is not shared
                    mask = (torch.arange(c['n']) < n).float()
                    SimpleMutableChannel.current_choice.fset(cs[i], mask)
                    mask.fill_(0)
                else:
                    cs[i].current_choice = n / c['n'] \
                        if c['mode'] == 'ratio' else n
                cn[i] = n
                got = cs[i].current_choice
                sim.check(got == (n / c['n'] if c['mode'] == 'ratio' else n),
                          'readback', lambda: f'channel set to {n} of '
                          f'{c["n"]} ({c["mode"]}) reads {got}')
            else:
                i = r.randrange(len(vs))
                vn[i] = r.choice(cfg['vs'][i])
                vs[i].current_choice = vn[i]
        elif op in ('max', 'min'):
            for i, v in enumerate(vs):
                vn[i] = getattr(v, op + '_choice')
                v.current_choice = vn[i]
                want = (max if op == 'max' else min)(cfg['vs'][i])
                sim.check(vn[i] == want, 'readback', f'{op} {vn[i]}')
        else:
            v = r.choice(vs)
            try:
                v.current_choice = 99
            except ValueError:
                sim.probe('illegal')
            else:
                sim.violate('illegal-accepted', 'value 99')
        sim.state('expr', cn, vn)
        check(op)


def expect(e, cn, vn, csz):
    k = e[0]
    if k == 'c':
        return cn[e[1]]
    n = expect(e[1], cn, vn, csz)
    if k in ('mul', 'mulf'):
        return int(n * e[2])
    if k == 'mulv':
        return int(n * vn[e[2]])
    if k == 'div':
        return mkdiv(n // e[2], 8)
    if k == 'divf':
        return mkdiv(n // int(e[2]), 8)
    if k == 'divd':
        return mkdiv(n // e[2], e[3])
    if k == 'divv':
        return mkdiv(n // int(vn[e[2]]), 8)
    if k == 'cat':
        return n + expect(e[2], cn, vn, csz)
    return n


def sources(e, cs, vs):
    if e[0] == 'c':
        return [cs[e[1]]]
    s = sources(e[1], cs, vs)
    if e[0] in ('mulv', 'divv'):
        s.append(vs[e[2]])
    if e[0] == 'cat':
        s += sources(e[2], cs, vs)
    return s


def simplify(plan):
    c = plan['cfg']
    if plan['kind'] == 'chan':
        for s in simplify_cnn(c):
            yield dict(plan, cfg=s)
    if plan['kind'] == 'zoo':
        for s in zoo.simplify(c):
            yield dict(plan, cfg=s)
    if plan['kind'] == 'nas':
        if c['ops']:
            yield dict(plan, cfg=dict(c, ops=[], groups=[]))
        for k in ('kernels', 'depths', 'ratio'):
            if c.get(k):
                yield dict(plan, cfg={a: b for a, b in c.items() if a != k})
    if plan['kind'] == 'expr':
        for j in range(len(c['es'])):
            if len(c['es']) > 1:
                yield dict(plan, cfg=dict(
                    c, es=c['es'][:j] + c['es'][j + 1:]))
            e = c['es'][j]
            if len(e) > 1 and isinstance(e[1], list):
                yield dict(plan, cfg=dict(
                    c, es=c['es'][:j] + [e[1]] + c['es'][j + 1:]))
