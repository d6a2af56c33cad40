"""C19: estimating resources leaves the model untouched and is repeatable."""
import copy
import io
import random
import time
from contextlib import contextmanager
from types import SimpleNamespace as NS

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel

from mmrazor.engine import EstimateResourcesHook
from mmrazor.models import ResourceEstimator
from mmrazor.models.mutables.base_mutable import BaseMutable
from mmrazor.structures import export_fix_subnet, load_fix_subnet
from simkit.sim import tdigest
from .diff import build_darts, build_dsnas, gen_diff, simplify_diff
from .worlds import (batch, build_oneshot, build_spos, gen_cnn, gen_space,
                     seeded_init, simplify_cnn)

ID = 'C19'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 400, 30000
MIN_STEPS = 3
RULE = ('A run draws a model (one-shot, width, DARTS or DSNAS supernet, or a '
        'static network with shared and oddly placed layers) and a history '
        'of estimates with drawn units, sub-modules, disabled counters, '
        'batch sizes and print-outs, choice changes, training steps, mode '
        'switches, copies, estimate hooks and latency measurements on a '
        'simulated clock; forward passes, input builders and print-outs '
        'fail at drawn points. After every operation the model is compared '
        'with itself before, and the numbers with those of a freshly built '
        'model of the same architecture.')
STATE_MEASURE = 'digest of (operation, choices, numbers)'
COMPONENTS = dict(
    real='ResourceEstimator, get_model_flops_params, get_model_latency, op '
    'counters, EstimateResourcesHook, mutators, dynamic ops, export/load',
    stub='clock and CUDA calls of the latency measurement, runner, failing '
    'layers and streams')
ASSUMPTIONS = ['the forward of the model itself does not keep state in eval '
               'mode']
MUST_REACH = ['spos', 'oneshot', 'darts', 'dsnas', 'plain', 'failed', 'sep',
              'choices', 'latency', 'hook', 'print', 'shared', 'strings',
              'print-failed', 'train-mode']


class Plain(BaseModel):
    """A static network; ``shared`` layers are used more than once or are
    reachable under two names."""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        c = cfg['c']
        self.stem = nn.Conv2d(3, c, 3, padding=1)
        if cfg['shared']:
            self.same = nn.Conv2d(c, c, 1)
        mods = []
        for k in cfg['layers']:
            if k == 'conv':
                m = nn.Conv2d(c, c, 3, padding=1, bias=cfg['bias'])
            elif k == 'gn':
                m = nn.GroupNorm(1, c)
            elif k == 'bn':
                m = nn.BatchNorm2d(c)
            elif k == 'in':
                m = nn.InstanceNorm2d(c, affine=True)
            elif k == 'relu':
                m = nn.ReLU()
            elif k == 'prelu':
                m = nn.PReLU()
            elif k == 'pool':
                m = nn.AvgPool2d(3, 1, 1)
            elif k == 'drop':
                m = nn.Dropout(0.4)
            elif k == 'deconv':
                m = nn.ConvTranspose2d(c, c, 3, padding=1)
            elif k == 'up':
                m = nn.Sequential(nn.Upsample(scale_factor=2),
                                  nn.AvgPool2d(2))
            elif k == 'same':
                m = self.same if cfg['shared'] else nn.Identity()
            mods.append(m)
        self.body = nn.Sequential(*mods)
        self.head = nn.Linear(c, 3)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.head(self.body(self.stem(inputs)).mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


KINDS = ['conv', 'gn', 'bn', 'in', 'relu', 'prelu', 'pool', 'drop', 'deconv',
         'up', 'same']


def gen_est(rng, kind):
    e = dict(units=rng.choice([None, 'K', 'M', 'G', 'keep']),
             size=rng.choice([4, 6, 8]), n=rng.choice([1, 1, 2]),
             strings=rng.chance(0.15), off=rng.sample(
                 ['Conv2dCounter', 'LinearCounter', 'BatchNorm2dCounter',
                  'ReLUCounter', 'DynamicConv2dCounter'],
                 rng.choice([0, 0, 1, 2])),
             cfg=rng.choice(['call', 'call', 'init', 'none']),
             build=rng.chance(0.2), stat=rng.chance(0.15),
             fresh=rng.chance(0.3))
    if rng.chance(0.3):
        e['spec'] = rng.sample(['stem', 'head', 'body', 'layers', 'blocks',
                                'deep', 'mid'], rng.randint(1, 3))
    return e


def gen(rng, i, tier):
    kind = rng.choice(['spos', 'oneshot', 'darts', 'dsnas', 'plain', 'plain'])
    cfg = dict(kind=kind, wseed=rng.seed32(), whole=rng.chance(0.6))
    if kind == 'spos':
        cfg['net'] = gen_space(rng, max_blocks=2)
    elif kind == 'oneshot':
        cfg['net'] = gen_cnn(rng, max_layers=3, cs=(2, 3, 4))
        cfg['cands'] = rng.choice([[0.5, 1.0], [0.25, 0.5, 1.0]])
    elif kind == 'plain':
        cfg['net'] = dict(c=rng.choice([2, 4]), bias=rng.chance(0.5),
                          shared=rng.chance(0.4), layers=[
            rng.choice(KINDS) for _ in range(rng.randint(1, 5))])
        if cfg['net']['shared'] and rng.chance(0.7):
            cfg['net']['layers'].append('same')
    else:
        cfg['net'] = gen_diff(rng, kind == 'dsnas', 2)
    ops = []
    for _ in range(rng.randint(2, 10 if tier == 'quick' else 16)):
        k = rng.weighted([(8, 'est'), (3, 'sep'), (3, 'fail'), (2, 'choose'),
                          (2, 'mode'), (2, 'train'), (1, 'copy'),
                          (1.5, 'hook'), (1, 'latency'), (0.7, 'nolat')])
        o = dict(op=k, s=rng.seed32())
        if k in ('est', 'sep', 'fail'):
            o['e'] = gen_est(rng, kind)
        if k == 'fail':
            o['at'] = rng.randint(1, 8)
            o['how'] = rng.choice(['layer', 'layer', 'layer', 'input',
                                   'print', 'sep'])
        if k == 'hook':
            o['at'] = rng.choice([0, 0, rng.randint(1, 4)])
        if k == 'latency':
            o.update(iters=rng.randint(4, 12), warm=rng.randint(1, 2),
                     log=rng.choice([2, 100]), rep=rng.choice([1, 1, 3]),
                     at=rng.choice([0, 0, rng.randint(2, 6)]))
        ops.append(o)
    return dict(cfg=cfg, seed=rng.seed32(), ops=ops)


def simplify(plan):
    cfg = plan['cfg']
    if cfg['kind'] == 'oneshot':
        for n in simplify_cnn(cfg['net']):
            yield dict(plan, cfg=dict(cfg, net=n))
    elif cfg['kind'] in ('darts', 'dsnas'):
        for n in simplify_diff(cfg['net']):
            yield dict(plan, cfg=dict(cfg, net=n))
    elif cfg['kind'] == 'plain':
        l = cfg['net']['layers']
        for j in range(len(l)):
            if len(l) > 1:
                yield dict(plan, cfg=dict(cfg, net=dict(
                    cfg['net'], layers=l[:j] + l[j + 1:])))


def build(cfg):
    k = cfg['kind']
    if k == 'spos':
        return build_spos(cfg['net'], cfg['wseed'])
    if k == 'oneshot':
        return build_oneshot(cfg['net'], cfg['cands'], 'ratio', cfg['wseed'])
    if k == 'darts':
        return build_darts(cfg['net'], cfg['wseed'])
    if k == 'dsnas':
        return build_dsnas(cfg['net'], cfg['wseed'])
    return seeded_init(Plain(cfg['net']), cfg['wseed'])


def target(m, cfg):
    """What is measured: the algorithm or its architecture."""
    return m if cfg['kind'] == 'plain' or cfg['whole'] else m.architecture


def seeded(es, name, *a):
    """A DSNAS supernet draws its path in every forward."""
    torch.manual_seed(11)
    return getattr(es, name)(*a)


class Boom(RuntimeError):
    pass


class Failer:
    """Makes the n-th layer call fail."""

    def __init__(self, m):
        self.left = 0
        for x in m.modules():
            if not list(x.children()) and not isinstance(x, BaseMutable) \
                    and isinstance(x, (nn.Conv2d, nn.Linear, nn.ReLU,
                                       nn.modules.batchnorm._BatchNorm)):
                x.register_forward_pre_hook(self)

    def __call__(self, mod, args):
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                raise Boom('injected forward failure')

    def __deepcopy__(self, memo):
        # hooks are copied with the model; a copied failer never fires
        f = Failer.__new__(Failer)
        f.left = 0
        memo[id(self)] = f
        return f


VOLATILE = {'calls', 'arch_weights', '_parameters', '_buffers', '_modules'}


def simple(v):
    return isinstance(v, (int, float, str, bool, type(None), tuple))


def finger(m):
    """The model as an outsider can see it."""
    d = {}
    for n, x in m.named_modules():
        at = {}
        for k, v in x.__dict__.items():
            if k in VOLATILE:
                continue
            if k in ('_forward_hooks', '_forward_pre_hooks',
                     '_backward_hooks', '_backward_pre_hooks'):
                at[k] = [(i, id(f)) for i, f in v.items()]
            elif simple(v):
                at[k] = repr(v)
            else:
                at[k] = type(v).__name__
        d[n] = (at, hasattr(x, 'arch_weights'))
    p = {n: (tdigest(v), v.requires_grad,
             None if v.grad is None else tdigest(v.grad))
         for n, v in m.named_parameters()}
    b = {n: tdigest(v) for n, v in m.named_buffers()}
    return d, p, b


def diff(a, b):
    out = []
    for x, y, what in zip(a, b, ('module', 'parameter', 'buffer')):
        for k in sorted(set(x) | set(y)):
            u, v = x.get(k), y.get(k)
            if what == 'module' and u and v:
                if u[1] and not v[1]:
                    out.append(f'{k or "root"}: arch_weights is gone')
                u, v = u[0], v[0]
                for n in sorted(set(u) | set(v)):
                    if u.get(n) != v.get(n):
                        out.append(f'{k or "root"}.{n}: {u.get(n, "absent")} '
                                   f'-> {v.get(n, "absent")}')
            elif u != v:
                out.append(f'{what} {k}')
    return out


def spec_of(e, m):
    names = dict(m.named_modules())
    pre = '' if any(s in names for s in ('stem',)) else 'architecture.'
    out = []
    for s in e.get('spec', []):
        if pre + s in names and list(names[pre + s].modules()):
            out.append(pre + s)
    return out


def cfg_of(e, m, spec=False):
    """Arguments of an estimate; (constructor kwargs, call cfg)."""
    c = dict(input_shape=(e['n'], 3, e['size'], e['size']))
    if e['units'] != 'keep':
        c['units'] = None if e['units'] is None else dict(
            flops=e['units'], params=e['units'])
    if e['strings']:
        c['as_strings'] = True
    if e['off']:
        c['disabled_counters'] = list(e['off'])
    if e['build']:
        c['input_constructor'] = make_input
    if spec:
        c['spec_modules'] = spec_of(e, m) or [
            'stem' if hasattr(m, 'stem') else 'architecture.stem']
    return c


def make_input(shape):
    g = torch.Generator().manual_seed(3)
    return dict(inputs=torch.randn(shape, generator=g))


class BadStream(io.StringIO):
    def write(self, s):
        raise OSError(5, 'Input/output error')


def norm(r):
    if isinstance(r, dict):
        return {k: norm(v) for k, v in sorted(r.items())}
    return r


class World:

    def __init__(self, plan, sim):
        self.plan, self.sim, self.cfg = plan, sim, plan['cfg']
        self.m = build(self.cfg)
        self.failer = Failer(self.m)
        self.est = {}
        self.memo = {}
        self.choices = None

    def estimator(self, e, m):
        """One long-lived estimator per constructor configuration."""
        how = e['cfg']
        c = cfg_of(e, m)
        if how == 'init':
            k = repr(sorted(c.items(), key=str))
            mk = lambda: ResourceEstimator(flops_params_cfg=dict(c))  # noqa
            call = None
        elif how == 'none':
            u = e['units'] if e['units'] not in (None, 'keep') else 'M'
            k = f'none{e["size"]}{e["n"]}{u}{e["strings"]}'
            mk = lambda: ResourceEstimator(  # noqa
                input_shape=c['input_shape'], as_strings=e['strings'],
                units=dict(flops=u, params=u))
            call = None
        else:
            k, mk, call = 'call', ResourceEstimator, c
        if e['fresh'] or k not in self.est:
            self.est[k] = mk()
        return self.est[k], call

    def fresh_number(self, e, sep):
        key = repr([sorted((k, repr(v)) for k, v in e.items() if k not in
                           ('fresh', 'stat')), sep, self.choices])
        if key not in self.memo:
            m = build(self.cfg)
            m.eval()
            if self.choices is not None:
                m.mutator.set_choices(self.choices)
            t = target(m, self.cfg)
            e2 = dict(e, fresh=True)
            w = NS(est={})
            es, call = World.estimator(w, e2, t)
            if sep:
                c = cfg_of(e, t, True)
                self.memo[key] = norm(seeded(es, 'estimate_separation_modules', t, c))
            else:
                self.memo[key] = norm(seeded(es, 'estimate', t, call))
        return self.memo[key]

    def kept(self, before, what):
        d = diff(before, finger(self.m))
        self.sim.check(not d, 'altered', f'{what} altered the model: '
                       f'{d[:4]}')

    def estimate(self, o, sep=False):
        sim, e = self.sim, o['e']
        t = target(self.m, self.cfg)
        if t.training:
            sim.probe('train-mode')
        before = finger(self.m)
        es, call = self.estimator(e, t)
        if sep:
            sim.probe('sep')
            c = cfg_of(e, t, True)
            got = norm(seeded(es, 'estimate_separation_modules', t, c))
            self.sim.check(set(got) == set(c['spec_modules']), 'modules',
                           f'{sorted(got)} for {c["spec_modules"]}')
        else:
            call = dict(call) if call is not None else None
            if e['stat'] and e['units'] not in (None, ) and not e['off']:
                sim.probe('print')
                call = dict(call or {})
                call.update(print_per_layer_stat=True, ost=io.StringIO())
            got = norm(seeded(es, 'estimate', t, call))
            if e['strings']:
                sim.probe('strings')
        self.kept(before, 'estimating')
        want = self.fresh_number(e, sep)
        sim.check(got == want, 'numbers', lambda: f'estimated {got}, a fresh '
                  f'model of the same architecture has {want}')
        sim.log('est', got)
        sim.state([sep, repr(self.choices), got])

    def parts(self, o):
        """Sub-modules add up to the whole."""
        if self.cfg['kind'] == 'plain' and self.cfg['net']['shared']:
            return
        e = dict(o['e'], units=None, strings=False, cfg='call', stat=False)
        t = target(self.m, self.cfg)
        a = t if hasattr(t, 'stem') else t.architecture
        pre = '' if a is t else 'architecture.'
        names = [pre + n for n, x in a.named_children()
                 if n != 'data_preprocessor']
        c = cfg_of(e, t)
        before = finger(self.m)
        es = ResourceEstimator()
        sub = seeded(es, 'estimate_separation_modules', 
            t, dict(c, spec_modules=names))
        whole = seeded(es, 'estimate', t, c)
        part = seeded(es, 'estimate', t, dict(c, spec_modules=names[:1]))
        self.kept(before, 'estimating')
        for k in ('flops', 'params'):
            s = sum(v[k] for v in sub.values())
            self.sim.check(abs(s - whole[k]) <= 1e-6 * max(1, whole[k]),
                           'parts', lambda: f'{k} of {names} add up to {s}, '
                           f'the whole has {whole[k]}')
            self.sim.check(abs(part[k] - sub[names[0]][k]) <= 1e-6 * max(
                1, part[k]), 'parts', lambda: f'{k} of {names[0]}: '
                f'{part[k]} alone, {sub[names[0]][k]} apart')

    def fail(self, o):
        sim, e = self.sim, dict(o['e'])
        t = target(self.m, self.cfg)
        how = o['how']
        before = finger(self.m)
        es, call = self.estimator(dict(e, cfg='call'), t)
        call = dict(call)
        sim.arm('forward_failure')
        self.failer.left = o['at'] if how in ('layer', 'sep') else 0
        if how == 'input':
            def bad(shape):
                raise Boom('injected input failure')
            call['input_constructor'] = bad
        if how == 'print':
            call.update(print_per_layer_stat=True, ost=BadStream(),
                        units=dict(flops='M', params='M'))
        failed = False
        try:
            if how == 'sep':
                seeded(es, 'estimate_separation_modules', 
                    t, dict(call, spec_modules=cfg_of(
                        e, t, True)['spec_modules']))
            else:
                seeded(es, 'estimate', t, call)
        except (Boom, OSError, ZeroDivisionError) as x:
            failed = True
            sim.fired('forward_failure' if how != 'print' else 'eio')
            if how == 'print' and isinstance(x, OSError):
                sim.probe('print-failed')
        self.failer.left = 0
        if failed:
            sim.probe('failed')
        self.kept(before, f'a failing estimate ({how})')
        sim.log('fail', how, failed)

    def choose(self, o):
        if self.cfg['kind'] not in ('spos', 'oneshot'):
            return
        random.seed(o['s'])
        np.random.seed(o['s'] % 2**32)
        self.choices = self.m.mutator.sample_choices()
        self.m.mutator.set_choices(self.choices)
        self.sim.probe('choices')

    def mode(self, o):
        r = random.Random(o['s'])
        if r.random() < 0.5:
            BaseModel.train(self.m, r.random() < 0.5)
        else:
            for x in self.m.modules():
                x.training = r.random() < 0.5

    def train(self, o):
        if self.cfg['kind'] in ('darts', 'dsnas'):
            a = self.m.architecture
        else:
            a = target(self.m, self.cfg)
        ms = [(x, x.training) for x in self.m.modules()]
        BaseModel.train(self.m, True)
        b = batch(o['s'], 2, 6, 2)
        loss = a(mode='loss', **b)['loss']
        loss.backward()
        with torch.no_grad():
            for p in self.m.parameters():
                if p.grad is not None:
                    p.sub_(0.01 * p.grad)
        if o['s'] % 2:
            self.m.zero_grad()
        if self.cfg['kind'] in ('spos', 'oneshot'):
            # training draws subnets
            self.choices = dict(self.m.mutator.current_choices)
        for x, f in ms:
            x.training = f

    def copy(self, o):
        if any(getattr(x, 'arch_weights', None) is not None
               and x.arch_weights.grad_fn is not None
               for x in self.m.modules() if isinstance(x, BaseMutable)):
            return
        self.m = copy.deepcopy(self.m)
        for x in self.m.modules():
            x._forward_pre_hooks.clear()
        self.failer = Failer(self.m)

    def hook(self, o):
        sim, cfg = self.sim, self.cfg
        sim.probe('hook')
        said = []
        log = NS(info=lambda s: said.append(s))
        dist = o['s'] % 2 == 0
        model = NS(module=self.m) if dist else self.m
        r = NS(model=model, distributed=dist, logger=log, epoch=0, iter=0)
        h = EstimateResourcesHook(interval=1, estimator_cfg=dict(
            input_shape=(1, 3, 6, 6), units=dict(flops='K', params='K')))
        supernet = getattr(self.m, 'is_supernet', False)
        before = finger(self.m)
        choices = self.current()
        if o['at']:
            sim.arm('forward_failure')
            self.failer.left = o['at']
        torch.manual_seed(11)
        try:
            h.after_val_epoch(r)
        except Boom:
            sim.fired('forward_failure')
        self.failer.left = 0
        self.kept(before, 'EstimateResourcesHook')
        sim.check(self.current() == choices, 'altered',
                  'EstimateResourcesHook changed the choices')
        if o['at'] or not said:
            return
        if supernet:
            c = build(cfg)
            with torch.no_grad():
                for (n, p), q in zip(c.named_parameters(),
                                     self.m.parameters()):
                    p.copy_(q)
            c.mutator.set_choices(c.mutator.sample_choices())
            load_fix_subnet(c, export_fix_subnet(c)[0])
        else:
            c = build(cfg)
            if self.choices is not None:
                c.mutator.set_choices(self.choices)
        c.eval()
        want = seeded(ResourceEstimator(), 'estimate', c, dict(
            input_shape=(1, 3, 6, 6), units=dict(flops='K', params='K')))
        sim.check(said == [f'Estimate model resources: {want}'], 'numbers',
                  lambda: f'the hook reports {said}, it is {want}')

    def current(self):
        if self.cfg['kind'] in ('spos', 'oneshot'):
            return repr(sorted((str(k), v) for k, v in
                               self.m.mutator.current_choices.items()))
        return None

    def latency(self, o):
        sim = self.sim
        t = target(self.m, self.cfg)
        sim.probe('latency')
        rnd = random.Random(o['s'])
        clock = [100.0]
        durs, calls = [], []

        def slow(mod, args):
            d = rnd.choice([0.001, 0.004, 0.02, 0.5])
            clock[0] += d
            durs.append(d)
            calls.append(mod.training)
        h = t.register_forward_pre_hook(slow)
        t.parameters = lambda recurse=True: iter([NS(
            is_cuda=True, dtype=torch.float32, device='cpu')])
        before = finger(self.m)
        self.failer.left = 0
        if o['at']:
            sim.arm('forward_failure')
        it = [0]

        def tick(mod, args):
            it[0] += 1
            if o['at'] and it[0] == o['at']:
                raise Boom('injected forward failure')
        h2 = t.register_forward_pre_hook(tick)
        before = finger(self.m)
        failed = False
        try:
            with fake_cuda(lambda: clock[0]):
                got = ResourceEstimator().estimate(
                    t, flops_params_cfg=dict(input_shape=(1, 3, 6, 6)),
                    latency_cfg=dict(
                        max_iter=o['iters'], num_warmup=o['warm'],
                        log_interval=o['log'], repeat_num=o['rep'],
                        input_shape=(2, 3, 6, 6)))
        except Boom:
            failed = True
            sim.fired('forward_failure')
        self.kept(before, 'measuring the latency')
        h.remove()
        h2.remove()
        del t.parameters
        if failed:
            return
        sim.check(not any(calls), 'train-mode', 'measured in training mode')
        n = o['iters'] - 1
        ds = durs[1:]
        sim.check(len(ds) == n * o['rep'], 'iterations', f'{len(ds)} timed '
                  f'forwards, configured {n} x {o["rep"]}')
        ms = []
        for k in range(o['rep']):
            part = ds[k * n:(k + 1) * n]
            use = [d for i, d in enumerate(part, 1) if i >= o['warm']]
            ms.append(1000 * sum(use) / len(use))
        want = ms[0] if o['rep'] == 1 else sum(ms) / len(ms)
        sim.check(abs(got['latency'] - want) < 0.06, 'latency', lambda:
                  f'{got["latency"]} ms, forwards took {ds}, that is {want}')

    def nolat(self, o):
        """Latency on a CPU is refused."""
        t = target(self.m, self.cfg)
        before = finger(self.m)
        try:
            ResourceEstimator().estimate(
                t, flops_params_cfg=dict(input_shape=(1, 3, 6, 6)),
                latency_cfg=dict(max_iter=3))
        except (NotImplementedError, TypeError):
            self.sim.probe('refused')
        self.kept(before, 'a refused latency measurement')


@contextmanager
def fake_cuda(now):
    old = (torch.Tensor.cuda, torch.cuda.synchronize, torch.cuda.empty_cache,
           time.perf_counter)
    torch.Tensor.cuda = lambda self, *a, **k: self
    torch.cuda.synchronize = torch.cuda.empty_cache = lambda *a: None
    time.perf_counter = now
    try:
        yield
    finally:
        (torch.Tensor.cuda, torch.cuda.synchronize, torch.cuda.empty_cache,
         time.perf_counter) = old


def run(plan, sim):
    cfg = plan['cfg']
    sim.probe(cfg['kind'])
    if cfg['kind'] == 'plain' and cfg['net']['shared']:
        sim.probe('shared')
    torch.manual_seed(plan['seed'] % 10**6)
    w = World(plan, sim)
    w.m.eval()
    for o in plan['ops']:
        sim.log('op', o['op'])
        k = o['op']
        if k == 'sep':
            w.estimate(o, True)
            w.parts(o)
        elif k == 'est':
            w.estimate(o)
        else:
            getattr(w, k)(o)
    for _ in range(MIN_STEPS):
        sim.log('end')
