"""C16: multi-subnet validation scores each subnet under its own choice."""
import copy
import math
import os
import random
from types import SimpleNamespace

import numpy as np
import torch
from mmengine.evaluator import BaseMetric, Evaluator
from mmengine.hooks import EMAHook, Hook
from torch.nn.modules.batchnorm import _BatchNorm
from torch.utils.data import DataLoader

import mmrazor.engine  # noqa
from mmrazor.engine.runner.utils.calibrate_bn_mixin import CalibrateBNMixin
from mmrazor.models import SelfDistill, SingleTeacherDistill
from mmrazor.registry import TASK_UTILS
from simkit.sim import tdigest
from . import c09, c13
from .rr import Die, ListData, last_ckpt, runner
from .worlds import CnnArch, gen_cnn, seeded_init, simplify_cnn

ID = 'C16'
LEVEL = 'exploration'
QUICK, THOROUGH = 90, 8000
MIN_STEPS = 3
RUN_TIMEOUT = 240
RULE = ('A run validates a generated slimmable network, AutoSlim or BigNAS '
        'supernet, distilled pair, self-distilled or iteratively pruned '
        'network under the real Runner with the validation loop shipped for '
        'it: alone or between training epochs, from a random history of '
        'choices, with or without an averaged model, over several process '
        'lives, with failing reads. Every pass over the data is compared '
        'with a twin network that only ever had that one choice.')
STATE_MEASURE = 'digest of (loop, pass, choice, metrics)'
COMPONENTS = dict(
    real='SlimmableValLoop, SubnetValLoop, SingleTeacherDistillValLoop, '
    'SelfDistillValLoop, ItePruneValLoop, the algorithms and mutators under '
    'them, CalibrateBNMixin, ResourceEstimator, mmengine Runner, Evaluator, '
    'EMAHook and CheckpointHook',
    stub='dataset, metric, moments of failure and death')
ASSUMPTIONS = ['one process; calibration over ranks is C12']
MUST_REACH = ['slim', 'autoslim', 'bignas', 'teacher', 'self', 'iteprune',
              'fixed', 'ema', 'trained', 'resumed', 'val-only',
              'read-failed', 'uneven']
KINDS = ('slim', 'autoslim', 'bignas', 'teacher', 'self', 'iteprune')


def gen(rng, i, tier):
    kind = rng.weighted([(3, 'slim'), (3, 'autoslim'), (2, 'bignas'),
                         (3, 'teacher'), (1, 'self'), (1, 'iteprune')])
    cfg = dict(kind=kind, wseed=rng.seed32(), b=rng.randint(1, 3),
               vb=rng.randint(1, 3), n=rng.randint(2, 5),
               vn=rng.randint(1, 5), ema=rng.chance(0.4),
               fixed=rng.chance(0.2), cal=rng.randint(2, 9),
               epochs=rng.weighted([(2, 0), (2, 1), (3, 2), (1, 3)]),
               begin=rng.randint(1, 2), interval=rng.randint(1, 2),
               vals=rng.randint(1, 3), tt=rng.chance(0.3))
    # the shared algorithm builder's options
    cfg.update(nr=rng.randint(0, 3), tau=1, kw=1, drop=rng.choice([0.0, .2]),
               stages=[1], cands=rng.choice([[0.5, 1.0],
                                             [0.25, 0.5, 0.75, 1.0]]),
               fr=sorted(rng.sample([0.3, 0.5, 0.75], rng.randint(1, 2))),
               deploy=0, acc=1, algo='l1', freq=1, times=2, linear=True,
               mode='number', divisor=1, subset=False, none=False, pre=None)
    if kind == 'iteprune':
        cfg['fr'] = [rng.choice([0.3, 0.5, 0.75]) for _ in range(4)]
    if kind == 'bignas':
        cfg['net'] = c09.gen_big(rng)
        # one value per channel cannot be normalised: no batch of one
        cfg.update(b=2, n=2 * rng.randint(1, 2), cal=2 * rng.randint(1, 3))
    else:
        cfg['net'] = gen_cnn(rng, 2, ('conv', 'res', 'dw'), cs=(2, 4, 6, 8))
        cfg['arch'] = cfg['net']
        if kind == 'teacher':
            cfg['tnet'] = gen_cnn(rng, 2, ('conv', 'res', 'cat'))
            cfg['tnet']['classes'] = cfg['net'].get('classes')
    faults = []
    if cfg['epochs']:
        for _ in range(rng.weighted([(2, 0), (2, 1), (1, 2)])):
            faults.append([rng.choice(['before_train_iter', 'before_val',
                                       'before_val_iter', 'after_val_iter',
                                       'after_val_epoch']),
                           rng.randint(0, 8)])
    else:
        for _ in range(rng.weighted([(2, 0), (2, 1), (1, 2)])):
            faults.append(['read', rng.randint(0, cfg['vals'] - 1),
                           rng.chance(0.5), rng.randint(0, 12)])
    return dict(cfg=cfg, faults=faults, hist=[
        rng.seed32() for _ in range(rng.randint(0, 2))], seed=rng.seed32())


def simplify(plan):
    c = plan['cfg']
    if c['kind'] != 'bignas':
        for a in simplify_cnn(c['net']):
            yield dict(plan, cfg=dict(c, net=a, arch=a))
    for k, v in (('ema', False), ('b', 1 if c['kind'] != 'bignas' else 2), ('vb', 1), ('vn', 1), ('n', 2),
                 ('nr', 0), ('begin', 1), ('interval', 1), ('vals', 1)):
        if c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))
    if c['epochs'] > 1:
        yield dict(plan, cfg=dict(c, epochs=c['epochs'] - 1))


def collate(items):
    return dict(inputs=torch.stack([b['inputs'] for b in items]),
                data_samples=torch.stack([b['data_samples'] for b in items]))


class Ids(ListData):
    """A dataset whose labels are the sample numbers."""

    def __init__(self, n, classes, **k):
        super().__init__(n, **k)
        self.classes, self.reads, self.bad = classes, 0, None

    def __getitem__(self, i):
        if self.bad is not None:
            if self.bad == 0:
                self.bad = None
                raise OSError(5, 'Input/output error')
            self.bad -= 1
        self.reads += 1
        y = torch.tensor(i) if self.classes is None else \
            torch.tensor(i % self.classes)
        return dict(inputs=self.x[i], data_samples=y)


def distiller():
    rec = dict(fc=dict(type='ModuleOutputs', source='head'))
    return dict(
        type='ConfigurableDistiller', teacher_recorders=copy.deepcopy(rec),
        student_recorders=copy.deepcopy(rec),
        distill_losses=dict(loss_kl=dict(type='KLDivergence')),
        loss_forward_mappings=dict(loss_kl=dict(
            preds_S=dict(recorder='fc', from_student=True),
            preds_T=dict(recorder='fc', from_student=False))))


def build(cfg):
    k = cfg['kind']
    torch.manual_seed(0)
    if k in ('slim', 'autoslim', 'bignas'):
        return c09.build(dict(cfg, kind='slimmable' if k == 'slim' else k))
    if k == 'iteprune':
        return c13.build(cfg)[0]
    if k == 'teacher':
        m = SingleTeacherDistill(
            architecture=CnnArch(cfg['net']), teacher=CnnArch(cfg['tnet']),
            distiller=distiller(), teacher_trainable=cfg['tt'])
    else:
        d = distiller()
        m = SelfDistill(architecture=CnnArch(cfg['net']), distiller=d)
    seeded_init(m, cfg['wseed'])
    return m


class Score(BaseMetric):

    def __init__(self, passes):
        super().__init__()
        self.passes = passes

    def process(self, data_batch, data_samples):
        ids = data_batch['data_samples'].tolist()
        self.passes[-1]['ids'] += ids
        for i, p in zip(ids, data_samples):
            self.results.append(((i + 1) * float(p[0]), float(p.abs().sum())))

    def compute_metrics(self, results):
        return dict(a=math.fsum(r[0] for r in results),
                    b=math.fsum(r[1] for r in results), n=len(results))


def snap(ts):
    return {k: v.detach().clone() for k, v in ts}


def same(a, b):
    return a.keys() == b.keys() and all(
        torch.equal(a[k], b[k]) for k in a)


def hooks(m):
    return [(n, len(x._forward_hooks), len(x._forward_pre_hooks))
            for n, x in m.named_modules()]


def buffers(m):
    """Buffers that validation has no business with."""
    return snap((n, b) for n, b in m.named_buffers() if not n.split('.')[-1]
                in ('mask', ) and 'mutable' not in n)


class Watch(Hook):
    """Sees the model as validation finds and leaves it."""

    def __init__(self, sim, cfg, st):
        self.sim, self.cfg, self.st = sim, cfg, st
        self.ev = []

    def before_val(self, runner):
        st = self.st
        st['passes'].clear()
        st['src'] = snap(st['m'].named_parameters())
        st['buf'] = buffers(st['m'])
        st['hooks'] = hooks(st['m'])
        st['train_reads'] = st['train'].reads
        self.ev = ['val']

    def before_val_epoch(self, runner):
        self.ev.append('epoch')

    def before_val_iter(self, runner, batch_idx, data_batch=None):
        self.ev.append('iter')

    def after_val_iter(self, runner, batch_idx, data_batch=None,
                       outputs=None):
        self.ev.append('/iter')

    def after_val_epoch(self, runner, metrics=None):
        self.ev.append('/epoch')
        self.st['metrics'] = copy.deepcopy(metrics)

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        self.st['its'] = self.st.get('its', 0) + 1

    def after_val(self, runner):
        pass


class Last(Hook):
    """Runs when the averaging hook has swapped the weights back."""
    priority = 'LOWEST'

    def __init__(self, w):
        self.w = w

    def before_val_epoch(self, runner):
        st = self.w.st
        st['used'] = snap(st['m'].named_parameters())

    def after_val_epoch(self, runner, metrics=None):
        st, sim = self.w.st, self.w.sim
        now = snap(st['m'].named_parameters())
        bad = [k for k in now if not torch.equal(now[k], st['src'][k])]
        sim.check(not bad, 'parameters-changed',
                  lambda: f'validation changed the parameters {bad[:3]}' + (
                      ' (averaged model in use)' if self.w.cfg['ema']
                      else ''))

    def after_val(self, runner):
        self.w.ev.append('/val')
        judge(self.w.sim, self.w.cfg, self.w.st, self.w.ev)


def names(cfg, m):
    """Passes in the configured order: (prefix of the names, whose)."""
    k = cfg['kind']
    if k == 'slim':
        return [(f'subnet_{i}.', 'model', c09.plain(s))
                for i, s in enumerate(m.mutator.subnets)]
    if k in ('autoslim', 'bignas'):
        if cfg['fixed']:
            return [('fix_subnet.', 'model', None)]
        out = []
        kinds = ['max', 'min'] + [f'random{i}' for i in range(cfg['nr'])]
        assert sorted(m.sample_kinds) == sorted(kinds), m.sample_kinds
        for kind in m.sample_kinds:
            c = None
            if kind in ('max', 'min'):
                c = c09.extreme(m.mutator, max if kind == 'max' else min)
            out.append((f'{kind}_subnet.', 'model', c))
        return out
    if k == 'teacher':
        return [('', 'model', None), ('teacher.', 'teacher', None)]
    if k == 'self':
        return [('student.', 'model', None)]
    return [('', 'model', None)]


def evaluate(net, cfg, data):
    a = b = 0.
    with torch.no_grad():
        for i in range(len(data)):
            y = net(data.x[i:i + 1])[0]
            a += (i + 1) * float(y[0])
            b += float(y.abs().sum())
    return a, b


class Cal(CalibrateBNMixin):

    def __init__(self, m):
        log = SimpleNamespace(info=lambda *a: 0, debug=lambda *a: 0)
        self.runner = SimpleNamespace(model=m, logger=log)


def judge(sim, cfg, st, ev):
    m = st['m']
    n = len(st['val'])
    want = names(cfg, m)
    # the hooks a loop promises
    iters = -(-n // cfg['vb'])
    body = ['iter', '/iter'] * iters * len(want)
    sim.check([e for e in ev if e in ('iter', '/iter')] == body,
              'passes', lambda: f'validation of {len(want)} subnets on '
              f'{iters} batches called {ev}')
    sim.check(ev[0] == 'val' and ev[-1] == '/val' and
              ev.count('val') == ev.count('/val') == 1, 'hooks',
              lambda: f'validation hooks ran as {ev}')
    depth = 0
    for e in ev:
        depth += {'epoch': 1, '/epoch': -1}.get(e, 0)
        sim.check(0 <= depth <= 1 and (depth == 1 or 'iter' not in e),
                  'hooks', lambda: 'before_val_epoch and after_val_epoch '
                  f'do not alternate: {ev}')
    ps = [p for p in st['passes'] if p['ids'] or p['choice'] is not None]
    sim.check(len(ps) == len(want), 'passes',
              lambda: f'{len(ps)} passes for {len(want)} subnets')
    calib = cfg['kind'] in ('autoslim', 'bignas')
    expect = set()
    rest = dict(st['metrics'])
    for (prefix, who, choice), p in zip(want, ps):
        sim.check(p['ids'] == list(range(n)), 'dataset',
                  lambda: f'{prefix or "model"}: saw samples {p["ids"]} of '
                  f'{n}')
        sim.check(p['who'] == who, 'order', lambda: f'pass of {prefix!r} '
                  f'evaluated the {p["who"]}')
        sim.check(not p['train'], 'train-mode', lambda: f'{prefix!r} '
                  'evaluated in training mode')
        sim.check(p['changed'] is None, 'changed-while-evaluating',
                  lambda: f'{prefix!r}: {p["changed"]} changed between two '
                  'batches')
        if choice is not None:
            sim.check(p['choice'] == choice, 'choice', lambda: f'{prefix!r} '
                      f'was evaluated as {p["choice"]}, is {choice}')
        used = {k: p['sd'][k] for k in st['used']}
        sim.check(same(used, st['used']), 'weights',
                  lambda: f'{prefix!r} was evaluated with other weights than '
                  'the first subnet')
        # a network that never had another choice
        t = build(cfg)
        t.load_state_dict({**st['clean'], **st['used'], **st['buf']},
                          strict=False)
        if p['choice'] is not None and cfg['kind'] != 'slim':
            t.mutator.set_choices(p['choice'])
        if cfg['kind'] == 'slim':
            t.mutator.set_choices(copy.deepcopy(p['choice']))
        reads = st['train'].reads
        if calib:
            with torch.no_grad():
                Cal(t).calibrate_bn_statistics(st['train_loader'],
                                               cfg['cal'])
        st['train'].reads = reads
        t.eval()
        net = t.teacher if who == 'teacher' else t.architecture
        a, b = evaluate(net, cfg, st['val'])
        for k, v in dict(a=a, b=b, n=n).items():
            got = rest.pop(prefix + k, None)
            sim.check(got is not None and abs(got - v) <= 1e-3 + 1e-3 * abs(v),
                      'metric', lambda: f'{prefix}{k} is reported as {got}; '
                      f'the subnet alone scores {v}; metrics '
                      f'{sorted(st["metrics"])}')
        if calib:
            t2 = build(cfg)
            t2.mutator.set_choices(p['choice'])
            r = TASK_UTILS.build(estim()).estimate(t2)
            for k, v in r.items():
                got = rest.pop(prefix + k, None)
                sim.check(got == v or k == 'latency', 'resources',
                          lambda: f'{prefix}{k} is reported as {got}, is {v}')
        sim.state(cfg['kind'], prefix, str(p['choice']), round(a, 4))
        sim.log('pass', prefix, str(p['choice']), tdigest(torch.tensor(
            [round(a, 3), round(b, 3)])))
    sim.check(not rest, 'metric', lambda: f'metrics {rest} belong to no '
              'subnet')
    reads = st['train'].reads - st['train_reads']
    per = min(cfg['cal'], len(st['train']))
    hi = min(-(-per // cfg['b']) * cfg['b'], len(st['train']))
    if calib:
        sim.check(len(want) * per <= reads <= len(want) * hi, 'calibration',
                  lambda: f'{reads} training samples read to calibrate '
                  f'{len(want)} subnets on {cfg["cal"]} samples')
    now = buffers(m)
    bad = [k for k, v in now.items() if not torch.equal(v, st['buf'][k])]
    if calib:
        bns = {n for n, x in m.named_modules() if isinstance(x, _BatchNorm)}
        bad = [k for k in bad if k.rsplit('.', 1)[0] not in bns]
    sim.check(not bad, 'buffers-changed', lambda: f'validation changed the '
              f'buffers {bad[:4]}')
    sim.check(hooks(m) == st['hooks'], 'hooks-left', 'validation left '
              'forward hooks in the model')
    sim.probe(cfg['kind'])
    if n % cfg['vb']:
        sim.probe('uneven')
    if calib and cfg['fixed']:
        sim.probe('fixed')


def estim():
    return dict(type='mmrazor.ResourceEstimator',
                flops_params_cfg=dict(input_shape=(1, 3, 8, 8)))


def current(cfg, m):
    if not hasattr(m, 'mutator'):
        return None
    return c09.plain(m.mutator.current_choices)


def life(plan, sim, fi, first):
    cfg = plan['cfg']
    seed = plan['seed'] % 2**31 + sim.lives
    random.seed(seed)
    np.random.seed(seed)
    m = build(cfg)
    if m is None:
        return None
    m.init_weights = lambda: None
    work = os.path.join(sim.scratch, 'w')
    classes = int(cfg['net'].get('classes') or 4)
    train = Ids(cfg['n'], classes, seed=5, shape=(3, 8, 8))
    val = Ids(cfg['vn'], None, seed=6, shape=(3, 8, 8))
    tl = DataLoader(train, batch_size=cfg['b'], collate_fn=collate)
    vl = DataLoader(val, batch_size=cfg['vb'], collate_fn=collate)
    st = dict(m=m, train=train, val=val, train_loader=tl, passes=[],
              clean=snap(m.state_dict().items()))
    if hasattr(m, 'mutator') and cfg['kind'] != 'iteprune':
        for s in plan['hist']:
            random.seed(s)
            np.random.seed(s % 2**32)
            m.mutator.set_choices(m.mutator.sample_choices()
                                  if cfg['kind'] != 'slim' else
                                  random.choice(m.mutator.subnets))

    def see(who):
        inner = m if who == 'model' else m.teacher

        def f(mod, args, kw):
            mode = kw.get('mode', args[2] if len(args) > 2 else 'tensor')
            if mode != 'predict':
                return
            if m.training and who == 'model':
                return       # calibration
            cur = current(cfg, m)
            sd = snap(m.state_dict().items())
            ps = st['passes']
            if not ps or len(ps[-1]['ids']) >= len(val) or \
                    ps[-1]['who'] != who or ps[-1]['choice'] != cur:
                ps.append(dict(who=who, choice=cur, sd=sd, ids=[],
                               train=any(x.training for x in
                                         inner.modules()), changed=None))
            elif not same(ps[-1]['sd'], sd):
                ps[-1]['changed'] = [k for k in sd if not torch.equal(
                    sd[k], ps[-1]['sd'][k])]
        return f

    m.architecture.register_forward_pre_hook(see('model'), with_kwargs=True)
    if cfg['kind'] == 'teacher':
        m.teacher.register_forward_pre_hook(see('teacher'), with_kwargs=True)
    ev = Evaluator(Score(st['passes']))
    vc = dict(type={'slim': 'SlimmableValLoop', 'autoslim': 'SubnetValLoop',
                    'bignas': 'SubnetValLoop',
                    'teacher': 'SingleTeacherDistillValLoop',
                    'self': 'SelfDistillValLoop',
                    'iteprune': 'ItePruneValLoop'}[cfg['kind']])
    if vc['type'] == 'SubnetValLoop':
        vc.update(calibrate_sample_num=cfg['cal'], estimator_cfg=estim(),
                  evaluate_fixed_subnet=cfg['fixed'])
    w = Watch(sim, cfg, st)
    hs = [w]
    if cfg['ema']:
        hs.append(EMAHook(momentum=0.3))
    hs.append(Last(w))
    if cfg['epochs'] and fi < len(plan['faults']):
        hs.append(Die(*plan['faults'][fi], sim))
    tc = dict(by_epoch=True, max_epochs=max(cfg['epochs'], 1),
              val_begin=cfg['begin'], val_interval=cfg['interval'])
    if not first:
        sim.probe('resumed')
    r = runner(work, m, tc, tl, hooks=hs,
               ckpt=dict(interval=1) if cfg['epochs'] else None,
               resume=not first and last_ckpt(work) is not None,
               val=dict(val_dataloader=vl, val_cfg=vc, val_evaluator=ev))
    st['runner'] = r
    if cfg['ema']:
        sim.probe('ema')
    if cfg['epochs']:
        r.train()
        if st.get('metrics'):
            sim.probe('trained')
        return True
    for v in range(cfg['vals']):
        f = [x for x in plan['faults'] if x[1] == v]
        if f and not cfg['ema']:
            sim.arm('read-fails')
            (val if f[0][2] else train).bad = f[0][3]
            try:
                r.val()
            except OSError:
                sim.fired('read-fails')
                sim.probe('read-failed')
                now = snap(m.named_parameters())
                sim.check(same(now, st['src']), 'parameters-changed',
                          'a validation that failed changed parameters')
                sim.check(hooks(m) == st['hooks'], 'hooks-left',
                          'a validation that failed left forward hooks')
                sim.log('read-failed', v)
                for x in ev.metrics:
                    x.results.clear()
            val.bad = train.bad = None
        got = r.val()
        sim.check(got == st['metrics'], 'returned',
                  lambda: f'the validation returned {got}, it measured '
                  f'{st["metrics"]}')
        sim.probe('val-only')
    return True


def run(plan, sim):
    for fi in range(len(plan['faults']) + 1):
        if plan['cfg']['epochs'] == 0 and fi:
            break
        res = sim.process(life, plan, sim, fi, fi == 0)
        sim.log('life', fi, res.status)
        if res.status == 'error':
            sim.violate('fails', f'validation fails with {res.exc}\n'
                        f'{res.tb[-1500:]}')
        if res.status == 'ok':
            if res.value is None:
                sim.log('unsupported')
                sim.log('-')
            break
    sim.log('end')
