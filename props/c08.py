"""C08: distillation never changes a frozen teacher and never mixes batches."""
import copy
import sys
import types

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict

import mmrazor.models  # noqa
from mmrazor.engine.hooks.stop_distillation_hook import StopDistillHook
from mmrazor.models import (DAFLDataFreeDistillation, DataFreeDistillation,
                            FpnTeacherDistill, SingleTeacherDistill)
from mmrazor.models.architectures.generators.base_generator import \
    BaseGenerator
from mmrazor.registry import MODELS
from simkit import SimCrash
from simkit.sim import sdigest
from .worlds import StubRunner, seeded_init

ID = 'C08'
LEVEL = 'exploration'
QUICK, THOROUGH = 700, 30000
MIN_STEPS = 4
RULE = ('A run draws a distillation algorithm (single teacher, FPN teacher, '
        'data-free, DAFL), recorders, deliveries and losses, a stop epoch, '
        'and a training history with failing forward passes, train/eval '
        'switches, crashes and resumes; every step is compared with an '
        'independent computation on copies of the networks as they were '
        'before the step.')
STATE_MEASURE = 'digest of (epoch, stopped, loss names, step outcome)'
COMPONENTS = dict(
    real='SingleTeacherDistill, FpnTeacherDistill, (DAFL)DataFree'
    'Distillation, ConfigurableDistiller, recorders, deliveries, losses, '
    'StopDistillHook, OptimWrapper',
    stub='networks, data, failing calls, process death, runner, checkpoint '
    'contents in memory')
ASSUMPTIONS = ['CPU arithmetic is deterministic', 'checkpoints are taken at '
               'epoch boundaries and hold model state and epoch']
MUST_REACH = ['failed-step', 'resumed', 'stopped', 'delivered', 'datafree',
              'multi-record']


class Boom(RuntimeError):
    pass


class Post:

    def apply(self, x):
        _tick('post')
        return x * (1 + torch.rand(x.shape[1]))


FAIL = dict(at=0, n=0)


def _tick(what):
    FAIL['n'] += 1
    if FAIL['at'] and FAIL['n'] == FAIL['at']:
        FAIL['at'] = 0
        raise Boom(what)


def aug(x):
    _tick('aug')
    return x + torch.randn(x.shape) * 0.1


toy = types.ModuleType('simtoy8')
toy.aug, toy.Post = aug, Post
sys.modules['simtoy8'] = toy


@MODELS.register_module()
class SimNet8(BaseModel):

    def __init__(self, w=5, drop=0.0, naug=1):
        super().__init__()
        self.l1 = nn.Linear(6, w)
        self.bn = nn.BatchNorm1d(w)
        self.l2 = nn.Linear(w, w)
        self.drop = nn.Dropout(drop)
        self.head = nn.Linear(w, 4)
        self.post = Post()
        self.naug = naug

    def extract_feat(self, x):
        for _ in range(self.naug):
            x = toy.aug(x)
        x = F.relu(self.bn(self.l1(x)))
        _tick('mid')
        x = self.post.apply(x)
        x = self.l2(self.drop(x))
        return self.l2(torch.tanh(x))

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.head(self.extract_feat(inputs))
        _tick('end')
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


@MODELS.register_module()
class SimGen8(BaseGenerator):

    def __init__(self, latent=3):
        super().__init__(1, latent, 4)
        self.fc = nn.Linear(latent, 6)

    @property
    def module(self):
        return self

    def forward(self, data=None, batch_size=1):
        return torch.tanh(self.fc(self.process_latent(data, batch_size)))


MAPS = dict(L1Loss=('s_feature', 't_feature'),
            L2Loss=('s_feature', 't_feature'),
            KLDivergence=('preds_S', 'preds_T'))


def gen(rng, i, tier):
    kind = rng.weighted([(5, 'single'), (2, 'fpn'), (2, 'dfad'), (1, 'dafl')])
    feats = [['l1', 0], ['l2', 0], ['l2', 1], ['bn', 0]]
    if kind not in ('fpn', ):
        feats.append(['head', 0])

    def losses():
        return [[rng.choice(sorted(MAPS)), rng.choice(feats)]
                for _ in range(rng.randint(1, 3))]

    cfg = dict(kind=kind, w=rng.choice([3, 5]), drop=rng.choice([0.0, 0.4]),
               naug=rng.randint(1, 2), losses=losses(), gl=losses(),
               deliv=rng.choice([[], ['aug'], ['post'], ['aug', 'post']]),
               stop=rng.choice([None, 0, 1, 2, 3]),
               normev=rng.chance(0.8), calc=rng.chance(0.85),
               siter=rng.randint(1, 3), sfirst=rng.chance(0.5),
               teachers=rng.randint(1, 2), lr=rng.choice([0.1, 0.5]),
               wseed=rng.seed32())
    lives = []
    for li in range(rng.weighted([(4, 1), (3, 2), (2, 3)])):
        iters = []
        for _ in range(rng.randint(2, 9)):
            iters.append(dict(
                b=rng.seed32(), n=rng.randint(2, 4),
                fail=rng.randint(1, 12) if rng.chance(0.25) else 0,
                ev=rng.chance(0.15)))
        lives.append(dict(iters=iters))
    return dict(cfg=cfg, per=rng.randint(1, 3), lives=lives)


def simplify(p):
    for k, v in (('kind', 'single'), ('drop', 0.0), ('naug', 1),
                 ('deliv', []), ('stop', None), ('siter', 1),
                 ('teachers', 1)):
        if p['cfg'][k] != v:
            yield dict(p, cfg=dict(p['cfg'], **{k: v}))
    for k in ('losses', 'gl'):
        if len(p['cfg'][k]) > 1:
            for j in range(len(p['cfg'][k])):
                yield dict(p, cfg=dict(
                    p['cfg'], **{k: p['cfg'][k][:j] + p['cfg'][k][j + 1:]}))


def distiller_cfg(cfg, losses, prefix='', deliv=()):
    rec = {}
    for _, (src, _) in losses:
        rec['r_' + src] = src
    d = dict(
        type='ConfigurableDistiller',
        student_recorders={k: dict(type='ModuleOutputs', source=s)
                           for k, s in rec.items()},
        teacher_recorders={k: dict(type='ModuleOutputs', source=prefix + s)
                           for k, s in rec.items()},
        distill_losses={}, loss_forward_mappings={})
    for j, (lt, (src, idx)) in enumerate(losses):
        s, t = MAPS[lt]
        d['distill_losses'][f'loss_{j}'] = dict(type=lt, loss_weight=j + 0.5)
        d['loss_forward_mappings'][f'loss_{j}'] = {
            s: dict(from_student=True, recorder='r_' + src, record_idx=idx),
            t: dict(from_student=False, recorder='r_' + src, record_idx=idx)}
    if deliv:
        d['distill_deliveries'] = {}
        if 'aug' in deliv:
            d['distill_deliveries']['aug'] = dict(
                type='FunctionOutputs', func_path='simtoy8.aug',
                max_keep_data=cfg['naug'])
        if 'post' in deliv:
            d['distill_deliveries']['post'] = dict(
                type='MethodOutputs', method_path='simtoy8.Post.apply',
                max_keep_data=1)
    return d


def build(cfg):
    net = dict(type='SimNet8', w=cfg['w'], naug=cfg['naug'])
    if cfg['kind'] in ('single', 'fpn'):
        cls = SingleTeacherDistill if cfg['kind'] == 'single' \
            else FpnTeacherDistill
        kw = dict(calculate_student_loss=cfg['calc']) \
            if cfg['kind'] == 'single' else {}
        m = cls(architecture=dict(net),
                teacher=dict(net, drop=cfg['drop']),
                teacher_norm_eval=cfg['normev'],
                distiller=distiller_cfg(cfg, cfg['losses'],
                                        deliv=cfg['deliv']), **kw)
    else:
        cls = DataFreeDistillation if cfg['kind'] == 'dfad' \
            else DAFLDataFreeDistillation
        kw = dict(student_iter=cfg['siter'], student_train_first=cfg['sfirst'])
        m = cls(architecture=dict(net),
                teachers={f't{j}': dict(build_cfg=dict(net, drop=cfg['drop']))
                          for j in range(cfg['teachers'])},
                generator=dict(type='SimGen8'),
                distiller=distiller_cfg(cfg, cfg['losses'], 't0.'),
                generator_distiller=distiller_cfg(
                    cfg, cfg['gl'], f't{cfg["teachers"] - 1}.'), **kw)
    seeded_init(m, cfg['wseed'])
    return m


def teachers(m):
    return [m.teacher] if hasattr(m, 'teacher') else list(m.teachers.values())


class Tap:
    """Own forward hooks, on copies of the networks only."""

    def __init__(self, net):
        self.out = {}
        for n, mod in net.named_modules():
            mod.register_forward_hook(
                lambda _m, _i, o, n=n: self.out.setdefault(n, []).append(o))


def loss_value(losses, ts, tt):
    out = {}
    for j, (lt, (src, idx)) in enumerate(losses):
        fn = MODELS.build(dict(type=lt, loss_weight=j + 0.5))
        a, b = MAPS[lt]
        out[f'loss_{j}'] = fn(**{a: ts.out[src][idx], b: tt.out[src][idx]})
    return out


def expected(cfg, m, data, stopped, seed):
    """Losses and gradients of one step, from copies of the networks."""
    S, T = copy_net(m.student), copy_net(m.teacher)
    ts, tt = Tap(S), Tap(T)
    torch.manual_seed(seed)
    rec = dict(aug=[], post=[])
    real_aug, real_post = toy.aug, Post.apply
    try:
        def taping(name, f):
            def g(*a):
                o = f(*a)
                rec[name].append(o)
                return o
            return g
        toy.aug, Post.apply = taping('aug', real_aug), \
            taping('post', real_post)
        with torch.no_grad():
            if cfg['kind'] == 'fpn':
                T.extract_feat(data['inputs'])
            else:
                T(data['inputs'], data['data_samples'], mode='loss')
        toy.aug = (lambda x, q=list(rec['aug']): q.pop(0)) \
            if 'aug' in cfg['deliv'] else real_aug
        Post.apply = (lambda s, x, q=list(rec['post']): q.pop(0)) \
            if 'post' in cfg['deliv'] else real_post
        sl = S(data['inputs'], data['data_samples'], mode='loss')
    finally:
        toy.aug, Post.apply = real_aug, real_post
    out = {}
    if cfg['calc'] or cfg['kind'] == 'fpn':
        out.update({'student.' + k: v for k, v in sl.items()})
    if not stopped:
        out.update({'distill.' + k: v
                    for k, v in loss_value(cfg['losses'], ts, tt).items()})
    total = sum(out.values()) if out else None
    grads = {}
    if total is not None and total.requires_grad:
        ps = dict(S.named_parameters())
        gs = torch.autograd.grad(total, list(ps.values()), allow_unused=True)
        grads = dict(zip(ps, gs))
    return {k: float(v) for k, v in out.items()}, grads


def copy_net(n):
    c = SimNet8(n.l1.out_features, n.drop.p, n.naug)
    c.load_state_dict(n.state_dict())
    for a, b in zip(c.modules(), n.modules()):
        a.training = b.training
    return c


class WatchedOptim(OptimWrapper):
    """A real OptimWrapper whose step is checked against the gradient of the
    loss it was given."""
    sim = None
    name = ''
    others = ()

    def backward(self, loss, **kw):
        ps = [p for g in self.optimizer.param_groups for p in g['params']]
        self.want = torch.autograd.grad(loss, ps, retain_graph=True,
                                        allow_unused=True)
        super().backward(loss, **kw)

    def step(self, **kw):
        ps = [p for g in self.optimizer.param_groups for p in g['params']]
        for j, (p, w) in enumerate(zip(ps, self.want)):
            g = p.grad if p.grad is not None else torch.zeros_like(p)
            w = w if w is not None else torch.zeros_like(p)
            self.sim.check(
                torch.allclose(g, w, atol=1e-6), 'foreign-gradient',
                lambda: f'{self.name} parameter {j} is updated with a '
                f'gradient that is not that of its loss (off by '
                f'{float((g - w).abs().max()):.3g})')
        before = [o.detach().clone() for o in self.others]
        super().step(**kw)
        self.sim.check(all(torch.equal(a, b) for a, b in
                           zip(before, self.others)), 'foreign-update',
                       self.name)


def run(plan, sim):
    cfg = plan['cfg']
    if cfg['kind'] in ('dfad', 'dafl'):
        sim.probe('datafree')
    if any(i for _, (_, i) in cfg['losses']):
        sim.probe('multi-record')
    if cfg['deliv']:
        sim.probe('delivered')
    ck = None
    for li, life in enumerate(plan['lives']):
        if ck is not None:
            sim.probe('resumed')
        ck = one_life(sim, plan, cfg, life, ck)
        if li + 1 < len(plan['lives']):
            sim.fired('crash')


def one_life(sim, plan, cfg, life, ck):
    m = build(cfg)
    m.train()
    t_ref = {j: {k: v.clone() for k, v in t.state_dict().items()}
             for j, t in enumerate(teachers(m))}
    t0 = [sdigest(t.state_dict()) for t in teachers(m)]
    epoch = 0
    if ck is not None:
        m.load_state_dict(ck[1])
        epoch = ck[0]
    single = cfg['kind'] in ('single', 'fpn')

    def optims(m):
        if single:
            return OptimWrapper(torch.optim.SGD(m.student.parameters(),
                                                cfg['lr']))
        o1 = WatchedOptim(torch.optim.SGD(m.student.parameters(), cfg['lr']))
        o2 = WatchedOptim(torch.optim.SGD(m.generator.parameters(),
                                          cfg['lr']))
        for o, n, oth in ((o1, 'student', m.generator),
                          (o2, 'generator', m.student)):
            o.sim, o.name = sim, n
            o.others = list(oth.parameters()) + [
                p for t in teachers(m) for p in t.parameters()]
        return OptimWrapperDict(architecture=o1, generator=o2)

    def twin():
        m2 = build(cfg)
        m2.load_state_dict(m.state_dict())
        m2.train()
        return m2, optims(m2)

    hook = StopDistillHook(stop_epoch=cfg['stop']) \
        if single and cfg['stop'] is not None else None
    opt = optims(m)
    origin = (toy.aug, vars(Post)['apply'])

    def frozen(where):
        for t, d in zip(teachers(m), t0):
            keys = [k for k in t.state_dict()
                    if cfg['normev'] or not single or 'bn' not in k]
            if len(keys) == len(t.state_dict()):
                ok = sdigest(t.state_dict()) == d
            else:
                j = teachers(m).index(t)
                ok = all(torch.equal(t.state_dict()[k], t_ref[j][k])
                         for k in keys if 'running' not in k
                         and 'num_batches' not in k)
            sim.check(ok, 'teacher-changed', where)
            sim.check(all(p.grad is None and not p.requires_grad
                          for p in t.parameters()), 'teacher-gradient', where)
            if m.training and cfg['normev'] and single:
                sim.check(not t.bn.training, 'teacher-norm-not-eval', where)
        sim.check((toy.aug, vars(Post)['apply']) == origin, 'not-restored',
                  where)

    frozen('after construction')
    its = list(life['iters'])
    while its:
        if hook is not None:
            r = StubRunner(m, '')
            r.epoch = epoch
            hook.before_train_epoch(r)
        m.train()
        stopped = single and cfg['stop'] is not None and epoch >= cfg['stop']
        if stopped:
            sim.probe('stopped')
        for it in its[:plan['per']]:
            step(sim, cfg, m, opt, it, stopped, epoch, twin)
            frozen(f'epoch {epoch}')
        its = its[plan['per']:]
        epoch += 1
    return epoch, {k: v.clone() for k, v in m.state_dict().items()}


def step(sim, cfg, m, opt, it, stopped, epoch, twin):
    g = torch.Generator().manual_seed(it['b'])
    data = dict(inputs=torch.randn(it['n'], 6, generator=g),
                data_samples=torch.randint(0, 4, (it['n'], ), generator=g))
    if it['ev']:
        m.eval()
        with torch.no_grad():
            m.val_step(data)
        m.train()
    single = cfg['kind'] in ('single', 'fpn')
    FAIL.update(at=0, n=0)
    if single:
        want, grads = expected(cfg, m, data, stopped, it['b'])
    else:
        m2, opt2 = twin()
        torch.manual_seed(it['b'])
        want = {k: float(v) for k, v in m2.train_step(data, opt2).items()}
    before = {k: v.clone() for k, v in m.named_parameters()}
    FAIL.update(at=it['fail'], n=0)
    if it['fail']:
        sim.arm('forward_fails')
    torch.manual_seed(it['b'])
    try:
        if single and not want:
            losses = m(data['inputs'], data['data_samples'], mode='loss')
            sim.check(not losses, 'wrong-losses', lambda: f'{losses}')
            logs = {}
        else:
            logs = m.train_step(data, opt)
    except Boom as e:
        sim.fired('forward_fails')
        sim.probe('failed-step')
        sim.log('failed', str(e))
        sim.state(epoch, stopped, 'failed', str(e))
        if single:
            sim.check(all(torch.equal(p, before[k])
                          for k, p in m.named_parameters()),
                      'failed-step-updated', str(e))
        FAIL.update(at=0)
        return
    FAIL.update(at=0)
    logs = {k: float(v) for k, v in logs.items()}
    sim.log('step', epoch, sorted(logs.items()))
    sim.state(epoch, stopped, sorted(logs))
    if not single:
        names = {'distill.' + f'loss_{j}' for j in range(len(cfg['losses']))}
        names |= {'generator.' + f'loss_{j}' for j in range(len(cfg['gl']))}
        sim.check(set(logs) - {'distill.loss', 'generator.loss'} == names,
                  'wrong-losses', lambda: f'{sorted(logs)}')
        sim.check(all(abs(logs[k] - want[k]) <= 1e-5 * max(1, abs(want[k]))
                      for k in logs), 'history-dependent', lambda:
                  f'{logs}, a fresh model computes {want}')
        for (k, p), q in zip(m.named_parameters(), m2.parameters()):
            sim.check(torch.allclose(p, q, atol=1e-5), 'history-dependent',
                      lambda: f'{k} after the step')
        return
    got = {k: v for k, v in logs.items() if k != 'loss'}
    sim.check(set(got) == set(want), 'wrong-losses', lambda:
              f'epoch {epoch}, stop {cfg["stop"]}: {sorted(got)}, expected '
              f'{sorted(want)}')
    for k in want:
        sim.check(abs(got[k] - want[k]) <= 1e-5 * max(1, abs(want[k])),
                  'wrong-loss-value', lambda:
                  f'{k} is {got[k]}, this batch gives {want[k]}')
    for k, p in m.student.named_parameters():
        gr = grads.get(k)
        b = before['architecture.' + k]
        w = b if gr is None else b - cfg['lr'] * gr
        sim.check(torch.allclose(p, w, atol=1e-5, rtol=1e-4),
                  'wrong-update', lambda: f'{k} off by '
                  f'{float((p - w).abs().max()):.3g}')
