"""C22: DMCP keeps its sampling rule and its two levels apart."""
import copy
import json
import os
import random

import torch
import torch.nn.functional as F
from mmengine.hooks import Hook
from mmengine.model import BaseModel
from torch import nn

from mmrazor.engine.hooks import DMCPSubnetHook
from mmrazor.models.algorithms import DMCP
from mmrazor.models.task_modules import ResourceEstimator
from mmrazor.structures import load_fix_subnet
from simkit.sim import tdigest
from .c09 import distiller
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import Block, gen_cnn, seeded_init, simplify_cnn

ID = 'C22'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 90, 8000
MIN_STEPS = 3
RUN_TIMEOUT = 200
RULE = ('A run trains a random DMCP network under the real Runner over '
        'several process lives that die at hook points and resume, with '
        'generated strategies, start iterations, intervals, loss types and '
        'targets; the iteration counter of a resumed run may be that of a '
        'long training. Every iteration is compared with a twin that is '
        'built anew, gets only the state dict, and is updated by gradients '
        'taken one at a time. At the end sub-networks are dumped and '
        'loaded in fresh networks.')
STATE_MEASURE = 'digest of (phase, widths, architecture parameters) per step'
COMPONENTS = dict(
    real='DMCP, DMCPChannelMutator, DMCPChannelUnit, DMCPBatchNorm2d, '
    'ConfigurableDistiller, ResourceEstimator, DMCPSubnetHook, Runner, '
    'CheckpointHook, resume, SeparateOptimWrapperConstructor, '
    'load_fix_subnet',
    stub='data, moment of death, length of the training before the resume')
ASSUMPTIONS = ['checkpoint files are written completely by mmengine']
MUST_REACH = ['arch-phase', 'arch-step', 'no-arch-step', 'distill', 'direct',
              'random', 'scheduled-direct', 'resumed', 'resumed-arch-phase',
              'late', 'dump', 'loss-log_l1', 'loss-l2', 'loss-l1',
              'loss-inverted_log_l1', 'below-target', 'above-target',
              'in-target', 'unreachable', 'hit']

KINDS = ['min', 'arch_random', 'scheduled_random', 'max']


class Backbone(nn.Module):

    def __init__(self, cfg):
        super().__init__()
        c = cfg['stem']
        self.stem = nn.Sequential(
            nn.Conv2d(3, c, 3, padding=1, bias=False), nn.BatchNorm2d(c),
            nn.ReLU())
        ls = []
        for l in cfg['layers']:
            ls.append(Block(l, c, True))
            c = ls[-1].out
        self.layers = nn.ModuleList(ls)
        self.out = c

    def forward(self, x):
        x = self.stem(x)
        for l in self.layers:
            x = l(x)
        return x


class Arch(BaseModel):

    def __init__(self, cfg):
        super().__init__()
        self.backbone = Backbone(cfg)
        self.head = nn.Linear(self.backbone.out, cfg['classes'])

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.head(self.backbone(inputs).mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def gen(rng, i, tier):
    big = tier != 'quick'
    net = gen_cnn(rng, 3 if big else 2, ('conv', 'res', 'dw'),
                  cs=(4, 5, 8, 10))
    net['stem'] = rng.choice([4, 5, 8, 10])
    cfg = dict(net=net, wseed=rng.seed32(), aseed=rng.seed32(),
               prune=rng.choice([[0.2, 1, 0.2], [0.5, 1, 0.25],
                                 [0.1, 1, 0.1], [0.25, 1, 0.25]]),
               alpha=rng.choice([0., 0.3, 1., 3.]),
               strategy=['max'] + [rng.choice(KINDS)
                                   for _ in range(rng.randint(1, 3))],
               start=rng.choice([-1, 0, 1, 2, 4, 50]),
               freq=rng.choice([1, 1, 2, 3]),
               dist=rng.choice([-1, 1, 3, 50]),
               loss=rng.choice(['log_l1', 'log_l1', 'l1', 'l2',
                                'inverted_log_l1']),
               weight=rng.choice([0.1, 1.0]),
               target=rng.choice([0.3, 0.6, 0.8, 0.97, 1.3]),
               prob=rng.choice([1.0, 1.0, 0.5, -1]),
               tau=rng.choice([1, 2]), kw=rng.choice([1, 0.5]),
               mom=rng.choice([0., 0.9]), wd=rng.choice([0., 1e-3]),
               alr=rng.choice([0.01, 0.1]), size=6)
    cfg['max'] = rng.randint(1, 3)
    cfg['per'] = rng.randint(1, 4)
    cfg['jump'] = rng.choice([0, 0, 6000, 12000])
    if cfg['jump'] and rng.chance(0.5):
        for k in ('start', 'dist'):
            if rng.chance(0.5):
                cfg[k] = cfg['jump'] + rng.randint(0, 4)
    cfg['dump'] = rng.choice([0, 1, 2])
    lives = []
    for _ in range(rng.randint(0, 2)):
        pt = rng.choice(['after_train_iter', 'before_train_iter',
                         'after_train_epoch', 'before_train_epoch'])
        top = cfg['max'] * cfg['per']
        lives.append([pt, rng.randint(0, top - 1 if 'iter' in pt
                                      else cfg['max'] - 1)])
    return dict(cfg=cfg, lives=lives, seed=rng.seed32())


def simplify(plan):
    cfg = plan['cfg']
    for n in simplify_cnn(cfg['net']):
        yield dict(plan, cfg=dict(cfg, net=n))
    for k, v in (('mom', 0.), ('wd', 0.), ('dump', 0), ('jump', 0),
                 ('prob', 1.0), ('dist', 50), ('max', 1), ('per', 1)):
        if cfg[k] != v:
            yield dict(plan, cfg=dict(cfg, **{k: v}))
    if len(cfg['strategy']) > 1:
        for j in range(1, len(cfg['strategy'])):
            s = list(cfg['strategy'])
            s.pop(j)
            yield dict(plan, cfg=dict(cfg, strategy=s))


def full_flops(cfg):
    torch.manual_seed(0)
    return ResourceEstimator().estimate(
        Arch(cfg['net']).backbone,
        flops_params_cfg=dict(units=None))['flops']


def build(cfg, flops):
    torch.manual_seed(0)
    d = distiller(cfg)
    a = DMCP(
        distiller=d, architecture=Arch(cfg['net']),
        mutator_cfg=dict(
            type='DMCPChannelMutator',
            channel_unit_cfg=dict(type='DMCPChannelUnit'),
            pruning_cfg=tuple(cfg['prune']),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 6, 6),
                           tracer_type='BackwardTracer')),
        strategy=list(cfg['strategy']), arch_start_train=cfg['start'],
        arch_train_freq=cfg['freq'], distillation_times=cfg['dist'],
        target_flops=flops * cfg['target'] / 1e6,
        flops_loss_type=cfg['loss'], flop_loss_weight=cfg['weight'])
    a.cur_sample_prob = cfg['prob']
    seeded_init(a, cfg['wseed'])
    g = torch.Generator().manual_seed(cfg['aseed'])
    with torch.no_grad():
        for p in a.mutator.arch_params.parameters():
            p.copy_(torch.rand(p.shape, generator=g) * cfg['alpha'])
    return a


class Widths:
    """What each unit may become."""

    def __init__(self, cfg, algo):
        lo, hi, off = cfg['prune']
        self.rows = []
        for u in algo.mutator.units:
            n = u.num_channels
            g = int(off * n / hi)
            k = int((hi - lo) / off + 1e-4)
            self.rows.append((u, g, k, n - g * k))

    def check(self, sim, mode, mutator):
        for i, (u, g, k, lo) in enumerate(self.rows):
            c = int((u.mutable_channel.current_mask == 1).sum())
            n = u.num_channels
            what = f'unit {i} of {n} channels has {c} in mode {mode}'
            if mode == 'expected':
                a = mutator.arch_params[str(i)].detach().clamp(min=0)
                e = lo + g * float(torch.exp(-a).cumprod(0).sum())
                sim.check(abs(c - e) <= 0.5001, 'expected-width',
                          f'{what}, expected are {e:.3f}')
                continue
            want = {'max': [n], 'min': [lo]}.get(
                mode, [lo + g * j for j in range(k + 1)])
            sim.check(c in want, 'width', f'{what}, legal are {want}')


def spy(algo, sim, cfg, log):
    w = Widths(cfg, algo)
    old = algo.mutator.sample_subnet

    def sample(mode, arch_train):
        r = old(mode, arch_train)
        w.check(sim, mode, algo.mutator)
        log.append(mode)
        return r
    algo.mutator.sample_subnet = sample


class Twin:

    def __init__(self, cfg, flops, sim):
        self.cfg, self.sim, self.flops = cfg, sim, flops
        self.a = build(cfg, flops)
        self.W = list(self.a.architecture.parameters())
        self.A = list(self.a.mutator.arch_params.parameters())
        self.a.architecture.head.register_forward_hook(self.hook)
        self.logits = None

    def hook(self, m, i, o):
        self.logits = o

    def load(self, algo, ow):
        a = self.a
        a.load_state_dict({k: v.clone() for k, v in
                           algo.state_dict().items()})
        a.train()
        cfg = self.cfg
        self.opts = []
        for key, ps, lr in (('architecture', self.W, 0.05),
                            ('mutator', self.A, cfg['alr'])):
            o = torch.optim.SGD(ps, lr=lr, momentum=cfg['mom'],
                                weight_decay=cfg['wd'])
            o.load_state_dict(copy.deepcopy(
                ow[key].optimizer.state_dict()))
            self.opts.append(o)

    def step(self, which, loss):
        ps = (self.W, self.A)[which]
        gs = torch.autograd.grad(loss, ps, allow_unused=True) \
            if loss.requires_grad else [None] * len(ps)
        for p, g in zip(ps, gs):
            p.grad = g
        self.opts[which].step()
        for p in ps:
            p.grad = None

    def loss(self, data):
        return self.a.architecture(data['inputs'], data['data_samples'],
                                   mode='loss')['loss']

    def one(self, mode, data, it):
        cfg, a = self.cfg, self.a
        a.set_subnet(mode, it > cfg['start'])
        loss = self.loss(data)
        if mode == 'max' and self.teach:
            self.teacher = self.logits.detach()
        elif it > cfg['dist']:
            self.sim.probe('distill')
            t = cfg['tau']
            p = torch.softmax(self.teacher / t, 1)
            loss = loss + (p * (p.log() - torch.log_softmax(
                self.logits / t, 1))).sum() / len(p) * t * t * cfg['kw']
        self.step(0, loss)

    def penalty(self, e):
        cfg = self.cfg
        t = self.flops * cfg['target']
        err = e - t
        x = float(e)
        self.sim.probe('below-target' if x < 0.95 * t else 'in-target'
                       if x <= t else 'above-target')
        if cfg['loss'] == 'l2':
            return err ** 2 * cfg['weight']
        if cfg['loss'] == 'l1':
            return err.abs() * cfg['weight']
        if cfg['loss'] == 'inverted_log_l1':
            return -torch.log(1 / (err.abs() + 1e-5)) * cfg['weight']
        r = 0.1 if abs(float(err)) > 200 else 1.0
        if x < 0.95 * t:
            f = torch.log(r * err.abs())
        elif x < t:
            f = e * 0
        else:
            f = torch.log(r * (e - 0.95 * t).abs())
        return f * cfg['weight']

    def run(self, data, it):
        """The iteration number `it` of an uninterrupted training."""
        cfg, a, sim = self.cfg, self.a, self.sim
        train = it > cfg['start']
        sim.probe('arch-phase' if train else 'weight-phase')
        a.arch_train = train
        # every earlier scheduled choice has lowered the probability
        n = cfg['strategy'].count('scheduled_random')
        prob = cfg['prob'] * 0.9999 ** (n * it)
        modes = []
        for kind in cfg['strategy']:
            if kind == 'arch_random':
                kind = 'direct' if train else 'random'
                sim.probe(kind)
            elif kind == 'scheduled_random':
                u = random.uniform(0, 1)
                kind = 'direct' if u > prob and train else 'random'
                if kind == 'direct':
                    sim.probe('scheduled-direct')
                prob *= 0.9999
            self.teach = kind == 'max'
            self.one(kind, data, it)
            modes.append(kind)
        if train and it % cfg['freq'] == 0:
            sim.probe('arch-step')
            sim.probe('loss-' + cfg['loss'])
            a.eval()
            a.set_subnet('max', True)
            self.step(1, self.loss(data))
            a.set_subnet('expected', False)
            self.step(1, self.penalty(a.calc_current_flops()))
            a.train()
            modes += ['max', 'expected']
        else:
            sim.probe('no-arch-step')
        return modes


def close(x, y):
    return torch.allclose(x, y, atol=1e-4, rtol=1e-3, equal_nan=True)


class Watch(Hook):
    priority = 'VERY_HIGH'

    def __init__(self, algo, twin, sim, log):
        self.a, self.twin, self.sim, self.log = algo, twin, sim, log

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        self.data = data_batch
        self.twin.load(self.a, runner.optim_wrapper)
        del self.log[:]
        self.rng = random.getstate()
        self.a0 = [p.detach().clone() for p in
                   self.a.mutator.arch_params.parameters()]

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        sim, a, t = self.sim, self.a, self.twin
        it = runner.iter
        keep = random.getstate()
        random.setstate(self.rng)
        modes = t.run(self.data, it)
        same_rng = random.getstate() == keep
        random.setstate(keep)
        sim.log('it', it, modes)
        sim.check(self.log == modes, 'kinds', f'iteration {it} trained '
                  f'{self.log}, an uninterrupted run trains {modes}')
        sim.check(same_rng, 'random', 'random numbers were used for '
                  'something else')
        due = it > t.cfg['start'] and it % t.cfg['freq'] == 0
        own = dict(a.mutator.arch_params.named_parameters())
        if not due:
            sim.check(all(torch.equal(p, q) for p, q in
                          zip(own.values(), self.a0)), 'arch-untimely',
                      f'iteration {it} changed architecture parameters')
        for n, p in t.a.mutator.arch_params.named_parameters():
            sim.check(close(own[n], p), 'arch-gradient',
                      lambda: f'iteration {it}: architecture parameters of '
                      f'unit {n} are {own[n].tolist()}, by their own '
                      f'gradients {p.tolist()}')
        mine = a.architecture.state_dict()
        for n, v in t.a.architecture.state_dict().items():
            sim.check(close(mine[n].double(), v.double()), 'weight-gradient',
                      lambda: f'iteration {it}: {n} is off by '
                      f'{float((mine[n].double() - v.double()).abs().max())}')
        sim.check(a.training and all(
            m.training for m in a.architecture.modules()), 'mode',
            'the network is left in evaluation mode')
        sim.state([it, modes, [tdigest(p) for p in own.values()]])


def life(plan, sim, lf, work, flops):
    cfg = plan['cfg']
    a = build(cfg, flops)
    a.init_weights = lambda: None
    log = []
    spy(a, sim, cfg, log)
    twin = Twin(cfg, flops, sim)
    hooks = [Watch(a, twin, sim, log)]
    if lf:
        sim.arm('crash')
        hooks.append(Die(lf[0], lf[1], sim))
    ck = last_ckpt(work)
    if ck:
        st = torch.load(ck, map_location='cpu')
        it = st['meta']['iter']
        if cfg['jump'] and it < cfg['jump']:
            # the epochs so far were long ones
            st['meta']['iter'] = it = it + cfg['jump']
            torch.save(st, ck)
            sim.probe('late')
        sim.probe('resumed')
        if it > cfg['start']:
            sim.probe('resumed-arch-phase')
        sim.log('resume', it)
    ds = ListData(cfg['per'] * 2, seed=1, shape=(3, 6, 6),
                  classes=cfg['net']['classes'])
    ld = loader(ds, 2)
    coll = ld.collate_fn
    ld.collate_fn = lambda items: {k: v for k, v in coll(items).items()
                                   if k != 'idx'}

    def opt(lr):
        return dict(optimizer=dict(type='SGD', lr=lr, momentum=cfg['mom'],
                                   weight_decay=cfg['wd']))
    r = runner(work, a, dict(by_epoch=True, max_epochs=cfg['max']), ld,
               optim=dict(
                   constructor='mmrazor.SeparateOptimWrapperConstructor',
                   architecture=opt(0.05), mutator=opt(cfg['alr'])),
               hooks=hooks, ckpt=dict(interval=1), resume=bool(ck),
               seed=plan['seed'] % 1000)
    r.train()
    if cfg['dump']:
        dump(cfg, a, r, sim, flops)
    return r.epoch


def dump(cfg, a, r, sim, flops):
    """The sub-networks a finished training hands over."""
    sim.probe('dump')
    ws = Widths(cfg, a)
    with torch.no_grad():
        for p in a.mutator.arch_params.parameters():
            p.nan_to_num_(0.5).clamp_(0.3, 1.0)
    # a target some widths can hit, unless told otherwise
    rnd = random.Random(cfg['aseed'])
    reach = cfg['aseed'] % 5 != 0
    if reach:
        a.set_subnet('direct', arch_train=False)
        t = float(a.calc_current_flops()) * rnd.uniform(0.97, 1.03)
    else:
        t = flops * 3
        sim.probe('unreachable')
    a.target_flops = t / 1e6
    tries = []
    calc = a.calc_current_flops

    def counted():
        tries.append(1)
        if len(tries) > 20000:
            sim.violate('endless', 'the dump does not come to an end')
        # the estimate of a real network takes long; its numbers are kept
        key = tuple(int(u.mutable_channel.current_mask.sum())
                    for u in a.mutator.units)
        soft = any(torch.is_tensor(u.mutable_channel.
                                   activated_tensor_channels)
                   for u in a.mutator.units)
        if soft:
            return calc()
        if key not in memo:
            memo[key] = calc()
        if abs(memo[key] - t) <= 0.05 * t:
            hits.append(1)
        return memo[key]
    hits = []
    memo = {}
    a.calc_current_flops = counted
    before = {k: v.clone() for k, v in a.state_dict().items()
              if 'mask' not in k}
    DMCPSubnetHook(subnet_sample_num=cfg['dump']).after_run(r)
    d = os.path.join(r.work_dir, 'model_sample')
    now = a.state_dict()
    sim.check(all(torch.equal(now[k], v) for k, v in before.items()),
              'dump-changed', 'dumping changed the network')
    files = sorted(os.listdir(d))
    sim.check(files == sorted([f'subnet_{i + 1}.json' for i in
                               range(cfg['dump'])] + ['excepted_ch.json']),
              'dump-files', f'dumped are {files}')
    for f in files:
        with open(os.path.join(d, f)) as h:
            fix = json.load(h)
        net = Arch(cfg['net'])
        load_fix_subnet(net, fix, load_subnet_mode='mutator')
        got = ResourceEstimator().estimate(
            net.backbone, flops_params_cfg=dict(units=None))['flops']
        if f.startswith('subnet') and len(hits) >= cfg['dump']:
            sim.probe('hit')
            sim.check(0.9499 * t <= got <= 1.0501 * t, 'dump-target',
                      f'{f} has {got} FLOPs, the target is {t}')
        if not f.startswith('subnet'):
            a.set_subnet('expected', arch_train=False)
            e = float(a.calc_current_flops())
            want = {}
            for i, (u, g, k, lo) in enumerate(ws.rows):
                p = a.mutator.arch_params[str(i)].detach().clamp(min=0)
                want[i] = lo + g * float(torch.exp(-p).cumprod(0).sum())
            sim.log('expected', e, got)
            for i, (u, g, k, lo) in enumerate(ws.rows):
                for ch in u.output_related:
                    m = dict(net.named_modules()).get(ch.name)
                    if not isinstance(m, nn.Conv2d) or m.groups > 1:
                        continue
                    if ch.end - ch.start != m.out_channels and \
                            ch.num_channels != u.num_channels:
                        continue
                    sim.check(abs(m.out_channels - want[i]) <= 0.5001,
                              'dump-expected', f'{ch.name} has '
                              f'{m.out_channels} channels, expected are '
                              f'{want[i]:.2f} of {u.num_channels}')


def run(plan, sim):
    cfg = plan['cfg']
    flops = full_flops(cfg)
    work = os.path.join(sim.scratch, 'w')
    os.makedirs(work)
    for n, lf in enumerate(list(plan['lives']) + [None]):
        r = sim.process(life, plan, sim, lf, work, flops)
        sim.log('life', r.status, lf)
        if r.status == 'error':
            sim.violate('unexpected', f'life {n} raised {r.exc}\n{r.tb}')
        if r.status == 'ok':
            sim.check(r.value == cfg['max'], 'epochs',
                      f'finished at epoch {r.value}')
            break
    for _ in range(MIN_STEPS):
        sim.log('end')
