"""C18: files written by training hooks are complete, legal and on time."""
import copy
import os
import random

import cv2
import numpy as np
import torch
import torch.nn as nn
from mmcv.transforms import BaseTransform
from mmengine import ConfigDict
from mmengine.fileio import load
from mmengine.hooks import Hook
from mmengine.model import BaseModel
from mmengine.registry import TRANSFORMS
from mmengine.visualization import Visualizer

from mmrazor.engine import DMCPSubnetHook, DumpSubnetHook
from mmrazor.engine.hooks import RazorVisualizationHook
from mmrazor.models.mutables.base_mutable import BaseMutable
from mmrazor.structures import load_fix_subnet
from simkit.disk import SimDisk
from simkit.ranks import SimRanks
from simkit.sim import tdigest
from . import c22
from .diff import build_darts, build_dsnas, gen_diff, simplify_diff
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import (StubRunner, batch, build_oneshot, build_spos, gen_cnn,
                     gen_space, simplify_cnn)

ID = 'C18'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 140, 10000
MIN_STEPS = 3
RUN_TIMEOUT = 200
RULE = ('A run is (a) a real Runner training over several process lives with '
        'DumpSubnetHook on a one-shot, width, DARTS or DSNAS supernet whose '
        'architecture weights move every iteration; a life ends by dying at '
        'a hook point, or at a drawn file operation of the dump by a crash, '
        'a torn write, EIO or ENOSPC, and the next one resumes from the last '
        'checkpoint; (b) the same hook on 2-3 simulated ranks in a random '
        'interleaving; (c) DMCPSubnetHook at the end of a DMCP run over such '
        'lives; or (d) RazorVisualizationHook recording feature maps during '
        'a training, with failing forward passes.')
STATE_MEASURE = 'digest of (life outcome, names and contents of the files)'
COMPONENTS = dict(
    real='DumpSubnetHook, DMCPSubnetHook, RazorVisualizationHook, '
    'RecorderManager, Runner, CheckpointHook, resume, export/convert/'
    'load_fix_subnet, mutators, fileio, Visualizer, cv2',
    stub='train_step (moves the architecture weights), data, disk (real '
    'files, simulated failures), process death, ranks\' collectives')
ASSUMPTIONS = ['process-death crash model: os.replace is atomic',
               'checkpoint files are written completely by mmengine']
MUST_REACH = ['spos', 'oneshot', 'darts', 'dsnas', 'by-iter', 'keep',
              'resumed', 'redump', 'died-in-dump', 'ranks', 'dmcp', 'vis',
              'last', 'out-dir']


def faults(rng, top):
    return dict(op=rng.randint(0, top),
                kind=rng.weighted([(4, 'crash'), (1, 'enospc'), (1, 'eio')]),
                frac=rng.choice([0.0, 0.5, 0.9, 1.0]))


def gen(rng, i, tier):
    mode = rng.weighted([(8, 'dump'), (2, 'ranks'), (3, 'dmcp'), (3, 'vis')])
    seed = rng.seed32()
    if mode == 'dmcp':
        p = c22.gen(rng.sub('dmcp'), i, tier)
        cfg = dict(mode=mode, d=p['cfg'], samples=rng.randint(1, 3))
        return dict(cfg=cfg, seed=seed, lives=[
            dict(fault=faults(rng, 16)) for _ in range(rng.randint(0, 2))])
    if mode == 'vis':
        cfg = dict(mode=mode, idx=rng.sample(range(3), rng.randint(1, 2)),
                   interval=rng.randint(1, 3), overlaid=rng.chance(0.5),
                   out=rng.chance(0.7), norm=rng.chance(0.3),
                   epochs=rng.randint(2, 4), enabled=rng.chance(0.9),
                   rel=rng.chance(0.6), frozen=rng.chance(0.3))
        return dict(cfg=cfg, seed=seed,
                    fail=rng.choice([0, 0, rng.randint(1, 4)]))
    kind = rng.choice(['spos', 'oneshot', 'darts', 'dsnas'])
    cfg = dict(mode=mode, kind=kind, wseed=rng.seed32())
    if kind == 'spos':
        cfg['net'] = gen_space(rng, max_blocks=2)
    elif kind == 'oneshot':
        cfg['net'] = gen_cnn(rng, max_layers=2, cs=(2, 3, 4))
        cfg['cands'] = rng.choice([[0.5, 1.0], [0.25, 0.5, 1.0],
                                   [0.34, 0.67, 1.0]])
    else:
        cfg['net'] = gen_diff(rng, kind == 'dsnas', 3)
    cfg.update(by_epoch=rng.chance(0.5), interval=rng.choice(
        [-1, 1, 1, 2, 2, 3, 4]), save_last=rng.chance(0.6),
        keep=rng.choice([-1, -1, 1, 2]), per=rng.randint(1, 3),
        out=rng.chance(0.7), tmpl=rng.chance(0.2), ck=rng.randint(1, 3),
        max=rng.randint(2, 5), moving=rng.chance(0.7))
    if mode == 'ranks':
        cfg['n'] = rng.choice([2, 3])
        return dict(cfg=cfg, seed=seed,
                    sched=[rng.randint(0, 5) for _ in range(60)])
    lives = []
    for _ in range(rng.randint(0, 3)):
        if cfg['out'] and rng.chance(0.7):
            lives.append(dict(fault=faults(rng, 4 * cfg['max'])))
        else:
            pt = rng.choice(['after_train_iter', 'before_train_iter',
                             'after_train_epoch', 'after_save_checkpoint'])
            lives.append(dict(die=[pt, rng.randint(0, cfg['max'] - 1)]))
    return dict(cfg=cfg, seed=seed, lives=lives)


def simplify(plan):
    cfg = plan['cfg']
    if cfg['mode'] == 'dump':
        for k, v in (('interval', 1), ('keep', -1), ('save_last', True),
                     ('tmpl', False), ('by_epoch', True), ('per', 1),
                     ('max', 2), ('ck', 1)):
            if cfg[k] != v:
                yield dict(plan, cfg=dict(cfg, **{k: v}))
        if cfg['kind'] == 'oneshot':
            for n in simplify_cnn(cfg['net']):
                yield dict(plan, cfg=dict(cfg, net=n))
        elif cfg['kind'] != 'spos':
            for n in simplify_diff(cfg['net']):
                yield dict(plan, cfg=dict(cfg, net=n))


def build(cfg):
    k = cfg['kind']
    if k == 'spos':
        return build_spos(cfg['net'], cfg['wseed'])
    if k == 'oneshot':
        return build_oneshot(cfg['net'], cfg['cands'], 'ratio', cfg['wseed'])
    if k == 'darts':
        return build_darts(cfg['net'], cfg['wseed'])
    return build_dsnas(cfg['net'], cfg['wseed'])


def alphas(a):
    ap = getattr(a.mutator, '_arch_params', None)
    if not ap:
        return {}
    return {k: v.detach().clone() for k, v in ap.items()}


def move(a, s, spread=2.):
    """One simulated training step."""
    g = torch.Generator().manual_seed(s % (2**31))
    ps = getattr(a.mutator, '_arch_params', None) or {}
    with torch.no_grad():
        for _, p in sorted(ps.items()):
            p.copy_(torch.randn(p.shape, generator=g) * spread)
        for p in a.architecture.parameters():
            p.add_(torch.randn(p.shape, generator=g) * 0.01)


def digest(a):
    # a non-leaf tensor left behind by the last forward is no state
    return [(n, tdigest(v)) for n, v in sorted(a.state_dict().items())] + [
        (n, m.training, bool(getattr(m, 'is_fixed', False)),
         repr(getattr(m, 'current_choice', None)) if isinstance(
             m, BaseMutable) and not hasattr(m, 'source_mutables') else '')
        for n, m in a.named_modules()]


# ------------------------------------------------------------------ legality

def check_file(sim, cfg, path, best=None):
    """The description of one legal architecture."""
    try:
        d = load(path)
    except Exception as e:
        sim.violate('unreadable', f'{os.path.basename(path)}: {e!r}')
    sim.check(isinstance(d, dict), 'unreadable',
              f'{os.path.basename(path)} holds {d!r}')
    a = build(cfg)
    a.eval()
    if cfg['kind'] == 'oneshot':
        units = {}
        for u in a.mutator.mutable_units:
            cand = set(u.candidate_choices)
            cand = {c if isinstance(c, int) else
                    max(1, int(u.num_channels * c)) for c in cand}
            for ch in u.output_related:
                # several units can share one convolution
                if isinstance(ch.module, nn.Conv2d):
                    units[ch.name] = {x + y for x in cand
                                      for y in units.get(ch.name, [0])}
    else:
        groups = a.mutator.search_groups
        names = {m: n for n, m in a.architecture.named_modules()}
        picks = {}
        for g, ms in groups.items():
            seen = []
            for m in ms:
                key = m.alias or next(
                    (p + names[m] for p in ('architecture.', '')
                     if m in names and p + names[m] in d), None)
                if type(m).__name__.endswith('Unit'):
                    key = 'architecture.mutable_width'
                if key is None or key not in d:
                    sim.violate('incomplete', f'{os.path.basename(path)} '
                                f'says nothing about {names.get(m)} '
                                f'(group {g}): {d}')
                seen.append(d[key]['chosen'])
            sim.check(all(s == seen[0] for s in seen), 'incoherent',
                      lambda: f'{g}: {seen}')
            picks[g] = seen[0]
        for g, ms in groups.items():
            m = ms[0]
            c = picks[g]
            opts = list(m.candidate_choices if hasattr(m, 'candidate_choices')
                        else m.choices)
            sim.check(all(x in opts for x in (
                c if isinstance(c, list) else [c])), 'illegal',
                lambda: f'{g}: {c} is none of {opts}')
            if best is not None and str(g) in best:
                al = torch.tensor(best[str(g)])
                cs = c if isinstance(c, list) else [c]
                k = len(cs)
                want = getattr(m, 'num_chosen', 1)
                sim.check(k == min(want, len(opts)), 'illegal',
                          lambda: f'{g}: {cs}, {want} are to be chosen')
                top = al.topk(min(k, len(opts))).values[-1]
                sim.check(all(al[opts.index(x)] >= top - 1e-6 for x in cs),
                          'not-best', lambda: f'{os.path.basename(path)}: '
                          f'{g} is {cs} with weights '
                          f'{dict(zip(opts, al.tolist()))}')
    net = a.architecture if cfg['kind'] == 'oneshot' else a
    try:
        load_fix_subnet(a, path)
        with torch.no_grad():
            y = a(batch(3, 2, 6, 2)['inputs'], mode='tensor')
    except Exception as e:
        sim.violate('unloadable', f'{os.path.basename(path)}: '
                    f'{type(e).__name__}: {e}')
    sim.check(bool(torch.isfinite(y).all()), 'unloadable', 'output')
    if cfg['kind'] == 'oneshot':
        mods = dict(net.named_modules())
        for n, cand in units.items():
            m = mods.get(n)
            if isinstance(m, nn.Conv2d) and m.groups == 1:
                sim.check(m.out_channels in cand, 'illegal',
                          f'{n} has {m.out_channels} channels, candidates '
                          f'{sorted(cand)}')
    return repr(sorted(d.items()))


# ----------------------------------------------------------------- training

class Before(Hook):
    priority = 'LOW'

    def __init__(self, life):
        self.life = life

    def after_train_epoch(self, runner):
        self.life.before(runner, True)

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        self.life.before(runner, False)


class After(Hook):
    priority = 'LOWEST'

    def __init__(self, life):
        self.life = life

    def after_train_epoch(self, runner):
        self.life.after(runner, True)

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        self.life.after(runner, False)


def total(cfg):
    return cfg['max'] if cfg['by_epoch'] else cfg['max'] * cfg['per']


def due(cfg, step):
    return (cfg['interval'] > 0 and step % cfg['interval'] == 0) or (
        cfg['save_last'] and step == total(cfg))


def fname(cfg, step):
    if cfg['tmpl']:
        return f's{step}.yaml'
    return f'subnet_{"epoch" if cfg["by_epoch"] else "iter"}_{step}.yaml'


def hook_of(cfg, root):
    kw = dict(filename_tmpl='s{}.yaml') if cfg['tmpl'] else {}
    return DumpSubnetHook(
        interval=cfg['interval'], by_epoch=cfg['by_epoch'],
        out_dir=os.path.join(root, 'out') if cfg['out'] else None,
        max_keep_subnets=cfg['keep'], save_last=cfg['save_last'], **kw)


class Life:

    def __init__(self, plan, sim, a, root, disk):
        self.plan, self.sim, self.a, self.disk = plan, sim, a, disk
        self.cfg = plan['cfg']
        self.dir = os.path.join(root, 'out', 'w') if self.cfg['out'] else \
            os.path.join(root, 'w')
        self.snap = None

    def step(self, runner, by_epoch):
        return (runner.epoch if by_epoch else runner.iter) + 1

    def before(self, runner, by_epoch):
        if by_epoch != self.cfg['by_epoch']:
            return
        self.snap = digest(self.a)
        self.n = self.disk.n
        self.ops = len(self.disk.ops)
        best = {k: v.tolist() for k, v in alphas(self.a).items()}
        s = self.step(runner, by_epoch)
        if due(self.cfg, s):
            self.sim.obs.append(['try', s, best])

    def after(self, runner, by_epoch):
        cfg, sim = self.cfg, self.sim
        if by_epoch != cfg['by_epoch']:
            return
        s = self.step(runner, by_epoch)
        sim.check(digest(self.a) == self.snap, 'altered',
                  f'dumping at step {s} altered the model')
        f = os.path.join(self.dir, fname(cfg, s))
        if due(cfg, s):
            sim.check(os.path.exists(f), 'missing',
                      f'no {fname(cfg, s)} was written')
            sim.obs.append(['done', s, load(f)])
            sim.log('dump', s)
            if s == total(cfg):
                sim.probe('last')
        elif cfg['out']:
            sim.check(self.disk.n == self.n, 'unasked',
                      lambda: f'step {s} of interval {cfg["interval"]} wrote '
                      f'{self.disk.ops[self.ops:]}')


def life(plan, sim, lf, root):
    cfg = plan['cfg']
    a = build(cfg)
    a.init_weights = lambda: None
    work = os.path.join(root, 'w')
    os.makedirs(os.path.join(root, 'out'), exist_ok=True)
    fs = [lf['fault']] if 'fault' in lf else []
    disk = SimDisk(sim, os.path.join(root, 'out'), fs)
    if lf:
        sim.arm(lf['fault']['kind'] if fs else 'crash')
    L = Life(plan, sim, a, root, disk)
    hooks = [Before(L), hook_of(cfg, root), After(L)]
    if 'die' in lf:
        hooks.append(Die(lf['die'][0], lf['die'][1], sim))
    ds = ListData(cfg['per'] * 2, seed=1, shape=(3, 6, 6), classes=2)
    if cfg['by_epoch']:
        tc = dict(by_epoch=True, max_epochs=cfg['max'])
    else:
        tc = dict(by_epoch=False, max_iters=total(cfg))
        sim.probe('by-iter')
    first = last_ckpt(work) is None
    if not first:
        sim.probe('resumed')
    ck = dict(interval=cfg['ck'], by_epoch=cfg['by_epoch'])
    r = runner(work, a, tc, loader(ds, 2), hooks=hooks, ckpt=ck,
               resume=not first, seed=plan['seed'] % 1000)

    def train_step(data, optim_wrapper):
        a.train()
        data = {k: v for k, v in data.items() if k != 'idx'}
        if cfg['kind'] in ('spos', 'oneshot') and cfg['moving']:
            a.mutator.set_choices(a.mutator.sample_choices())
        a.architecture(mode='loss', **data)
        move(a, plan['seed'] + 7 * r.iter)
        return dict(loss=torch.zeros(()))
    a.train_step = train_step
    with disk:
        r.train()
    return r.iter


def dump(plan, sim):
    cfg = plan['cfg']
    sim.probe(cfg['kind'])
    root = os.path.abspath('r')
    os.makedirs(root)
    d = os.path.join(root, 'out', 'w') if cfg['out'] else \
        os.path.join(root, 'w')
    if cfg['out']:
        sim.probe('out-dir')
    if cfg['keep'] > 0 and cfg['interval'] > 0:
        sim.probe('keep')
    lives = list(plan['lives']) + [{}]
    n_redump = 0
    for n, lf in enumerate(lives):
        mark = len(sim.obs)
        before = {f: open(os.path.join(d, f), 'rb').read()
                  for f in listing(d)}
        r = sim.process(life, plan, sim, lf, root)
        sim.log('life', r.status, sorted(lf))
        if r.status == 'error':
            if not (lf.get('fault') and lf['fault']['kind'] != 'crash'
                    and 'OSError' in r.exc):
                sim.violate('unexpected', f'life {n} raised {r.exc}\n{r.tb}')
        new = sim.obs[mark:]
        tries = {}
        for o in sim.obs:
            if o[0] == 'try':
                tries.setdefault(o[1], []).append(o[2])
        done = {}
        for o in sim.obs:
            if o[0] == 'done':
                done.setdefault(o[1], []).append(o[2])
        if any(o[0] == 'try' for o in new[-1:]) and r.status != 'ok':
            sim.probe('died-in-dump')
        if any(len(v) > 1 for v in tries.values()):
            sim.probe('redump')
        names = {fname(cfg, s): s for s in tries}
        got = listing(d)
        for f in got:
            sim.check(f in names, 'unasked', f'{f} is none of the '
                      f'configured dumps {sorted(names)}')
            s = names[f]
            bests = tries[s]
            raw = load_quiet(sim, os.path.join(d, f))
            # an interrupted dump leaves the earlier file or the new one
            if s in done and tries[s][-1] is not None:
                redone = [o for o in new if o[0] == 'try' and o[1] == s]
                if not redone:
                    sim.check(raw == done[s][-1], 'overwritten',
                              f'{f} changed after it had been written')
            check_file(sim, cfg, os.path.join(d, f),
                       None if not bests[0] else pick(sim, cfg, d, f, bests))
        # what was finished is still there
        k = cfg['keep']
        steps = sorted(done)
        top = max(done) if done else 0
        if k > 0 and cfg['interval'] > 0:
            # the newest k at the time of the newest dump
            last = [o[1] for o in sim.obs if o[0] == 'try']
            cur = last[-1] if last else 0
            need = [s for s in steps if s <= cur][-k:]
            fin = new and new[-1][0] == 'done'
            if fin:
                must = need
                have = sorted(names[f] for f in got if names[f] <= cur)
                sim.check(len(have) <= k, 'too-many',
                          f'{have} are kept, {k} is the limit')
            else:
                must = need[1:] if cur in need else need[-(k - 1):] \
                    if k > 1 else []
        else:
            must = steps
        for s in must:
            sim.check(fname(cfg, s) in got, 'lost', f'{fname(cfg, s)} had '
                      f'been written and is gone; there are {got}')
        sim.state([r.status, got, [sorted(done)]])
        if r.status == 'ok':
            every = [s for s in range(1, total(cfg) + 1) if due(cfg, s)]
            # a life may end between a checkpoint and the dump of its step
            sim.check(sorted(tries) == every, 'schedule', f'dumped at '
                      f'{sorted(tries)}, configured are {every}')
            cut = set(every) - set(done)
            sim.check(len(cut) <= n, 'schedule', f'{sorted(cut)} were not '
                      f'dumped in {n + 1} lives')
            return
    sim.violate('unexpected', 'the training never finished')


def load_quiet(sim, path):
    try:
        return load(path)
    except Exception as e:
        sim.violate('unreadable', f'{os.path.basename(path)}: {e!r}')


def pick(sim, cfg, d, f, bests):
    """The architecture weights of the dump the file comes from."""
    for b in bests[:-1]:
        try:
            check_file(_Quiet(), cfg, os.path.join(d, f), b)
            return b
        except _Bad:
            continue
    return bests[-1]


class _Bad(Exception):
    pass


class _Quiet:

    def check(self, c, *a):
        if not c:
            raise _Bad()

    def violate(self, *a):
        raise _Bad()


def listing(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.yaml')) \
        if os.path.isdir(d) else []


# -------------------------------------------------------------------- ranks

class Wrapped(nn.Module):

    def __init__(self, m):
        super().__init__()
        self.module = m


def ranks(plan, sim):
    cfg = plan['cfg']
    sim.probe('ranks')
    root = os.path.abspath('r')
    os.makedirs(os.path.join(root, 'w'))
    S = SimRanks(sim, cfg['n'], plan['sched'],
                 rank_seed=lambda r: plan['seed'])
    disk = SimDisk(sim, root, [])
    disk.sched, disk.who = S.yield_, S.rank
    out = {}

    def rank(r):
        a = build(cfg)
        hook = hook_of(cfg, root)
        run = StubRunner(Wrapped(a), os.path.join(root, 'w'), r, True)
        run.epoch = run.iter = 0
        run.max_epochs, run.max_iters = cfg['max'], total(cfg)
        run.train_loop = None
        hook.before_train(run)
        trail = []
        for s in range(total(cfg)):
            run.epoch = run.iter = s
            hook.is_last_train_epoch = hook.is_last_train_iter = \
                lambda x, s=s: s + 1 == total(cfg)
            move(a, plan['seed'] + s)
            d = digest(a)
            if cfg['by_epoch']:
                hook.after_train_epoch(run)
            else:
                hook.after_train_iter(run, s)
            sim.check(digest(a) == d, 'altered', f'rank {r}: dumping altered '
                      'the model')
            trail.append([random.random(), float(np.random.rand()),
                          float(torch.rand(()))])
            S.yield_()
        return trail

    with disk:
        res = S.run(rank)
    for x in res:
        if x.exc is not None:
            sim.violate('unexpected', f'rank {x.i}: {x.exc!r}\n{x.tb}')
    for who, op, f in disk.ops:
        sim.check(who == 0, 'rank-writes', f'rank {who}: {op} {f}')
    for x in res[1:]:
        sim.check(x.result == res[0].result, 'random-streams', 'after a dump '
                  f'rank {x.i} draws other random numbers than rank 0')
    d = os.path.join(root, 'out', 'w') if cfg['out'] else \
        os.path.join(root, 'w')
    want = [s for s in range(1, total(cfg) + 1) if due(cfg, s)]
    k = cfg['keep']
    if k > 0 and cfg['interval'] > 0:
        want = want[-k:]
    got = listing(d)
    sim.check(got == sorted(fname(cfg, s) for s in want), 'schedule',
              f'there are {got}, configured are steps {want}')
    for f in got:
        check_file(sim, cfg, os.path.join(d, f))
    sim.state([got, S.inter])
    del out


# --------------------------------------------------------------------- DMCP

def dmcp_life(plan, sim, lf, work):
    cfg = plan['cfg']
    d = cfg['d']
    torch.manual_seed(plan['seed'] % 10**6)
    random.seed(plan['seed'])
    np.random.seed(plan['seed'] % 2**32)
    a = c22.build(d, 1e9)
    g = torch.Generator().manual_seed(plan['seed'] % 10**6)
    with torch.no_grad():
        for _, p in sorted(a.mutator.arch_params.items()):
            p.copy_(torch.rand(p.shape, generator=g))
    a.set_subnet('direct', arch_train=False)
    a.target_flops = float(a.calc_current_flops()) / 1e6
    fs = [lf['fault']] if 'fault' in lf else []
    if fs:
        sim.arm(lf['fault']['kind'])
    disk = SimDisk(sim, work, fs)
    r = StubRunner(a, work)
    state = {k: v.clone() for k, v in a.state_dict().items()
             if 'mask' not in k}
    with disk:
        DMCPSubnetHook(subnet_sample_num=cfg['samples'],
                       max_sample_times=20).after_run(r)
    now = a.state_dict()
    sim.check(all(torch.equal(now[k], v) for k, v in state.items()),
              'altered', 'dumping changed the network')


def dmcp(plan, sim):
    import json
    cfg = plan['cfg']
    sim.probe('dmcp')
    work = os.path.abspath('w')
    os.makedirs(work)
    d = os.path.join(work, 'model_sample')
    want = [f'subnet_{i + 1}.json' for i in range(cfg['samples'])]
    want.append('excepted_ch.json')
    for n, lf in enumerate(list(plan['lives']) + [{}]):
        before = [f for f in want if os.path.exists(os.path.join(d, f))]
        r = sim.process(dmcp_life, plan, sim, lf, work)
        sim.log('life', r.status)
        if r.status == 'error' and not (
                lf.get('fault') and lf['fault']['kind'] != 'crash'
                and 'OSError' in r.exc):
            sim.violate('unexpected', f'life {n} raised {r.exc}\n{r.tb}')
        if lf and r.status != 'ok':
            sim.probe('died-in-dump')
        got = sorted(f for f in os.listdir(d) if f.endswith('.json')) \
            if os.path.isdir(d) else []
        for f in before:
            sim.check(f in got, 'lost', f'{f} is gone')
        for f in got:
            sim.check(f in want, 'unasked', f)
            try:
                with open(os.path.join(d, f)) as h:
                    fix = json.load(h)
            except Exception as e:
                sim.violate('unreadable', f'{f}: {e!r}')
            net = c22.Arch(cfg['d']['net'])
            try:
                load_fix_subnet(net, fix, load_subnet_mode='mutator')
            except Exception as e:
                sim.violate('unloadable', f'{f}: {e!r}')
        sim.state([r.status, got])
        if r.status == 'ok':
            sim.check(got == sorted(want), 'missing', f'{got} of {want}')
            return
    sim.violate('unexpected', 'never finished')


# ------------------------------------------------------------ visualisation

@TRANSFORMS.register_module(force=True)
class SimPack(BaseTransform):

    def transform(self, d):
        x = torch.from_numpy(np.ascontiguousarray(d['img'])).permute(2, 0, 1)
        return dict(inputs=x, data_samples=0)


class VisNet(BaseModel):

    def __init__(self, frozen):
        super().__init__()
        self.conv = nn.Conv2d(3, 4, 3, padding=1)
        self.bn = nn.BatchNorm2d(4)
        self.drop = nn.Dropout(0.5)
        self.op = nn.Conv2d(4, 5, 1)
        self.frozen = frozen
        self.fail = False
        self.ins = []

    def train(self, mode=True):
        super().train(mode)
        if self.frozen:
            self.bn.eval()
        return self

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = torch.stack(list(inputs)).float() / 255 \
            if isinstance(inputs, list) else inputs
        if self.fail:
            self.fail = False
            raise RuntimeError('injected forward failure')
        y = self.op(self.drop(self.bn(self.conv(x))))
        self.ins.append((x.detach().clone(), y.detach().clone()))
        return y if mode == 'tensor' else [y]


class Spy(Visualizer):
    drawn = None

    def add_datasample(self, name, image, data_sample=None, draw_gt=True,
                       draw_pred=True, show=False, wait_time=0, out_file=None,
                       step=0, **kw):
        Spy.drawn.append((name, image, out_file, step))
        if out_file:
            cv2.imwrite(out_file, image)


def vis(plan, sim):
    sim.probe('vis')
    r = sim.process(vis_life, plan, sim)
    if r.status != 'ok':
        sim.violate('unexpected', f'{r.exc}\n{r.tb}')
    for _ in range(MIN_STEPS):
        sim.log('vis')


def vis_life(plan, sim):
    cfg = plan['cfg']
    os.makedirs('img')
    rng = np.random.RandomState(plan['seed'] % 2**32)
    for i in range(3):
        cv2.imwrite(f'img/{i}.png', rng.randint(
            0, 255, (8, 9, 3), dtype=np.uint8))
    Spy.drawn = []
    Spy.get_instance('visualizer')
    torch.manual_seed(plan['seed'] % 10**6)
    m = VisNet(cfg['frozen'])

    class DS:

        def get_data_info(self, idx):
            return dict(img_path=f'img/{idx}.png')

    from types import SimpleNamespace as NS
    work = 'w' if cfg['rel'] else os.path.abspath('w')
    run = NS(model=m, work_dir=work, timestamp='ts', epoch=0,
             cfg=ConfigDict(test_dataloader=dict(dataset=dict(pipeline=[
                 dict(type='LoadImageFromFile'),
                 dict(type='LoadAnnotations', with_bbox=True),
                 dict(type='SimPack')]))),
             val_loop=NS(dataloader=NS(dataset=DS())))
    hook = RazorVisualizationHook(
        ConfigDict(out=dict(_scope_='mmrazor', type='ModuleOutputs',
                            source='op')),
        ConfigDict(feat=dict(recorder='out')), enabled=cfg['enabled'],
        data_idx=list(cfg['idx']), interval=cfg['interval'],
        out_dir='vis' if cfg['out'] else None, is_overlaid=cfg['overlaid'],
        use_norm=cfg['norm'])
    hook.before_run(run)
    calls = 0
    want = []

    def visit(stage, f):
        nonlocal calls
        calls += 1
        state = [(k, tdigest(v)) for k, v in m.state_dict().items()]
        modes = [x.training for x in m.modules()]
        rnd = torch.get_rng_state()
        m.ins = []
        n0 = len(Spy.drawn)
        boom = calls == plan['fail']
        m.fail = boom
        if boom:
            sim.arm('forward_failure')
        try:
            f()
            ok = True
        except RuntimeError as e:
            if 'injected' not in str(e):
                raise
            sim.fired('forward_failure')
            ok = False
        m.fail = False
        sim.check([(k, tdigest(v)) for k, v in m.state_dict().items()]
                  == state, 'altered', f'visualising at {stage} altered '
                  'parameters or buffers')
        sim.check([x.training for x in m.modules()] == modes, 'altered',
                  f'visualising at {stage} left other train/eval modes')
        sim.check(torch.equal(torch.get_rng_state(), rnd), 'altered',
                  f'visualising at {stage} drew random numbers')
        act = cfg['enabled'] and run.epoch % cfg['interval'] == 0
        new = Spy.drawn[n0:]
        if not act or not ok:
            sim.check(not new, 'unasked', f'{stage}: {len(new)} images')
            return
        sim.check([x[0] for x in new] == [
            f'{stage}_data_idx_{i}_feat_0' for i in cfg['idx']], 'schedule',
            lambda: f'{stage}: {[x[0] for x in new]}')
        for (name, img, out, step), i, (x, y) in zip(new, cfg['idx'], m.ins):
            g = copy.deepcopy(m)
            g.eval()
            raw = cv2.imread(f'img/{i}.png')
            with torch.no_grad():
                ref = g(torch.from_numpy(raw).permute(2, 0, 1)[None].float()
                        / 255)
            sim.check(torch.allclose(ref, y, atol=1e-5), 'other-features',
                      f'{name} does not show the features of the network '
                      'under test')
            if cfg['out']:
                sim.check(os.path.normpath(os.path.dirname(out))
                          == os.path.normpath(os.path.join(
                              work, 'ts', 'vis')), 'wrong-place',
                          f'{name} is in {out}')
                sim.check(os.path.exists(out), 'missing', out)
            want.append(name)
        sim.check([x[3] for x in Spy.drawn] == list(range(len(Spy.drawn))),
                  'steps', 'steps are not consecutive')
        sim.log('vis', stage, len(new))

    visit('before_run', lambda: hook.before_train(run))
    for e in range(cfg['epochs']):
        run.epoch = e
        m.train()
        m(torch.randn(2, 3, 8, 9))
        visit(f'epoch_{e}', lambda: hook.after_train_epoch(run))
        sim.state([e, len(want)])


def run(plan, sim):
    m = plan['cfg']['mode']
    sim.obs = []
    dict(dump=dump, ranks=ranks, dmcp=dmcp, vis=vis)[m](plan, sim)
    for _ in range(MIN_STEPS):
        sim.log('end')
