"""C10: alternating search loops pair every batch and survive exhaustion."""
import torch
import torch.nn as nn
from mmengine.dataset import DefaultSampler, InfiniteSampler
from mmengine.hooks import Hook
from mmengine.model import BaseModel
from mmengine.runner import BaseLoop

from mmrazor.engine.runner.darts_loop import (DartsEpochBasedTrainLoop,
                                              DartsIterBasedTrainLoop)
from .rr import Die, ListData, last_ckpt, loader, runner

ID = 'C10'
LEVEL = 'exploration'
QUICK, THOROUGH = 400, 30000
MIN_STEPS = 3
RULE = ('A run trains with a DARTS loop (epoch or iteration based) under the '
        'real Runner, with two real loaders of arbitrary lengths, batch '
        'sizes and samplers, over several process lives: the process dies at '
        'runner hook points or a sample cannot be read, and training is '
        'resumed from the last checkpoint. The batches of every step are '
        'recorded.')
STATE_MEASURE = 'digest of (kind, pass, position, lengths)'
COMPONENTS = dict(
    real='DartsEpochBasedTrainLoop, DartsIterBasedTrainLoop, EpochMultiLoader,'
    ' IterMultiLoader, mmengine Runner, CheckpointHook, DistSamplerSeedHook, '
    'torch DataLoader',
    stub='model, dataset, moment of death, read errors')
ASSUMPTIONS = ['loader workers run in the main process',
               'checkpoint files are written by mmengine, which is assumed '
               'to write them completely']
MUST_REACH = ['epoch', 'iter', 'uneven', 'restart', 'resumed', 'read-error',
              'announced']


class Model(BaseModel):

    def __init__(self, rec):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.rec = rec

    def train_step(self, data, optim_wrapper):
        self.rec.append((data, self.training))
        optim_wrapper.update_params((self.w * 1.0).sum())
        return dict(loss=self.w.detach().sum())

    def forward(self, inputs, data_samples=None, mode='tensor'):
        return inputs


class Announced(DefaultSampler):

    def set_epoch(self, epoch):
        super().set_epoch(epoch)
        self.log = getattr(self, 'log', []) + [epoch]


class Silent(torch.utils.data.Sampler):
    """A shuffling sampler that takes no epoch."""

    def __init__(self, ds, seed=0):
        self.n = len(ds)
        self.g = torch.Generator().manual_seed(seed)

    def __iter__(self):
        return iter(torch.randperm(self.n, generator=self.g).tolist())

    def __len__(self):
        return self.n


def gen(rng, i, tier):
    kind = rng.choice(['epoch', 'iter'])
    mx = 9 if tier == 'quick' else 20

    def ld():
        n = rng.randint(1, mx)
        return dict(n=n, b=rng.randint(1, 4),
                    s=rng.weighted([(4, 'shuffle'), (2, 'order'),
                                    (1, 'silent')] +
                                   ([(1, 'inf')] if kind == 'iter' else [])),
                    seed=rng.randint(0, 99))
    cfg = dict(kind=kind, main=ld(), arch=ld(),
               max=rng.randint(1, 5) if kind == 'epoch'
               else rng.randint(1, 30 if tier == 'quick' else 90),
               vb=rng.randint(1, 4), vi=rng.choice([1, 2, 3, 5]),
               cks=rng.choice([1, 1, 2, 3]), val=rng.chance(0.5),
               as_dict=rng.chance(0.3))
    if 'inf' in (cfg['main']['s'], cfg['arch']['s']):
        # mmengine's InfiniteSampler cannot be iterated a second time
        cfg['main']['s'] = cfg['arch']['s'] = 'inf'
    lives = []
    for _ in range(rng.weighted([(2, 0), (4, 1), (2, 2)])):
        lives.append(rng.weighted([
            (4, ['die', rng.choice(['before_train_iter', 'after_train_iter',
                                    'after_train_epoch', 'before_train_epoch']
                                   ), rng.randint(0, 14)]),
            (1, ['read', rng.choice(['main', 'arch']), rng.randint(0, mx - 1),
                 rng.randint(0, 8)])]))
    return dict(cfg=cfg, lives=lives, seed=rng.seed32())


def sampler(l, ds):
    if l['s'] == 'inf':
        return InfiniteSampler(ds, shuffle=True, seed=l['seed'])
    if l['s'] == 'silent':
        return Silent(ds, l['seed'])
    return Announced(ds, shuffle=l['s'] == 'shuffle', seed=l['seed'])


class Events(Hook):
    priority = 'VERY_LOW'

    def __init__(self, plan, life, dss, samplers, rec, sim):
        self.life, self.dss, self.sim = life, dss, sim
        self.samplers, self.rec = samplers, rec
        self.it = 0
        self.batches = []
        self.epochs = []

    def before_train_epoch(self, runner):
        self.epochs.append([runner.epoch, len(self.rec)])
        self.sim.obs.append(['epoch', runner.epoch, len(self.rec)])

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        self.batches.append([runner.iter, batch_idx])

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        main, arch = self.rec[-1][0] if len(self.rec[-1][0]) == 2 \
            else (None, None)
        self.sim.obs.append([
            'it', runner.iter, batch_idx, main and main['idx'],
            arch and arch['idx'], self.rec[-1][1],
            [list(getattr(s, 'log', [])) for s in self.samplers],
            data_batch is self.rec[-1][0]])
        if self.life and self.life[0] == 'read' and runner.iter + 1 >= \
                self.life[3]:
            ds = self.dss[self.life[1]]
            ds.bad = self.life[2] % len(ds)
        if self.life and self.life[0] == 'die' and \
                self.life[1] == 'after_train_iter':
            pass


class ValLoop(BaseLoop):

    def __init__(self, runner, ldr, obs, model):
        super().__init__(runner, ldr)
        self.obs, self.model = obs, model

    def run(self):
        self.model.eval()
        self.obs.append(['val'])


def life(plan, sim, lf, first):
    cfg = plan['cfg']
    rec = []
    dss, ls, sm = {}, {}, []
    for k in ('main', 'arch'):
        l = cfg[k]
        dss[k] = ListData(l['n'], seed=1, shape=(1, ))
        s = sampler(l, dss[k])
        sm.append(s)
        ls[k] = loader(dss[k], l['b'], s)
    model = Model(rec)
    ep = cfg['kind'] == 'epoch'
    ev = Events(plan, lf, dss, sm, rec, sim)
    hooks = [ev]
    if lf and lf[0] == 'die':
        sim.arm('crash')
        hooks.append(Die(lf[1], lf[2], sim))
    r = runner(sim.scratch, model,
               dict(by_epoch=True, max_epochs=cfg['max']) if ep else
               dict(by_epoch=False, max_iters=cfg['max']), ls['main'],
               hooks=hooks,
               ckpt=dict(interval=cfg['cks'], by_epoch=ep), resume=not first)
    if ep:
        loop = DartsEpochBasedTrainLoop(
            r, ls['main'], ls['arch'], cfg['max'], val_begin=cfg['vb'],
            val_interval=cfg['vi'])
    else:
        loop = DartsIterBasedTrainLoop(
            r, ls['main'], ls['arch'], cfg['max'], val_begin=cfg['vb'],
            val_interval=cfg['vi'])
    r._train_loop = loop
    if cfg['val']:
        r._val_loop = ValLoop(r, ls['main'], sim.obs, model)
        r._val_dataloader = r._val_evaluator = r._val_cfg = True
    r.train()
    return dict(iter=r.iter, epoch=r.epoch)


def run(plan, sim):
    cfg = plan['cfg']
    ep = cfg['kind'] == 'epoch'
    sim.probe(cfg['kind'])
    nb = {k: -(-cfg[k]['n'] // cfg[k]['b']) for k in ('main', 'arch')}
    if cfg['main']['s'] == 'inf':
        nb['main'] = 10**9
    if cfg['arch']['s'] == 'inf':
        nb['arch'] = 10**9
    per = min(nb.values())
    if nb['main'] != nb['arch']:
        sim.probe('uneven')
    start = 0
    lives = list(plan['lives']) + [None]
    for k, lf in enumerate(lives):
        del sim.obs[:]
        res = sim.process(life, plan, sim, lf, k == 0)
        evs = list(sim.obs)
        sim.log('life', lf, res.status, evs)
        judge(plan, sim, evs, start, res, lf, nb, per)
        if res.status == 'ok':
            break
        ck = last_ckpt(sim.scratch)
        if ck:
            s = torch.load(ck, map_location='cpu')['meta']
            start = s['epoch'] if ep else s['iter']
            sim.probe('resumed')
        else:
            start = 0
    sim.log('end', cfg['kind'], start)


def judge(plan, sim, evs, start, res, lf, nb, per):
    cfg = plan['cfg']
    ep = cfg['kind'] == 'epoch'
    its = [e for e in evs if e[0] == 'it']
    if res.status == 'error':
        if lf and lf[0] == 'read' and 'Input/output' in (res.exc or ''):
            sim.fired('read-error')
            sim.probe('read-error')
        else:
            sim.violate('stops', f'training stopped with {res.exc} after '
                        f'{len(its)} iterations\n{res.tb[-600:]}')
    # iteration numbering continues from the checkpoint
    first = start * per if ep else start
    want = first
    pos = 0
    epoch = start
    seen = [set(), set()]
    passes = 0
    last_ann = None
    vals = 0
    for e in evs:
        if e[0] == 'epoch':
            if ep:
                due = epoch + (pos == per)
                sim.check(e[1] == due, 'epoch-number',
                          f'epoch {e[1]} runs where {due} is due')
            continue
        if e[0] == 'val':
            vals += 1
            continue
        _, it, bidx, a, b, training, ann, same = e
        sim.check(it == want, 'iteration-number',
                  f'iteration {it} where {want} is due')
        sim.check(a is not None and b is not None, 'not-paired',
                  'a step did not get one batch of every loader')
        sim.check(training, 'eval-mode', f'iteration {it} not in train mode')
        sim.check(same, 'hooks-see-other-batch',
                  'hooks got another batch than the model')
        if pos == per:
            pos = 0
            seen = [set(), set()]
            passes += 1
            sim.probe('restart')
            if ep:
                epoch += 1
        if ep and pos == 0 and bidx != 0 or ep and bidx != pos:
            sim.violate('batch-index', f'batch_idx {bidx} at position {pos}')
        for k, (x, key) in enumerate(((a, 'main'), (b, 'arch'))):
            l = cfg[key]
            sim.check(len(x) <= l['b'], 'batch-size', f'{x}')
            if l['s'] == 'inf':
                continue
            dup = [i for i in x if i in seen[k]]
            sim.check(not dup, 'batch-repeated',
                      lambda: f'{key} loader: samples {dup} again at '
                      f'position {pos} of pass {passes}')
            seen[k].update(x)
            full = l['b'] if (pos + 1) * l['b'] <= l['n'] else \
                l['n'] - pos * l['b']
            sim.check(len(x) == full, 'batch-size',
                      lambda: f'{key} loader: {len(x)} samples at position '
                      f'{pos}, not {full}')
            # announced epochs
            if l['s'] in ('shuffle', 'order'):
                n = passes + (1 if ep else 0)
                sim.check(len(ann[k]) >= n, 'epoch-not-announced',
                          lambda: f'{key} loader is in pass {passes}, its '
                          f'sampler was told epochs {ann[k]}')
                sim.check(len(set(ann[k])) == len(ann[k]) and
                          ann[k] == sorted(ann[k]), 'epoch-not-announced',
                          lambda: f'{key} sampler told epochs {ann[k]}')
                if ep:
                    sim.check(ann[k][-1] == epoch, 'epoch-not-announced',
                              lambda: f'{key} sampler told {ann[k]} in '
                              f'epoch {epoch}')
                if ann[k]:
                    sim.probe('announced')
                    ref = order(l, ann[k][-1])
                    w = ref[pos * l['b']:pos * l['b'] + l['b']]
                    sim.check(list(x) == w, 'wrong-order',
                              lambda: f'{key} loader: {list(x)} at position '
                              f'{pos}, epoch {ann[k][-1]} has {w}')
        sim.state(cfg['kind'], passes, pos, nb['main'], nb['arch'])
        pos += 1
        want += 1
    if res.status == 'ok':
        total = cfg['max'] * per if ep else cfg['max']
        total = max(total, first)
        sim.check(want == total, 'iterations-missing',
                  f'{want - first} iterations after {first}, {total} in all '
                  'are configured')
        sim.check(res.value['iter'] == total, 'iteration-number',
                  f'{res.value} at the end')
        if cfg['val']:
            if ep:
                exp = sum(1 for e in range(start + 1, cfg['max'] + 1)
                          if e >= cfg['vb'] and (e % cfg['vi'] == 0 or
                                                 e == cfg['max']))
            else:
                exp = sum(1 for e in range(start + 1, cfg['max'] + 1)
                          if e >= cfg['vb'] and e % cfg['vi'] == 0)
            sim.check(vals == exp, 'validations',
                      f'{vals} validations, {exp} are configured')


def order(l, epoch):
    ds = ListData(l['n'], seed=1, shape=(1, ))
    s = DefaultSampler(ds, shuffle=l['s'] == 'shuffle', seed=l['seed'])
    s.set_epoch(epoch)
    return list(s)
