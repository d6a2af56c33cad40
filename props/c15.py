"""C15: quantization phases switch on schedule, learned scales are kept."""
import copy
import glob
import math
import os

import torch
import torch.nn.functional as F
from mmengine.evaluator import BaseMetric, Evaluator
from mmengine.hooks import Hook
from torch.ao.quantization import FakeQuantizeBase
from torch.ao.quantization.observer import ObserverBase
from torch.utils.data import DataLoader

import mmrazor.engine  # noqa
from simkit.sim import tdigest
from .quant import build, gen_arch, gen_q, simplify_arch
from .rr import Die, ListData, last_ckpt, runner

ID = 'C15'
LEVEL = 'exploration'
QUICK, THOROUGH = 60, 6000
MIN_STEPS = 3
RUN_TIMEOUT = 240
RULE = ('A run quantises a generated network with a shipped quantizer and '
        'runs QATEpochBasedLoop, LSQEpochBasedLoop or PTQLoop (with '
        'QATValLoop) under the real Runner with a generated schedule, over '
        'several process lives: the process dies at a runner hook point and '
        'training resumes from the last checkpoint. Every call of an '
        'observer or fake quantizer is observed and compared with the '
        'configured phase; an uninterrupted twin is compared iteration by '
        'iteration.')
STATE_MEASURE = 'digest of (loop, phase flags, iteration, scales)'
COMPONENTS = dict(
    real='MMArchitectureQuant, native/OpenVINO/TensorRT quantizers, '
    'CustomTracer, observers, fake quantizers, the three quantization loops, '
    'QATValLoop, mmengine Runner and CheckpointHook',
    stub='network, dataset, metric, moment of death')
ASSUMPTIONS = ['checkpoint files are written by mmengine, which is assumed '
               'to write them completely',
               'one process; the loss synchronisation over ranks is C23']
MUST_REACH = ['qat', 'lsq', 'ptq', 'observers-off', 'bn-frozen', 'resumed',
              'resumed-after-freeze', 'validated', 'lsq-resumed',
              'short-calibration', 'long-calibration', 'histogram',
              'only-val']


def gen(rng, i, tier):
    big = tier != 'quick'
    kind = rng.weighted([(3, 'qat'), (3, 'lsq'), (2, 'ptq')])
    q = gen_q(rng, kind == 'lsq')
    if kind == 'ptq' and rng.chance(0.25):
        q['a_obs'] = 'hist'
    elif kind == 'ptq' and rng.chance(0.15):
        q['lsq'] = True
    n = rng.randint(1, 3)
    ep = rng.randint(1, 4 if not big else 6)
    cfg = dict(kind=kind, q=q, arch=gen_arch(rng, 2 if not big else 3),
               n=n, b=rng.choice([1, 2, 3]), epochs=ep, wseed=rng.seed32(),
               vn=rng.randint(1, 3), val_begin=rng.randint(1, 2),
               val_interval=rng.randint(1, 2),
               dob=rng.choice([-1, -1, 1, 2, 3]),
               fbb=rng.choice([-1, -1, 1, 2, 3]),
               mom=rng.chance(0.4), wd=rng.chance(0.2),
               cks=rng.choice([1, 1, 2]),
               steps=rng.choice([0, 1, 2, 3, 5]),
               only=kind == 'ptq' and rng.chance(0.15))
    lives = []
    if kind != 'ptq':
        for _ in range(rng.weighted([(1, 0), (3, 1), (2, 2)])):
            lives.append([rng.choice(
                ['before_train_iter', 'after_train_iter', 'before_val_iter',
                 'after_val_epoch', 'before_train_epoch',
                 'after_train_epoch']), rng.randint(0, ep * n)])
    return dict(cfg=cfg, lives=lives, seed=rng.seed32())


def simplify(plan):
    c = plan['cfg']
    for a in simplify_arch(c['arch']):
        yield dict(plan, cfg=dict(c, arch=a))
    for k, v in (('wd', False), ('mom', False), ('b', 1), ('dob', -1),
                 ('fbb', -1), ('cks', 1), ('n', 1), ('vn', 1)):
        if c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))
    if c['epochs'] > 1:
        yield dict(plan, cfg=dict(c, epochs=c['epochs'] - 1))


def collate(items):
    return dict(inputs=torch.stack([b['inputs'] for b in items]),
                data_samples=torch.stack([b['data_samples'] for b in items]))


def fqs(g):
    return {n: m for n, m in g.named_modules()
            if isinstance(m, FakeQuantizeBase)}


FLAGS = ('observer_enabled', 'fake_quant_enabled', 'static_enabled',
         'learning_enabled')


def qstate(m):
    """Quantization parameters and statistics of one fake quantizer."""
    return {k: v.detach().clone() for k, v in m.state_dict().items()
            if k not in FLAGS}


def whole(model):
    return {k: v.detach().clone() for k, v in model.state_dict().items()
            if k.split('.')[-1] not in FLAGS}


def bns(g):
    return {n: m for n, m in g.named_modules()
            if hasattr(m, 'freeze_bn') and hasattr(m, 'bn')}


def differ(a, b):
    return [k for k in a if k not in b or a[k].shape != b[k].shape or
            not torch.equal(a[k], b[k])]


class Sum(BaseMetric):
    """Sum of the first probability over everything processed."""

    def __init__(self):
        super().__init__()
        self.count = 0

    def process(self, data_batch, data_samples):
        for p in data_samples:
            self.results.append(float(p[0]))

    def compute_metrics(self, results):
        return dict(sum=math.fsum(results), n=len(results))


class Watch(Hook):
    """Follows one life; priority above the checkpoint hook's."""
    priority = 'ABOVE_NORMAL'

    def __init__(self, sim, cfg, model, held, valdata):
        self.sim, self.cfg, self.model = sim, cfg, model
        self.loss = model.qmodels['loss']
        self.calls = {}
        self.phase = None
        self.prev = held            # scales after the last iteration
        self.valdata = valdata
        self.err = {}
        for mode in model.forward_modes:
            for n, f in fqs(model.qmodels[mode]).items():
                f.register_forward_hook(self.fq_hook(mode, n))
                f.activation_post_process.register_forward_pre_hook(
                    self.obs_hook(mode, n, f))
        self.reset()

    def reset(self):
        self.calls = {m: dict(fq={}, obs={}, want={}, x={})
                      for m in self.model.forward_modes}

    def fq_hook(self, mode, n):
        def f(m, inp, out):
            c = self.calls[mode]
            c['fq'][n] = c['fq'].get(n, 0) + 1
            with torch.no_grad():
                s, z = m.scale.detach(), m.zero_point.detach().float()
                if s.numel() > 1:
                    ax = m.ch_axis
                    shp = [1] * out.dim()
                    shp[ax] = -1
                    s, z = s.reshape(shp), z.reshape(shp)
                k = out.detach() / s + z
                tol = 1e-3 * (1 + k.abs())
                bad = ((k - k.round()).abs() > tol) | \
                    (k > m.quant_max + 0.01) | (k < m.quant_min - 0.01)
                self.sim.check(
                    not bool(bad.any()), 'not-fake-quantised',
                    lambda: f'{self.phase}: the output of {mode}.{n} is not '
                    'on its quantisation grid')
                if self.phase == 'train' and self.cfg['kind'] == 'lsq' and \
                        mode == 'loss' and self.prev is not None:
                    want = self.prev[n].clamp(min=m.eps.item())
                    self.sim.check(
                        m.scale.shape == want.shape and
                        torch.equal(m.scale.detach(), want), 'scale-changed',
                        lambda: f'scale of {n} was {want.tolist()} after the '
                        f'last step, is {m.scale.tolist()}')
        return f

    def obs_hook(self, mode, n, fq):
        def f(m, inp):
            c = self.calls[mode]
            c['obs'][n] = c['obs'].get(n, 0) + 1
            x = inp[0].detach()
            c['x'].setdefault(n, []).append(
                (float(x.min()), float(x.max())))
            if self.cfg['q']['lsq']:
                ax = getattr(m, 'ch_axis', None)
                y = x.abs().mean() if ax is None else \
                    x.abs().transpose(0, ax).flatten(1).mean(1)
                c['want'][n] = 2 * y / math.sqrt(fq.quant_max)
        return f

    # -- training
    def before_train(self, r):
        opt = r.optim_wrapper.optimizer
        step = opt.step

        def f(*a, **k):
            self.grads = {n: None if m.scale.grad is None else
                          m.scale.grad.clone()
                          for n, m in fqs(self.loss).items()
                          if isinstance(m.scale, torch.nn.Parameter)}
            return step(*a, **k)
        opt.step = f

    def before_train_epoch(self, r):
        self.phase = 'between'

    def before_train_iter(self, r, batch_idx, data_batch=None):
        self.phase = 'train'
        self.reset()
        self.q0 = {n: qstate(m) for n, m in fqs(self.loss).items()}
        self.b0 = {n: {k: v.clone() for k, v in m.bn.state_dict().items()}
                   for n, m in bns(self.loss).items()}
        for n, p in self.loss.named_parameters():
            p.grad = None

    def after_train_iter(self, r, batch_idx, data_batch=None, outputs=None):
        cfg, sim = self.cfg, self.sim
        self.phase = 'between'
        e, it = r.epoch + 1, r.iter
        c = self.calls['loss']
        F_ = fqs(self.loss)
        for m in self.model.forward_modes:
            if m != 'loss':
                sim.check(not self.calls[m]['fq'], 'other-graph',
                          f'training ran graph {m}')
        sim.check(len(c['fq']) == len(F_), 'fake-quant-idle',
                  lambda: f'{sorted(set(F_) - set(c["fq"]))} did not run')
        if cfg['kind'] == 'qat':
            on = not (cfg['dob'] > 0 and e >= cfg['dob'])
        else:
            on = it == 0
        if on:
            sim.check(set(c['obs']) == set(c['fq']), 'observer-idle',
                      lambda: f'epoch {e} iteration {it}: observers of '
                      f'{sorted(set(c["fq"]) - set(c["obs"]))[:3]} did not '
                      'see the data')
        else:
            if cfg['kind'] == 'qat':
                sim.probe('observers-off')
            sim.check(not c['obs'], 'observer-active',
                      lambda: f'epoch {e} iteration {it}: observers of '
                      f'{sorted(c["obs"])[:3]} updated')
        q1 = {n: qstate(m) for n, m in F_.items()}
        if cfg['kind'] == 'qat' and not on:
            for n in q1:
                d = differ(self.q0[n], q1[n])
                sim.check(not d, 'qparams-move', lambda:
                          f'epoch {e}: {d} of {n} changed after the '
                          'observers were switched off')
        if cfg['kind'] == 'lsq':
            self.lsq(r, c, F_, q1, it)
        frozen = cfg['fbb'] > 0 and e >= cfg['fbb']
        for n, m in bns(self.loss).items():
            b1 = m.bn.state_dict()
            d = differ(self.b0[n], b1)
            d = [k for k in d if k not in ('weight', 'bias')]
            if frozen:
                sim.probe('bn-frozen')
                sim.check(not d, 'bn-moves', lambda: f'epoch {e}: {d} of '
                          f'{n} changed, frozen from epoch {cfg["fbb"]}')
            else:
                sim.check('num_batches_tracked' in d, 'bn-stands',
                          lambda: f'epoch {e}: statistics of {n} not '
                          'updated')
        self.prev = {n: m.scale.detach().clone() for n, m in F_.items()}
        sim.obs.append(['it', e, it, self.digest()])
        sim.state(cfg['kind'], on, frozen, it,
                  [tdigest(v) for v in self.prev.values()])

    def lsq(self, r, c, F_, q1, it):
        cfg, sim = self.cfg, self.sim
        lr = 0.05
        for n, m in F_.items():
            s0, s1 = self.q0[n]['scale'], m.scale.detach()
            if it == 0:
                w = c['want'][n].reshape(-1)
                sim.check(
                    s1.shape == w.shape and
                    torch.allclose(s1, w, rtol=1e-4, atol=1e-9),
                    'scale-init', lambda: f'{n}: initialised to '
                    f'{s1.tolist()}, the data give {w.tolist()}')
            else:
                g = self.grads[n]
                sim.check(g is not None, 'scale-not-learned',
                          lambda: f'iteration {it}: {n} has no gradient')
                if not cfg['mom'] and not cfg['wd']:
                    w = s0.clamp(min=m.eps.item()) - lr * g
                    sim.check(torch.allclose(s1, w, rtol=1e-5, atol=1e-9),
                              'scale-step', lambda: f'iteration {it}: {n} '
                              f'is {s1.tolist()}, not {w.tolist()}')

    def digest(self):
        sd = self.loss.state_dict()
        return tdigest(torch.cat(
            [v.double().reshape(-1) for k, v in sorted(sd.items())
             if k.split('.')[-1] not in FLAGS] + [torch.zeros(1).double()]))

    def after_train_epoch(self, r):
        """Runs before the checkpoint hook."""
        self.phase = 'between'
        src = {n: qstate(m) for n, m in fqs(self.loss).items()}
        for m in self.model.forward_modes:
            for n, f in fqs(self.model.qmodels[m]).items():
                if n not in src:
                    continue
                d = differ(src[n], qstate(f))
                self.sim.check(not d, 'graphs-differ', lambda:
                               f'after epoch {r.epoch + 1} {d} of {n} '
                               f'differ between loss and {m}')
        self.sim.obs.append(['ep', r.epoch + 1, {
            n: v.tolist() for n, v in (self.prev or {}).items()}])

    # -- validation
    def before_val(self, r):
        self.sim.probe('validated')
        self.phase = 'val'
        self.w0 = whole(self.model)
        self.expect = self.oracle()
        self.passes = 0

    def before_val_epoch(self, r):
        self.phase = 'val'
        self.reset()

    def oracle(self):
        """Sums the metric must report: the quantised network (through the
        graph that is not used by the loop) and the float one."""
        m = copy.deepcopy(self.model).eval()
        for x in m.modules():
            x._forward_hooks.clear()
            x._forward_pre_hooks.clear()
            if isinstance(x, FakeQuantizeBase):
                for k in FLAGS:
                    if hasattr(x, k):
                        getattr(x, k)[0] = int(k == 'fake_quant_enabled')
        for b in bns(m).values():
            b.bn.training = False
        qs, fs = [], []
        g = m.qmodels['tensor']
        if self.cfg['kind'] == 'ptq':
            g = m.qmodels['predict']
        with torch.no_grad():
            for b in DataLoader(self.valdata, self.cfg['b'],
                                collate_fn=collate):
                if self.cfg['kind'] == 'ptq':
                    y = torch.stack(g(b['inputs'], None, 'predict'))
                else:
                    y = F.softmax(g(b['inputs'], None, 'tensor'), 1)
                qs += y[:, 0].tolist()
                y = F.softmax(m.architecture(b['inputs']), 1)
                fs += y[:, 0].tolist()
        return dict(qat=math.fsum(qs), original=math.fsum(fs),
                    n=len(self.valdata))

    def after_val_epoch(self, r, metrics=None):
        sim = self.sim
        self.phase = 'between'
        which = ('qat', 'original')[self.passes] if self.passes < 2 else '?'
        self.passes += 1
        sim.check(set(metrics) == {which + '.sum', which + '.n'},
                  'val-metrics', f'pass {self.passes}: {sorted(metrics)}')
        sim.check(metrics[which + '.n'] == len(self.valdata), 'val-samples',
                  f'{which}: {metrics[which + ".n"]} samples of '
                  f'{len(self.valdata)}')
        w = self.expect[which]
        sim.check(abs(metrics[which + '.sum'] - w) < 1e-4, 'val-network',
                  f'{which} metric {metrics[which + ".sum"]}, the network '
                  f'gives {w}')
        ran = sum(len(c['fq']) for c in self.calls.values())
        sim.check((ran > 0) == (which == 'qat'), 'val-graph',
                  f'{which} validation ran {ran} fake quantizers')
        for m, c in self.calls.items():
            sim.check(not c['obs'], 'val-observes', lambda:
                      f'observers of {sorted(c["obs"])[:3]} in validation')
        sim.log('val', which, round(w, 4))

    def after_val(self, r):
        self.sim.check(self.passes == 2, 'val-passes', f'{self.passes}')
        w1 = whole(self.model)
        for w in (self.w0, w1):
            # every forward pass keeps learned scales above eps
            for k in w:
                if k.endswith('.scale') and self.cfg['q']['lsq']:
                    w[k] = w[k].clamp(min=torch.finfo(torch.float32).eps)
        d = differ(self.w0, w1)
        self.sim.check(not d, 'val-changes', lambda:
                       f'validation changed {d[:4]}')

    # -- calibration
    def before_test_iter(self, r, batch_idx, data_batch=None):
        self.phase = 'calib'
        self.sim.obs.append(['cal', batch_idx, tdigest(
            data_batch['inputs'])])

    def after_test_iter(self, r, batch_idx, data_batch=None, outputs=None):
        self.phase = 'between'


def nets(cfg, sim, work, held):
    q = dict(cfg['q'])
    hist = q['a_obs'] == 'hist'
    if hist:
        q['a_obs'] = 'mm'
    import props.quant as Q
    old = Q.qconfig
    if hist:
        def qc(qq):
            d = old(qq)
            d['a_observer'] = dict(type='mmrazor.HistogramObserver')
            return d
        Q.qconfig = qc
    torch.manual_seed(cfg['wseed'] % 1000)
    model = build(cfg['arch'], q, cfg['wseed'])
    Q.qconfig = old
    model.init_weights = lambda: None
    vd = ListData(cfg['vn'] * cfg['b'] - (cfg['b'] > 1), seed=5,
                  shape=(3, 6, 6), classes=cfg['arch']['classes'])
    w = Watch(sim, cfg, model, held, vd)
    return model, vd, w


def valkw(cfg, vd):
    return dict(val_dataloader=DataLoader(vd, cfg['b'], collate_fn=collate),
                val_cfg=dict(type='QATValLoop'),
                val_evaluator=Evaluator([Sum()]))


def life(plan, sim, lf, work, held):
    cfg = plan['cfg']
    if held is not None:
        held = {n: torch.tensor(v) for n, v in held.items()}
    model, vd, w = nets(cfg, sim, work, held)
    hooks = [w]
    if lf:
        sim.arm('crash')
        hooks.append(Die(lf[0], lf[1], sim))
    ds = ListData(cfg['n'] * cfg['b'], seed=1, shape=(3, 6, 6),
                  classes=cfg['arch']['classes'])
    tc = dict(type='QATEpochBasedLoop', disable_observer_begin=cfg['dob']) \
        if cfg['kind'] == 'qat' else dict(type='LSQEpochBasedLoop')
    tc.update(max_epochs=cfg['epochs'], val_begin=cfg['val_begin'],
              val_interval=cfg['val_interval'], freeze_bn_begin=cfg['fbb'])
    r = runner(work, model, tc,
               DataLoader(ds, cfg['b'], collate_fn=collate),
               optim=dict(optimizer=dict(
                   type='SGD', lr=0.05, momentum=0.9 if cfg['mom'] else 0.,
                   weight_decay=0.05 if cfg['wd'] else 0.)),
               hooks=hooks, ckpt=dict(interval=cfg['cks'], by_epoch=True),
               resume=bool(last_ckpt(work)), val=valkw(cfg, vd))
    r.train()
    return r.epoch


def run(plan, sim):
    cfg = plan['cfg']
    sim.probe(cfg['kind'])
    if cfg['kind'] == 'ptq':
        return ptq(plan, sim)
    # uninterrupted
    work = os.path.join(sim.scratch, 'twin')
    del sim.obs[:]
    res = sim.process(life, plan, sim, None, work, None)
    if res.status == 'error':
        sim.violate('stops', f'training stopped: {res.exc}\n{res.tb[-900:]}')
    twin = {(e[1], e[2]): e[3] for e in sim.obs if e[0] == 'it'}
    sim.log('twin', [[list(k), v] for k, v in twin.items()])
    sim.check(len(twin) == cfg['epochs'] * cfg['n'], 'iterations',
              f'{sorted(twin)}')
    if not plan['lives']:
        sim.log('no crash')
        sim.log('end')
        return
    work = os.path.join(sim.scratch, 'work')
    held = {}
    for lf in list(plan['lives']) + [None]:
        ck = last_ckpt(work) if os.path.isdir(work) else None
        start, h = 0, None
        if ck:
            start = torch.load(ck, map_location='cpu')['meta']['epoch']
            h = held.get(start)
            sim.probe('resumed')
            if cfg['kind'] == 'lsq':
                sim.probe('lsq-resumed')
            if 0 < cfg['fbb'] <= start:
                sim.probe('resumed-after-freeze')
            if cfg['kind'] == 'qat':
                h = None
        del sim.obs[:]
        res = sim.process(life, plan, sim, lf, work, h)
        sim.log('life', lf, start, res.status)
        if res.status == 'error':
            sim.violate('stops', f'training resumed after epoch {start} '
                        f'stopped: {res.exc}\n{res.tb[-900:]}')
        its = [e for e in sim.obs if e[0] == 'it']
        for j, e in enumerate(its):
            sim.check(e[2] == start * cfg['n'] + j, 'resume-position',
                      f'iteration {e[2]} after resuming epoch {start}')
            sim.check(twin.get((e[1], e[2])) == e[3], 'resume-differs',
                      f'epoch {e[1]} iteration {e[2]} of a run resumed '
                      f'after epoch {start} differs from the uninterrupted '
                      'run')
        for e in sim.obs:
            if e[0] == 'ep':
                held[e[1]] = e[2]
        if res.status == 'ok':
            sim.check(res.value == cfg['epochs'], 'epochs', f'{res.value}')
            break
    sim.log('end', res.status)


def calib(plan, sim, work):
    cfg = plan['cfg']
    model, vd, w = nets(cfg, sim, work, None)
    nb = cfg['n']
    ds = ListData(nb * cfg['b'], seed=9, shape=(3, 6, 6))
    test = dict(
        test_dataloader=DataLoader(vd, cfg['b'], collate_fn=collate),
        test_evaluator=Evaluator([Sum()]),
        test_cfg=dict(type='PTQLoop', calibrate_dataloader=DataLoader(
            ds, cfg['b'], collate_fn=collate),
            calibrate_steps=cfg['steps'], only_val=cfg['only']))
    # (saving a checkpoint asks for the training data's meta information)
    r = runner(work, model, dict(by_epoch=True, max_epochs=1),
               DataLoader(ds, cfg['b'], collate_fn=collate), hooks=[w], val=valkw(cfg, vd),
               test=test)
    w0 = {k: v for k, v in whole(model.architecture).items()}
    q0 = {n: qstate(f) for n, f in fqs(model.qmodels['predict']).items()}
    for n, s in q0.items():
        mn = s.get('activation_post_process.min_val')
        sim.check(mn is None or mn.numel() == 0 or
                  bool(torch.isinf(mn).all()), 'dirty-observer', lambda:
                  f'{n} holds statistics before any data: {mn.tolist()}')
        h = s.get('activation_post_process.histogram')
        sim.check(h is None or float(h.sum()) == 0, 'dirty-observer',
                  lambda: f'{n} holds a histogram before any data')
    seen = {}
    keep = Watch.after_test_iter

    def after(self, r, batch_idx, data_batch=None, outputs=None):
        keep(self, r, batch_idx, data_batch, outputs)
        for m, c in self.calls.items():
            for n, v in c['x'].items():
                seen.setdefault((m, n), []).extend(v)
            for n in c['fq']:
                sim.check(n in c['obs'], 'observer-idle',
                          f'calibration: {m}.{n}')
            c['x'].clear()
    w.after_test_iter = after.__get__(w)
    metrics = r.test()
    cal = [e for e in sim.obs if e[0] == 'cal']
    want = 0 if cfg['only'] else min(cfg['steps'], nb)
    sim.check(len(cal) == want, 'calibration-batches',
              f'{len(cal)} batches, configured {cfg["steps"]} of {nb}')
    for j, e in enumerate(cal):
        x = torch.stack([ds.x[k] for k in range(j * cfg['b'],
                                                (j + 1) * cfg['b'])])
        sim.check(e[2] == tdigest(x), 'calibration-order', f'batch {j}')
    d = differ(w0, whole(model.architecture))
    sim.check(not d, 'calibration-changes', lambda: f'{d[:4]}')
    a_ma = cfg['q']['a_obs'] == 'ma' and not cfg['q']['lsq']
    for n, f in fqs(model.qmodels['predict']).items():
        v = seen.get(('predict', n), [])
        # (an observer can serve several places of the graph)
        sim.check(len(v) >= want and (not want or len(v) % want == 0),
                  'observations', lambda:
                  f'{n} saw {len(v)} inputs in {want} batches')
        o = f.activation_post_process
        if not v or not hasattr(o, 'min_val') or o.min_val.numel() != 1:
            continue
        act = 'activation_post_process' in n
        if act and cfg['q']['a_obs'] == 'hist':
            tot = float(o.histogram.sum())
            sim.check(abs(float(o.min_val) - min(x for x, _ in v)) <=
                      1e-4 + 0.05 * abs(float(o.min_val)) or
                      len(v) > 1, 'statistics', lambda: f'{n} min')
            sim.check(tot > 0, 'statistics', f'{n}: empty histogram')
            continue
        mn, mx = v[0]
        for a, b in v[1:]:
            if act and a_ma:
                mn, mx = mn + 0.1 * (a - mn), mx + 0.1 * (b - mx)
            else:
                mn, mx = min(mn, a), max(mx, b)
        sim.check(abs(float(o.min_val) - mn) < 1e-4 and
                  abs(float(o.max_val) - mx) < 1e-4, 'statistics',
                  lambda: f'{n}: [{float(o.min_val)}, {float(o.max_val)}], '
                  f'the calibration batches give [{mn}, {mx}]')
    sim.check(w.passes == 2, 'val-passes', f'{w.passes}')
    e = w.expect
    sim.check(metrics.get('qat.sum') is not None and
              abs(metrics['qat.sum'] - e['qat']) < 1e-4, 'ptq-result',
              f'test() reports {metrics}, the quantised network gives '
              f'{e["qat"]}')
    fs = glob.glob(os.path.join(work, '*', 'model_ptq.pth'))
    sim.check(len(fs) == (not cfg['only']), 'ptq-file', f'{fs}')
    if fs:
        sd = torch.load(fs[0], map_location='cpu')['state_dict']
        d = differ(whole(model), sd)
        sim.check(not d, 'ptq-file-content', lambda: f'{d[:4]}')
        # and what another process makes of it
        m2, _, w2 = nets(cfg, sim, work, None)
        m2.load_state_dict(sd)
        w2.valdata = vd
        e2 = w2.oracle()
        sim.check(abs(e2['qat'] - e['qat']) < 1e-4, 'ptq-reload',
                  f'{e2} not {e}')
    return [want, round(e['qat'], 3)]


def ptq(plan, sim):
    cfg = plan['cfg']
    if cfg['q']['a_obs'] == 'hist':
        sim.probe('histogram')
    if cfg['only']:
        sim.probe('only-val')
    sim.probe('short-calibration' if cfg['steps'] < cfg['n']
              else 'long-calibration')
    res = sim.process(calib, plan, sim, os.path.join(sim.scratch, 'ptq'))
    if res.status == 'error':
        sim.violate('stops', f'calibration stopped: {res.exc}\n'
                    f'{res.tb[-900:]}')
    sim.log('ptq', res.value)
    sim.log('end')


import mmrazor.engine.runner.quantization_loops as _ql  # noqa

_ql.print_log = lambda *a, **k: None
