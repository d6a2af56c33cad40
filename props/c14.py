"""C14: Fisher pruning removes one channel at a time and ranks agree."""
import copy
import glob
import os

import torch
import torch.nn as nn
import torch.nn.functional as F
from mmengine.hooks import Hook
from mmengine.logging import MessageHub
from mmengine.optim import OptimWrapper

from mmrazor.implementations.pruning.group_fisher import \
    GroupFisherAlgorithm
from mmrazor.implementations.pruning.group_fisher.algorithm import \
    GroupFisherDDP
from mmrazor.implementations.pruning.group_fisher.hook import (
    PruningStructureHook, ResourceInfoHook)
from mmrazor.models.task_modules.demo_inputs import DefaultDemoInput
from simkit.ddp import wrap
from simkit.ranks import SimRanks
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import PARSE, CnnArch, _cbr, gen_cnn, seeded_init, simplify_cnn

ID = 'C14'
LEVEL = 'exploration'
QUICK, THOROUGH = 130, 12000
MIN_STEPS = 3
RUN_TIMEOUT = 240
RULE = ('A run prunes a generated network (plain, residual, depthwise, '
        'concatenated and shared convolutions) with Group Fisher: on one rank '
        'or on 2-3 simulated ranks whose real DDP wrappers reduce gradients '
        'over a seeded schedule, with steps that fail part-way, evaluations '
        'in between and save/reload at arbitrary iterations; or under the '
        'real Runner with ResourceInfoHook, dying at hook points and '
        'resuming. The removed channel is compared with importances computed '
        'independently from the inputs and their gradients.')
STATE_MEASURE = 'digest of (kind, iteration, channels kept per unit)'
COMPONENTS = dict(
    real='GroupFisherAlgorithm, GroupFisherDDP with the PyTorch reducer, '
    'GroupFisherChannelMutator, GroupFisherChannelUnit, GroupFisherConv2d/'
    'Linear, ResourceInfoHook, ResourceEstimator, OptimWrapper, mmengine '
    'Runner',
    stub='network, data, collectives between ranks, failing operator, '
    'moment of death')
ASSUMPTIONS = ['checkpoint files are written by mmengine, which is assumed '
               'to write them completely',
               'collectives deliver the sum over all ranks or fail on all']
MUST_REACH = ['steps', 'ranks', 'runner', 'pruned', 'failed-step', 'reload',
              'eval', 'cat', 'shared', 'threshold', 'two-thresholds',
              'resumed', 'uneven-ranks', 'large']


class Arch(CnnArch):
    """CnnArch with a convolution that is used twice."""

    def __init__(self, cfg):
        c2 = dict(cfg, layers=[l for l in cfg['layers'] if l['k'] != 'sh'])
        super().__init__(c2)
        self.cfg = cfg
        c = self.head.in_features
        self.shared = nn.ModuleList()
        for l in cfg['layers']:
            if l['k'] == 'sh':
                self.shared.append(_cbr(c, l['c'], cfg.get('bn', True)))
                c = l['c']
        self.last = nn.Conv2d(c, 3, 3, padding=1)
        self.head = nn.Linear(3, cfg.get('classes', 3))

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.stem(inputs)
        for l in self.layers:
            x = l(x)
        for s in self.shared:
            x = s(x) + s(x.flip(3))
        x = self.last(x)
        y = self.head(x.mean((2, 3)))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y * self.scale(), data_samples))
        return y

    def scale(self):
        return self.cfg.get('scale', 1.0)


def gen(rng, i, tier):
    big = tier != 'quick'
    kind = rng.weighted([(5, 'steps'), (4, 'ranks'), (3, 'runner')])
    kinds = ('conv', 'res', 'dw', 'cat', 'sh')
    arch = gen_cnn(rng, 3 if big else 2, kinds=kinds, bn=rng.chance(0.6),
                   cs=(2, 3, 4, 6))
    if kind != 'runner' and rng.chance(0.2):
        arch['scale'] = rng.choice([0.01, 50.0])
    n = rng.randint(4, 14 if not big else 40)
    cfg = dict(kind=kind, arch=arch, n=n, interval=rng.choice([1, 1, 2, 3, 4]),
               norm=rng.choice(['flops', 'act', 'none']),
               wseed=rng.seed32(), b=rng.randint(1, 3), lr=0.05,
               accum=rng.weighted([(4, 1), (1, 2)]))
    ev = []
    if kind != 'runner':
        for _ in range(rng.randint(0, 3)):
            ev.append([rng.randint(0, n - 1), rng.weighted([
                (3, 'fail'), (2, 'reload'), (2, 'eval')]),
                rng.randint(0, 9), rng.choice(['fwd', 'bwd'])])
        if kind == 'ranks':
            # a rank that fails alone is a dead job; all ranks fail alike
            cfg['world'] = rng.choice([2, 2, 3])
            cfg['sizes'] = [rng.choice([4, 6, 8])] * 3 if rng.chance(0.5) \
                else [rng.choice([4, 6, 8]) for _ in range(3)]
            cfg['bs'] = [cfg['b']] * 3 if rng.chance(0.5) else \
                [rng.randint(1, 3) for _ in range(3)]
    else:
        cfg['hi'] = rng.choice([1, 1, 2, 3])
        cfg['thr'] = sorted({rng.choice([0.99, 0.95, 0.9, 0.85, 0.8, 0.75,
                                         0.7, 0.6, 0.5, 0.4])
                             for _ in range(rng.randint(1, 3))})
        cfg['early'] = rng.chance(0.4)
        cfg['rtype'] = 'flops'
        cfg['cks'] = rng.choice([1, 2, 3])
        cfg['ep'] = rng.chance(0.4)
        for _ in range(rng.weighted([(1, 0), (3, 1), (2, 2)])):
            ev.append([rng.choice(['before_train_iter', 'after_train_iter']),
                       rng.randint(1, n)])
    return dict(cfg=cfg, ev=ev, seed=rng.seed32(),
                sched=[rng.randint(0, 5) for _ in range(
                    40 if kind == 'ranks' else 0)])


def simplify(plan):
    c = plan['cfg']
    for a in simplify_cnn(c['arch']):
        yield dict(plan, cfg=dict(c, arch=a))
    if c['n'] > 2:
        yield dict(plan, cfg=dict(c, n=c['n'] // 2))
    for k, v in (('accum', 1), ('b', 1), ('interval', 1)):
        if c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))


def build(cfg):
    a = GroupFisherAlgorithm(
        Arch(copy.deepcopy(cfg['arch'])),
        mutator=dict(type='GroupFisherChannelMutator',
                     channel_unit_cfg=dict(
                         type='GroupFisherChannelUnit',
                         default_args=dict(normalization_type=cfg['norm'])),
                     parse_cfg=copy.deepcopy(PARSE)),
        interval=cfg['interval'])
    seeded_init(a.architecture, cfg['wseed'])
    a.init_weights = lambda: None
    return a


def masks(a):
    return {u.name: u.mutable_channel.current_mask.tolist()
            for u in a.mutator.mutable_units}


# -------------------------------------------------- independent importances
class Ref:
    """Sees the input of every layer and the gradient this layer returns."""

    def __init__(self, a):
        self.a = a
        self.mods = {}
        for u in a.mutator.mutable_units:
            for c in list(u.input_related) + list(u.output_related):
                m = c.module
                if isinstance(m, (nn.Conv2d, nn.Linear)):
                    self.mods[id(m)] = m
        self.on = False
        self.rec = {}
        self.hs = []
        for m in self.mods.values():
            self.hs.append(m.register_forward_pre_hook(self.pre))
            self.hs.append(m.register_forward_hook(self.post))

    def pre(self, m, inp):
        if not self.on:
            return
        x = inp[0].clone()
        if x.requires_grad:
            x.retain_grad()
        self.rec.setdefault(id(m), []).append([x, None])
        return (x, ) + tuple(inp[1:])

    def post(self, m, inp, out):
        if self.on:
            self.rec[id(m)][-1][1] = tuple(out.shape)

    def begin(self):
        self.rec = {}
        self.on = True

    def end(self):
        self.on = False

    @torch.no_grad()
    def importance(self, norm):
        """Per unit: (sum over samples of squared fisher, normaliser)."""
        res = {}
        for u in self.a.mutator.mutable_units:
            tot = 0
            for c in u.input_related:
                m = c.module
                if id(m) not in self.mods:
                    continue
                s = 0
                for x, _ in self.rec[id(m)]:
                    f = (x * x.grad).double()
                    f = f.flatten(2).sum(2) if f.dim() == 4 else f
                    s = s + f
                act = m.mutable_attrs['in_channels'].current_mask
                pos = act.cumsum(0) - 1
                full = torch.zeros(s.shape[0], u.num_channels).double()
                for k, j in enumerate(range(c.start, c.end)):
                    if act[j]:
                        full[:, k % u.num_channels] += s[:, pos[j]]
                tot = tot + full
            delta = 0
            for c in u.output_related:
                m = c.module
                if id(m) in self.mods:
                    delta = delta + self.delta(m, 'out', norm)
            if norm == 'flops':
                for c in u.input_related:
                    m = c.module
                    if id(m) in self.mods:
                        delta = delta + self.delta(m, 'in', norm)
            unit = dict(flops=1e9, act=1e6, none=1)[norm]
            if norm == 'none':
                delta = 1
            res[u.name] = (tot**2).sum(0) / (float(delta) / unit)
        return res

    def delta(self, m, side, norm):
        d = 0
        for x, out in self.rec[id(m)]:
            h, w = out[2:]
            if norm == 'act':
                d += h * w
            elif m.groups > 1:
                d += h * w * m.kernel_size[0] * m.kernel_size[1]
            else:
                d += h * w * m.kernel_size[0] * m.kernel_size[1] * \
                    (x.shape[1] if side == 'out' else out[1])
        return d


class Boom(Exception):
    pass


class Fail:
    """The k-th operator call of a step fails, forwards or backwards."""

    def __init__(self, ref, k, where):
        self.k, self.where = k, where
        self.ms = list(ref.mods.values())
        self.hs = []

    def __enter__(self):
        m = self.ms[self.k % len(self.ms)]
        if self.where == 'fwd':
            def f(mod, inp, out):
                raise Boom()
            self.hs.append(m.register_forward_hook(f))
        else:
            def g(mod, inp, out):
                if out.requires_grad:
                    def e(gr):
                        raise Boom()
                    out.register_hook(e)
            self.hs.append(m.register_forward_hook(g))

    def __exit__(self, *a):
        for h in self.hs:
            h.remove()


def drive(plan, sim, r, S):
    """What rank r does; returns its record of every iteration."""
    cfg = plan['cfg']
    hub = MessageHub.get_instance(f'rank{r}-{plan["seed"]}')
    a = plan['_models'][r]

    def setup(a):
        m = wrap(GroupFisherDDP, a, S) if S else a
        ow = OptimWrapper(torch.optim.SGD(a.parameters(), lr=cfg['lr'],
                                          momentum=0.9),
                          accumulative_counts=cfg['accum'])
        ref = Ref(a)
        a.train()
        return m, ow, ref
    m, ow, ref = setup(a)
    ow.initialize_count_status(a, 0, cfg['n'])
    out = [dict(it=-1, masks=masks(a))]
    for it in range(cfg['n']):
        hub.update_info('iter', it)
        hub.update_info('epoch', 0)
        g = torch.Generator().manual_seed(plan['seed'] % 1000 + 17 * it +
                                          1000 * r)
        sz = cfg['sizes'][(r + it * (r + 1)) % 3] if S else 6
        bs = cfg['bs'][r] if S else cfg['b']
        data = dict(inputs=torch.randn((bs, 3, sz, sz), generator=g),
                    data_samples=torch.randint(
                        0, cfg['arch']['classes'], (bs, ), generator=g))
        rec = dict(it=it, imp=None, failed=False)
        evs = [e for e in plan['ev'] if e[0] == it]
        for e in evs:
            if e[1] == 'eval':
                a.eval()
                with torch.no_grad():
                    a(data['inputs'], mode='tensor')
                a.train()
                if r == 0:
                    sim.probe('eval')
            elif e[1] == 'reload' and not rec.get('reload'):
                rec['reload'] = True
                sd, od = copy.deepcopy(a.state_dict()), copy.deepcopy(
                    ow.state_dict())
                a = plan['_spares'][r].pop()
                a.load_state_dict(sd)
                m, ow, ref = setup(a)
                ow.load_state_dict(od)
                ow.initialize_count_status(a, it, cfg['n'])
                if r == 0:
                    sim.probe('reload')
        f = [e for e in evs if e[1] == 'fail']
        ref.begin()
        try:
            if f:
                with Fail(ref, f[0][2], f[0][3]):
                    m.train_step(data, ow)
            else:
                m.train_step(data, ow)
        except Boom:
            rec['failed'] = True
            # the rest of the job carries on, as loops that skip
            # out-of-memory batches do
            ow.zero_grad()
            if r == 0:
                sim.fired('step-fails')
                sim.probe('failed-step')
        ref.end()
        if not rec['failed']:
            ms = masks(a)
            # importances refer to the structure before the removal
            prev = out[-1]['masks']
            rec['imp'] = _with(a, prev, lambda: ref.importance(cfg['norm']))
        rec['masks'] = masks(a)
        if S:
            rec['w'] = sum(float(p.double().abs().sum())
                           for p in a.architecture.parameters())
        out.append(rec)
    return out


def _with(a, ms, f):
    """Evaluate f under the masks of before."""
    now = {}
    for u in a.mutator.mutable_units:
        now[u.name] = u.mutable_channel.mask.clone()
        u.mutable_channel.mask.copy_(torch.tensor(ms[u.name]).float())
    r = f()
    for u in a.mutator.mutable_units:
        u.mutable_channel.mask.copy_(now[u.name])
    return r


def run(plan, sim):
    cfg = plan['cfg']
    sim.probe(cfg['kind'])
    for l in cfg['arch']['layers']:
        if l['k'] == 'cat':
            sim.probe('cat')
        if l['k'] == 'sh':
            sim.probe('shared')
    torch.manual_seed(0)
    if cfg['kind'] == 'runner':
        return run_runner(plan, sim)
    w = cfg.get('world', 1)
    k = sum(1 for e in plan['ev'] if e[1] == 'reload')
    plan = dict(plan)
    plan['_models'] = [build(cfg) for _ in range(w)]
    plan['_spares'] = [[build(cfg) for _ in range(k)] for _ in range(w)]
    if not len(plan['_models'][0].mutator.mutable_units):
        for _ in range(3):
            sim.log('skip', 'nothing prunable')
        return
    if cfg['kind'] == 'ranks':
        if any(e[1] == 'fail' for e in plan['ev']):
            plan['ev'] = [e for e in plan['ev'] if e[1] != 'fail']
        S = SimRanks(sim, w, sched=plan['sched'])
        res = S.run(lambda r: drive(plan, sim, r, S))
        for r in res:
            if r.state != 'done':
                sim.violate('stops', f'rank {r.i}: {r.exc}\n'
                            f'{getattr(r, "tb", "")[-800:]}')
        recs = [r.result for r in res]
        if len(set(cfg['sizes'])) > 1:
            sim.probe('uneven-ranks')
    else:
        try:
            recs = [drive(plan, sim, 0, None)]
        except Exception as e:
            import traceback
            sim.violate('stops', f'{type(e).__name__}: {e}\n'
                        f'{traceback.format_exc()[-800:]}')
    judge(plan, sim, recs)


def judge(plan, sim, recs):
    cfg = plan['cfg']
    acc = {}
    prev = recs[0][0]['masks']
    for i in range(1, len(recs[0])):
        rr = [r[i] for r in recs]
        it = rr[0]['it']
        cur = rr[0]['masks']
        for k, o in enumerate(rr[1:], 1):
            sim.check(o['masks'] == cur, 'ranks-differ',
                      lambda: f'iteration {it}: ranks 0 and {k} keep other '
                      'channels')
            d = abs(o['w'] - rr[0]['w'])
            sim.check(not d > 1e-5 * abs(rr[0]['w']) + 1e-6, 'weights-differ',
                      lambda: f'iteration {it}: weights of ranks 0 and {k} '
                      f'differ by {d}')
        kept = {n: sum(m) for n, m in cur.items()}
        sim.log('it', it, sorted(kept.items()), rr[0]['failed'])
        sim.state(cfg['kind'], it, sorted(kept.items()))
        gone = []
        for n in cur:
            for j, (p, q) in enumerate(zip(prev[n], cur[n])):
                sim.check(p or not q, 'revived',
                          lambda: f'iteration {it}: channel {j} of {n} came '
                          'back')
                if p and not q:
                    gone.append((n, j))
            sim.check(kept[n] >= 1, 'emptied',
                      lambda: f'iteration {it}: {n} has no channel left')
        if rr[0]['failed']:
            sim.check(not gone, 'pruned-in-failed-step',
                      lambda: f'iteration {it}: {gone}')
            prev = cur
            continue
        for o in rr:
            for n, v in o['imp'].items():
                acc[n] = acc.get(n, 0) + v
        if it % cfg['interval']:
            sim.check(not gone, 'off-schedule',
                      lambda: f'iteration {it}: {gone} removed, interval '
                      f'{cfg["interval"]}')
            prev = cur
            continue
        cand = {n: acc[n][torch.tensor(prev[n])] for n in prev
                if sum(prev[n]) > 1}
        bad = any((~torch.isfinite(acc[n])).any() for n in prev)
        if bad:
            sim.probe('not-finite')
        elif cand:
            sim.check(len(gone) == 1, 'not-one',
                      lambda: f'iteration {it}: removed {gone}, kept before '
                      f'{ {n: sum(m) for n, m in prev.items()} }, '
                      'importances ' + repr(
                          {n: v.tolist() for n, v in cand.items()}))
            n, j = gone[0]
            lo = min(float(v.min()) for v in cand.values())
            if lo > 1e5:
                sim.probe('large')
            v = float(acc[n][j])
            top = max(float(x.max()) for x in cand.values())
            sim.check(v <= lo * 1.001 + 1e-7 * top + 1e-30, 'not-lowest',
                      lambda: f'iteration {it}: channel {j} of {n} with '
                      f'importance {v} removed, the lowest is {lo}: ' + repr(
                          {n: x.tolist() for n, x in acc.items()}))
            sim.probe('pruned')
        else:
            sim.check(not gone, 'emptied', lambda: f'{gone}')
        acc = {}
        prev = cur


# ------------------------------------------------------- under the Runner
class Rec(Hook):
    priority = 'ABOVE_NORMAL'

    def __init__(self, a, hook, sim, d):
        self.a, self.h, self.sim, self.d = a, hook, sim, d

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        p = self.h._evaluate(self.a)[self.h.resource_type]
        ok = all(bool(torch.isfinite(p).all())
                 for p in self.a.architecture.parameters())
        self.sim.obs.append(['it', runner.iter, masks(self.a), float(p), ok])


def life(plan, sim, lf, first):
    cfg = plan['cfg']
    a = build(cfg)
    h = ResourceInfoHook(DefaultDemoInput([1, 3, 64, 64]), interval=cfg['hi'],
                         resource_type=cfg['rtype'],
                         save_ckpt_thr=list(cfg['thr']),
                         early_stop=cfg['early'])
    sim.obs.append(['start', float(h._evaluate(a)[cfg['rtype']]), masks(a),
                    {u.name: i for i, u in enumerate(a.mutator.units)}])
    old = a._run_forward
    a._run_forward = lambda d, mode='loss': old(
        {k: v for k, v in d.items() if k != 'idx'}, mode)
    ds = ListData(2 * cfg['b'], seed=1, shape=(3, 6, 6))
    hooks = [Rec(a, h, sim, sim.scratch), h,
             PruningStructureHook(by_epoch=False, interval=2)]
    if lf:
        sim.arm('crash')
        hooks.append(Die(lf[0], lf[1], sim))
    n = cfg['n']
    tc = dict(by_epoch=True, max_epochs=(n + 1) // 2) if cfg['ep'] else \
        dict(by_epoch=False, max_iters=n)
    r = runner(sim.scratch, a, tc, loader(ds, cfg['b']),
               optim=dict(optimizer=dict(type='SGD', lr=cfg['lr'])),
               hooks=hooks, ckpt=dict(interval=cfg['cks'],
                                      by_epoch=cfg['ep']), resume=not first)
    try:
        r.train()
    except SystemExit:
        return 'exit'
    return 'end'


def thr_files(d, rtype):
    res = {}
    for f in glob.glob(os.path.join(d, f'{rtype}_*.pth')):
        sd = torch.load(f, map_location='cpu')['state_dict']
        res[os.path.basename(f)] = sum(
            float(v.double().abs().sum()) for k, v in sorted(sd.items())), {
                k: v.bool().tolist() for k, v in sd.items()
                if k.startswith('mutator.') and k.endswith('mask')}
    return res


def run_runner(plan, sim):
    cfg = plan['cfg']
    its = {}
    files = {}
    start = 0
    for k, lf in enumerate(list(plan['ev']) + [None]):
        del sim.obs[:]
        first = not last_ckpt(sim.scratch)
        res = sim.process(life, plan, sim, lf, first)
        evs = list(sim.obs)
        sim.log('life', lf, res.status, res.value,
                [[e[1], {n: sum(m) for n, m in e[2].items()}, e[3]]
                 for e in evs if e[0] == 'it'])
        if res.status == 'error':
            sim.violate('stops', f'training stopped: {res.exc}\n'
                        f'{res.tb[-700:]}')
        base = evs[0][1]
        prev = None
        want = start
        for _, it, ms, p, finite in evs[1:]:
            sim.check(it == want, 'iteration', f'{it} not {want}')
            want += 1
            if it in its:
                sim.check(its[it][0] == ms, 'resume-differs',
                          lambda: f'iteration {it}: resumed at {start}, '
                          'other channels are kept than before the crash')
            its[it] = (ms, p)
            before = its[it - 1][0] if it else evs[0][2]
            lost = [(n, j) for n in ms
                    for j, (x, y) in enumerate(zip(before[n], ms[n]))
                    if x and not y]
            back = [(n, j) for n in ms
                    for j, (x, y) in enumerate(zip(before[n], ms[n]))
                    if y and not x]
            sim.check(not back, 'revived', f'iteration {it}: {back}')
            can = any(sum(m) > 1 for m in before.values())
            w = 1 if can and it % cfg['interval'] == 0 else 0
            sim.check(len(lost) == w or not finite, 'not-one',
                      lambda: f'iteration {it}: removed {lost}')
            if lost:
                sim.probe('pruned')
            sim.state('runner', it, [(n, sum(m)) for n, m in ms.items()])
        # threshold files: state of the first check below the threshold
        have = thr_files(sim.scratch, cfg['rtype'])
        last = max(its) if its else -1
        if res.status == 'crash' and last in its and lf and \
                lf[0] == 'before_train_iter':
            pass
        due = {}
        for it in sorted(its):
            if it > want - 1 or it % cfg['hi']:
                continue
            pc = its[it][1] / base
            for t in cfg['thr']:
                if pc < t and t not in due:
                    due[t] = it
        names = {f'{cfg["rtype"]}_{t:.2f}.pth': t for t in due}
        if len(set(due.values())) < len(due):
            sim.probe('two-thresholds')
        for f, t in names.items():
            sim.probe('threshold')
            sim.check(f in have, 'threshold-missing',
                      lambda: f'{f} not written; iteration {due[t]} was the '
                      f'first below (now at {want - 1})')
            ms = its[due[t]][0]
            got = {n: have[f][1][f'mutator.units.{evs[0][3][n]}.'
                                 'mutable_channel.mask'] for n in ms}
            sim.check(got == {n: [bool(x) for x in m] for n, m in ms.items()},
                      'threshold-model',
                      lambda: f'{f} holds widths '
                      f'{ {n: sum(m) for n, m in got.items()} }, the first '
                      f'model below had '
                      f'{ {n: sum(m) for n, m in ms.items()} } (iteration '
                      f'{due[t]}, resumed at {start})')
            if f in files:
                sim.check(have[f][0] == files[f], 'threshold-overwritten',
                          lambda: f'{f} was rewritten with another model '
                          f'after resuming at {start}')
            files[f] = have[f][0]
        for f in have:
            sim.check(f in names, 'threshold-early',
                      lambda: f'{f} written, no check was below')
        if res.status == 'ok':
            if res.value == 'exit':
                sim.check(cfg['early'] and len(due) == len(cfg['thr']),
                          'stops-early', 'training exited before every '
                          'threshold was reached')
            break
        ck = last_ckpt(sim.scratch)
        start = 0
        if ck:
            start = torch.load(ck, map_location='cpu')['meta']['iter']
            sim.probe('resumed')
    sim.log('end', start)
