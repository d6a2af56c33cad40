"""C13: iterative pruning reaches its target on schedule, also when resumed."""
import copy
import os

import torch
from mmengine.hooks import Hook

from mmrazor.models.algorithms import DCFF, ItePruneAlgorithm
from mmrazor.structures import load_fix_subnet
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import PARSE, CnnArch, gen_cnn, seeded_init, simplify_cnn

ID = 'C13'
LEVEL = 'exploration'
QUICK, THOROUGH = 100, 9000
MIN_STEPS = 3
RUN_TIMEOUT = 240
RULE = ('A run trains ItePruneAlgorithm (sequential or L1 units) or DCFF on '
        'a generated network under the real Runner, epoch or iteration '
        'based, with arbitrary targets, intervals and number of prunings, '
        'over several process lives: the process dies at a runner hook point '
        'and training resumes from the last checkpoint. The channels kept '
        'in every iteration are compared with an independent schedule.')
STATE_MEASURE = 'digest of (algorithm, unit, iteration, kept channels)'
COMPONENTS = dict(
    real='ItePruneAlgorithm, DCFF, ItePruneConfigManager, ChannelMutator, '
    'channel units, dynamic ops, ItePruneValLoop, mmengine Runner, '
    'MessageHub, CheckpointHook',
    stub='network, dataset, evaluator, moment of death')
ASSUMPTIONS = ['checkpoint files are written by mmengine, which is assumed '
               'to write them completely']
MUST_REACH = ['seq', 'l1', 'dcff', 'epoch', 'iter', 'resumed',
              'resumed-mid-schedule', 'finished', 'exported', 'subset',
              'pre-pruned']


def gen(rng, i, tier):
    big = tier != 'quick'
    algo = rng.weighted([(3, 'seq'), (3, 'l1'), (3, 'dcff')])
    ep = rng.chance(0.6)
    kinds = ('conv', 'res', 'cat') + (('dw', ) if algo != 'dcff' else ())
    arch = gen_cnn(rng, 3 if big else 2, kinds=kinds, bn=True,
                   cs=(2, 5, 7, 10, 16, 24))
    per = rng.randint(1, 4)
    total = rng.randint(2, 8 if not big else 14)
    iters = per * total if ep else rng.randint(4, 16 if not big else 40)
    span = total if ep else iters
    freq = rng.randint(1, max(1, min(span - 1, 5)))
    times = rng.randint(1, 6)
    dc = None
    if algo == 'dcff':
        if rng.chance(0.5):
            dc, times = 'freq', 0
        else:
            dc, freq = 'times', 0
            times = rng.randint(1, max(1, min(6, iters - 1)))
    mode = rng.choice(['ratio', 'number'])
    cfg = dict(
        algo=algo, ep=ep, per=per, max=total if ep else iters, arch=arch,
        freq=freq, times=times, dc=dc, mode=mode,
        linear=rng.chance(0.75) if algo != 'dcff' else rng.chance(0.25),
        fr=[rng.choice([0.05, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.45, 0.5, 0.6,
                        2 / 3, 0.7, 0.75, 0.9, 0.99, 1.0])
            for _ in range(6)],
        subset=rng.chance(0.25), none=rng.chance(0.08),
        divisor=rng.weighted([(5, 1), (1, 2), (1, 3)]),
        pre=rng.choice([0.5, 0.7]) if rng.chance(0.15) else None,
        cks=rng.choice([1, 1, 1, 2]), val=rng.chance(0.5), b=2,
        wseed=rng.seed32(), wd=rng.chance(0.3), opt=rng.chance(0.5))
    if cfg['none']:
        # nothing to prune: widths are not rounded either
        cfg['divisor'] = 1
    lives = []
    for _ in range(rng.weighted([(1, 0), (4, 1), (2, 2)])):
        lives.append([rng.choice(['before_train_iter', 'after_train_iter',
                                  'after_train_epoch' if ep else
                                  'after_train_iter']),
                      rng.randint(0, iters)])
    return dict(cfg=cfg, lives=lives, seed=rng.seed32())


def simplify(plan):
    c = plan['cfg']
    for a in simplify_cnn(c['arch']):
        yield dict(plan, cfg=dict(c, arch=a))
    for k, v in (('wd', False), ('opt', False), ('val', False),
                 ('subset', False), ('divisor', 1), ('pre', None), ('b', 1)):
        if c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))


def build(cfg, names=None):
    """The algorithm with the target of every unit."""
    unit = dict(seq='SequentialMutableChannelUnit',
                l1='L1MutableChannelUnit', dcff='DCFFChannelUnit')[cfg['algo']]
    mut = dict(type='DCFFChannelMutator' if cfg['algo'] == 'dcff'
               else 'ChannelMutator',
               channel_unit_cfg=dict(
                   type=unit, default_args=dict(choice_mode=cfg['mode'],
                                                divisor=cfg['divisor'])),
               parse_cfg=copy.deepcopy(PARSE))
    cls = DCFF if cfg['algo'] == 'dcff' else ItePruneAlgorithm
    a = cls(CnnArch(copy.deepcopy(cfg['arch'])), mutator_cfg=mut,
            target_pruning_ratio=None, step_freq=cfg['freq'],
            prune_times=cfg['times'], linear_schedule=cfg['linear'])
    target = {}
    for j, u in enumerate(a.mutator.mutable_units):
        fr = cfg['fr'][j % len(cfg['fr'])]
        if cfg['subset'] and j % 2 == 1:
            continue
        if cfg['pre']:
            fr = min(fr, cfg['pre'])
        target[u.name] = max(1, int(u.num_channels * fr)) \
            if cfg['mode'] == 'number' else fr
    if not cfg['none']:
        a.target_pruning_ratio = dict(target)
    seeded_init(a.architecture, cfg['wseed'])
    a.init_weights = lambda: None
    return a, target


def counts(a):
    return {u.name: int(u.mutable_channel.current_mask.sum())
            for u in a.mutator.mutable_units}


def masks(a):
    return {u.name: u.mutable_channel.current_mask.tolist()
            for u in a.mutator.mutable_units}


class Rec(Hook):
    priority = 'VERY_LOW'

    def __init__(self, algo, sim):
        self.a, self.sim = algo, sim

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        self.sim.obs.append(['pre', runner.iter, masks(self.a)])

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        self.sim.obs.append(['it', runner.iter, masks(self.a)])

    def after_val(self, runner):
        with torch.enable_grad():
            self.sim.obs.append(['val', runner.iter, masks(self.a),
                                 exported(self.a, runner.work_dir)])

    def after_train(self, runner):
        self.sim.obs.append(['end', runner.iter, masks(self.a)])


class Eval:

    def __init__(self):
        self.dataset_meta = None

    def process(self, data_samples=None, data_batch=None):
        pass

    def evaluate(self, size):
        return {}


def exported(a, d):
    """What a user gets who loads the exported files into a new network."""
    f = os.path.join(d, 'fix_subnet.json')
    sd = torch.load(os.path.join(d, 'fix_subnet_weight.pth'),
                    map_location='cpu')['state_dict']
    net = CnnArch(copy.deepcopy(a.architecture.cfg))
    load_fix_subnet(net, f, load_subnet_mode='mutator')
    net.load_state_dict({k.split('architecture.', 1)[1]: v
                         for k, v in sd.items()
                         if k.startswith('architecture.') and
                         'mutable' not in k})
    net.eval()
    was = a.training
    a.eval()
    g = torch.Generator().manual_seed(7)
    x = torch.randn((2, 3, 6, 6), generator=g)
    with torch.no_grad():
        diff = float((net(x) - a.architecture(x)).abs().max())
    a.train(was)
    return diff


def life(plan, sim, lf, first):
    cfg = plan['cfg']
    a, target = build(cfg)
    if cfg['pre'] and first:
        # start from a model that is pruned already
        a.mutator.set_choices({
            u.name: max(1, int(u.num_channels * cfg['pre']))
            if cfg['mode'] == 'number' else cfg['pre']
            for u in a.mutator.mutable_units})
    units = {u.name: u.num_channels for u in a.mutator.mutable_units}
    sim.obs.append(['start', counts(a), units, target])
    ds = ListData(cfg['per'] * cfg['b'], seed=1, shape=(3, 6, 6))
    ep = cfg['ep']
    hooks = [Rec(a, sim)]
    if lf:
        sim.arm('crash')
        hooks.append(Die(lf[0], lf[1], sim))
    ld = loader(ds, cfg['b'])
    from mmengine.runner import Runner  # noqa

    def step(data, mode='loss'):
        data = {k: v for k, v in data.items() if k != 'idx'}
        return old(data, mode)
    old = a._run_forward
    a._run_forward = step
    tc = dict(by_epoch=True, max_epochs=cfg['max'], val_interval=1) if ep \
        else dict(by_epoch=False, max_iters=cfg['max'],
                  val_interval=cfg['per'])
    val = None
    if cfg['val']:
        val = dict(val_dataloader=loader(ds, cfg['b']),
                   val_cfg=dict(type='ItePruneValLoop'),
                   val_evaluator=__import__(
                       'mmengine.evaluator', fromlist=['Evaluator']
                   ).Evaluator([]))
        val['val_evaluator'].process = lambda *x, **k: None
        val['val_evaluator'].evaluate = lambda n: {}
    opt = dict(optimizer=dict(type='SGD', lr=0.2, momentum=0.9,
                              weight_decay=0.3 if cfg['wd'] else 0.))
    r = runner(sim.scratch, a, tc, ld, optim=opt, hooks=hooks,
               ckpt=dict(interval=cfg['cks'], by_epoch=ep,
                         save_optimizer=cfg['opt']),
               resume=not first, val=val)
    r.train()
    return dict(iter=r.iter)


def divisible(v, d, n):
    if v == n:
        return n
    w = max(d, int(v + d / 2) // d * d)
    if w < 0.9 * v:
        w += d
    return min(w, n)


def schedule(cfg):
    """interval in iterations and number of prunings."""
    iters = cfg['max'] * cfg['per'] if cfg['ep'] else cfg['max']
    f = cfg['freq'] * (cfg['per'] if cfg['by_epoch'] else 1)
    t = cfg['times']
    if cfg['dc'] == 'freq':
        t = iters // f
    elif cfg['dc'] == 'times':
        f = iters // t
    return f, t, iters


def run(plan, sim):
    cfg = dict(plan['cfg'])
    ep = cfg['ep']
    # training of one epoch counts as iteration based (see ItePrune)
    cfg['by_epoch'] = ep and cfg['max'] != 1
    f, t, iters = schedule(cfg)
    if cfg['dc'] == 'freq' and not 0 < f < iters:
        sim.log('skip', 'interval longer than training')
        sim.log('skip', f)
        sim.log('skip', iters)
        return
    sim.probe(cfg['algo'])
    sim.probe('epoch' if ep else 'iter')
    start = 0
    base = None
    held = {}
    for k, lf in enumerate(list(plan['lives']) + [None]):
        del sim.obs[:]
        res = sim.process(life, plan, sim, lf, not last_ckpt(sim.scratch))
        evs = list(sim.obs)
        sim.log('life', lf, res.status,
                [[e[0], e[1], {n: sum(m) for n, m in e[2].items()}]
                 for e in evs if e[0] != 'start'])
        if res.status == 'error':
            sim.violate('stops', f'training stopped: {res.exc}\n'
                        f'{res.tb[-700:]}')
        if base is None:
            base, units, target = evs[0][1:]
            if cfg['subset']:
                sim.probe('subset')
            if cfg['pre']:
                sim.probe('pre-pruned')
            if cfg['none']:
                target = {}
        judge(plan, cfg, sim, evs, start, base, units, target, f, t, iters,
              held, res)
        if res.status == 'ok':
            break
        ck = last_ckpt(sim.scratch)
        if ck:
            start = torch.load(ck, map_location='cpu')['meta']['iter']
            sim.probe('resumed')
            if 0 < start <= f * (t - 1):
                sim.probe('resumed-mid-schedule')
        else:
            start = 0
    sim.log('end', start)


def judge(plan, cfg, sim, evs, start, base, units, target, f, t, iters, held,
          res):
    want = start
    for e in evs:
        if e[0] == 'start':
            continue
        it = e[1]
        if e[0] == 'pre':
            sim.check(it == want, 'iteration-number', f'{it} not {want}')
            want += 1
            if it in held:
                pass
        # number of prunings that have happened
        done = min(t, it // f + 1)
        if e[0] in ('pre', 'val', 'end'):
            # iteration `it` has not run yet
            done = min(t, -(-it // f))
        got = {n: sum(m) for n, m in e[2].items()}
        for n in units:
            full, b = units[n], base[n]
            d = cfg['divisor']
            if n not in target or done == 0:
                lo = hi = b
            else:
                g = target[n] if cfg['mode'] == 'number' else \
                    target[n] * full
                if done == t or not cfg['linear']:
                    v = int(g + 1e-6) if cfg['mode'] == 'ratio' else g
                    lo = hi = divisible(max(1, v), d, full)
                else:
                    v = b + (g - b) * done / t
                    slack = 1 if cfg['mode'] == 'number' else 1.01
                    lo = divisible(max(1, int(v - slack + 1e-6)), d, full)
                    hi = divisible(max(1, int(v + 1e-6)), d, full)
                    if d == 1:
                        lo = max(lo, int(v + 1e-6) - 1)
            sim.check(lo <= got[n] <= hi, 'channels',
                      lambda: f'{e[0]} {it}: unit {n} of {full} channels '
                      f'keeps {got[n]}, schedule gives [{lo}, {hi}] '
                      f'(start {b}, target {target.get(n)}, pruning {done} '
                      f'of {t} every {f} iterations, resumed at {start})')
            # all lives agree
            key = (n, done)
            if key in held:
                sim.check(held[key] == got[n], 'channels-differ',
                          lambda: f'{e[0]} {it}: unit {n} keeps {got[n]} '
                          f'after pruning {done} of {t}, before resuming '
                          f'at {start} it kept {held[key]}')
            held[key] = got[n]
            if done and (n, done - 1) in held:
                sim.check(got[n] <= held[(n, done - 1)], 'grew-back',
                          lambda: f'{e[0]} {it}: unit {n} grew from '
                          f'{held[(n, done - 1)]} to {got[n]}')
            if done == t and n in target:
                sim.probe('finished')
            if e[0] == 'it':
                sim.state(cfg['algo'], n, it, got[n])
        # between scheduled iterations the kept channels stay the same
        if e[0] == 'it' and (it % f or it // f >= t) or \
                e[0] in ('pre', 'end', 'val'):
            if judge_last(held, it, e) is not None:
                sim.check(judge_last(held, it, e) == e[2], 'mask-changed',
                          lambda: f'{e[0]} {it}: kept channels changed '
                          'outside the schedule')
        held['mask'] = e[2]
        held['at'] = it
        if e[0] == 'val' and e[3] is not None:
            sim.probe('exported')
            sim.check(e[3] < 1e-4, 'export', f'val {it}: the exported '
                      f'subnet differs by {e[3]} from the trained model')
    held.pop('mask', None)
    if res.status == 'ok':
        sim.check(want == max(iters, start), 'iterations', f'{want}')


def judge_last(held, it, e):
    return held.get('mask')
