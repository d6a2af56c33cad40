"""C21: bilevel updates touch only their own parameters."""
import copy

import torch
import torch.nn.functional as F
from mmengine.logging import MessageHub
from mmengine.optim import OptimWrapper, OptimWrapperDict

from simkit.sim import tdigest
from .diff import build_darts, build_dsnas, gen_diff, simplify_diff
from .worlds import batch

ID = 'C21'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 300, 20000
MIN_STEPS = 3
RULE = ('A run trains a generated differentiable supernet with Darts '
        '(first order or unrolled, with or without gradient accumulation) '
        'or DSNAS for several steps, each level on a batch of its own. '
        'Forward or backward passes fail at chosen points of a step. Every '
        'optimizer step is observed; both parameter sets are compared after '
        'every step with a reference that computes each gradient separately '
        'from its own batch (for the unrolled step at virtually updated '
        'copies of the weights).')
STATE_MEASURE = 'digest of all parameters per step'
COMPONENTS = dict(
    real='Darts.train_step, Darts._unrolled_backward, DSNAS.train_step, '
    'compute_mutator_loss, handle_grads, DiffMutableOP, OneHotMutableOP, '
    'DiffChoiceRoute, GumbelChoiceRoute, NasMutator, OptimWrapperDict',
    stub='network, data, failing passes')
ASSUMPTIONS = ['one process (several ranks are C23)',
               'the weights are trained with SGD when the step is unrolled',
               'the numbers of unrolled steps through Gumbel sampling are '
               'not compared with the reference']
MUST_REACH = ['darts', 'unrolled', 'accumulate', 'failed-forward',
              'failed-backward', 'dsnas-search', 'dsnas-pretrain',
              'dsnas-finetune', 'flops-loss', 'gumbel', 'route', 'momentum']


def gen(rng, i, tier):
    big = tier != 'quick'
    dsnas = rng.chance(0.35)
    net = gen_diff(rng, dsnas, 3 if not big else 5)
    cfg = dict(algo='dsnas' if dsnas else 'darts', net=net,
               unroll=not dsnas and rng.chance(0.5),
               acc=2 if not dsnas and rng.chance(0.2) else 1,
               lr=rng.choice([0.05, 0.2]), mom=rng.choice([0., 0.9]),
               wd=rng.choice([0., 1e-2]), alr=rng.choice([0.1, 1.]),
               adam=rng.chance(0.3), flops=rng.choice([0, 1e9]),
               norm=rng.chance(0.2), wseed=rng.seed32())
    if cfg['unroll']:
        cfg['acc'] = 1
        cfg['adam'] = False
    ops = []
    ep = 0
    for _ in range(rng.randint(2, 5 if not big else 12)):
        f = None
        if cfg['acc'] == 1 and rng.chance(0.25):
            f = [rng.choice(['fwd', 'bwd']), rng.randint(1, 5)]
        ops.append(['step', rng.seed32(), f])
        if dsnas and rng.chance(0.4):
            ep += 1
            ops.append(['epoch', ep])
    cfg['pre'] = rng.choice([0, 0, 1])
    cfg['fin'] = cfg['pre'] + rng.randint(1, 3)
    return dict(cfg=cfg, ops=ops, seed=rng.seed32())


def simplify(plan):
    cfg = plan['cfg']
    for n in simplify_diff(cfg['net']):
        yield dict(plan, cfg=dict(cfg, net=n))
    for k, v in (('mom', 0.), ('wd', 0.), ('norm', False), ('adam', False),
                 ('acc', 1), ('flops', 1e9)):
        if cfg[k] != v:
            yield dict(plan, cfg=dict(cfg, **{k: v}))


def opts(cfg, algo):
    w = torch.optim.SGD(algo.architecture.parameters(), lr=cfg['lr'],
                        momentum=cfg['mom'], weight_decay=cfg['wd'])
    if cfg['adam']:
        a = torch.optim.Adam(algo.mutator.parameters(), lr=cfg['alr'] / 10,
                             weight_decay=cfg['wd'])
    else:
        a = torch.optim.SGD(algo.mutator.parameters(), lr=cfg['alr'],
                            momentum=cfg['mom'], weight_decay=cfg['wd'])
    return w, a


class Twin:
    """The same model, updated by gradients computed one at a time."""

    def __init__(self, cfg, algo, wopt, aopt, names):
        self.cfg = cfg
        self.a = copy.deepcopy(algo)
        self.a.architecture.fail_at = None
        self.w, self.al = opts(cfg, self.a)
        self.W = list(self.a.architecture.parameters())
        self.A = list(self.a.mutator.parameters())
        for mine, theirs, ps in ((self.w, wopt, names[0]),
                                 (self.al, aopt, names[1])):
            own = dict(self.a.architecture.named_parameters())
            own.update(self.a.mutator.named_parameters(prefix='mut'))
            for n, p in ps.items():
                if n in own and p in theirs.state:
                    mine.state[own[n]] = copy.deepcopy(theirs.state[p])
        self.names = names

    def snap(self, which, old):
        """Values in the order of the names, kept where none is left."""
        own = dict(self.a.architecture.named_parameters())
        own.update(self.a.mutator.named_parameters(prefix='mut'))
        return [own[n].detach().clone() if n in own else o
                for n, o in zip(self.names[which], old)]

    def loss(self, data):
        return self.a(data['inputs'], data['data_samples'],
                      mode='loss')['loss']

    def grads(self, loss, ps):
        return list(torch.autograd.grad(loss, ps, allow_unused=True)) \
            if loss.requires_grad else [None] * len(ps)

    def step(self, opt, ps, gs):
        for p, g in zip(ps, gs):
            p.grad = g
        opt.step()
        for p in ps:
            p.grad = None

    def unrolled(self, mdata, sdata):
        cfg, W, A = self.cfg, self.W, self.A
        w0 = [w.detach().clone() for w in W]
        g = self.grads(self.loss(sdata), W)
        with torch.no_grad():
            for w, d in zip(W, g):
                if d is None:
                    continue
                m = self.w.state[w].get('momentum_buffer')
                m = 0. if m is None else m
                w.copy_(w - cfg['lr'] * (cfg['mom'] * m + d + cfg['wd'] * w))
        both = self.grads(self.loss(mdata), W + A)
        dw, da = both[:len(W)], both[len(W):]
        norm = torch.cat([d.reshape(-1) for d in dw if d is not None]).norm()
        eps = 0.01 / norm
        sides = []
        for s in (1, -1):
            with torch.no_grad():
                for w, v, d in zip(W, w0, dw):
                    w.copy_(v if d is None else v + s * eps * d)
            sides.append(self.grads(self.loss(sdata), A))
        with torch.no_grad():
            for w, v in zip(W, w0):
                w.copy_(v)
        out = []
        for d, p, n in zip(da, *sides):
            if d is None or p is None or n is None:
                out.append(d)
            else:
                out.append(d - cfg['lr'] * (p - n) / (2 * eps))
        return out


def sdig(ps):
    return tdigest(torch.cat([p.reshape(-1).double() for p in ps]))


def snap(ps):
    return [p.detach().clone() for p in ps]


def same(x, y):
    return all(torch.equal(a, b) or (a.isnan() == b.isnan()).all()
               and torch.equal(a.nan_to_num(), b.nan_to_num())
               for a, b in zip(x, y))


def close(x, y, tol):
    return all(torch.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
               for a, b in zip(x, y))


def run(plan, sim):
    cfg = plan['cfg']
    torch.manual_seed(plan['seed'] % 2**31)
    dsnas = cfg['algo'] == 'dsnas'
    net = cfg['net']
    hub = MessageHub.get_instance(f'c21-{plan["seed"]}')
    hub.update_info('epoch', 0)
    hub.update_info('iter', 0)
    if dsnas:
        algo = build_dsnas(net, cfg['wseed'], cfg['flops'], cfg['pre'],
                           cfg['fin'])
        tol = 1e-3
    else:
        algo = build_darts(net, cfg['wseed'], cfg['unroll'],
                           cfg['norm']).double()
        tol = 1e-6
        if any('route' in b for b in net['blocks']):
            sim.probe('route')
    if cfg['mom']:
        sim.probe('momentum')
    gumbel = any(b.get('gumbel') for b in net['blocks'])
    algo.train()
    names = (dict(algo.architecture.named_parameters()),
             dict(algo.mutator.named_parameters(prefix='mut')))
    W, A = list(names[0].values()), list(names[1].values())
    wopt, aopt = opts(cfg, algo)
    ow = OptimWrapperDict(
        architecture=OptimWrapper(wopt, accumulative_counts=cfg['acc']),
        mutator=OptimWrapper(aopt, accumulative_counts=cfg['acc']))
    order = []
    for name, o, own, other in (('arch', aopt, A, W), ('weight', wopt, W, A)):
        def stepped(*a, _f=o.step, _n=name, _other=other, **k):
            order.append((_n, snap(_other)))
            return _f(*a, **k)
        o.step = stepped
    acc_g = ([None] * len(A), [None] * len(W))
    acc_n = 0
    epoch = 0
    for op in plan['ops']:
        if op[0] == 'epoch':
            epoch = op[1]
            hub.update_info('epoch', epoch)
            continue
        _, seed, fault = op
        b1 = batch(seed, 3, 6, net['classes'])
        b2 = batch(seed + 1, 3, 6, net['classes'])
        if not dsnas:
            for b in (b1, b2):
                b['inputs'] = b['inputs'].double()
        w0, a0 = snap(W), snap(A)
        del order[:]
        twin = Twin(cfg, algo, wopt, aopt, names)
        arch = algo.architecture
        arch.calls = 0
        if fault:
            arch.fail_at, arch.fail_bwd = fault[1], fault[0] == 'bwd'
        torch.manual_seed(seed % 2**31)
        failed = False
        try:
            algo.train_step([b1, b2] if not dsnas else b1, ow)
        except RuntimeError as e:
            if 'injected' not in str(e):
                raise
            failed = True
            sim.fired('failing ' + ('backward' if arch.fail_bwd else
                                    'forward'))
            sim.probe('failed-backward' if arch.fail_bwd
                      else 'failed-forward')
        arch.fail_at = None
        w1, a1 = snap(W), snap(A)
        # what each level should have become
        torch.manual_seed(seed % 2**31)
        numbers = True
        if dsnas:
            phase = 'pretrain' if epoch < cfg['pre'] else 'search' \
                if epoch < cfg['fin'] else 'finetune'
            sim.probe('dsnas-' + phase)
            if phase == 'finetune':
                # the derived network has its own reference in C20
                t = twin.a
                hub.update_info('epoch', epoch)
                if t.is_supernet:
                    t._fix_archtecture()
            loss = twin.loss(b1)
            # those that one option dominates are fixed from now on
            blocks = [(k, b) for k, b in enumerate(
                twin.a.architecture.blocks) if not b.is_fixed]
            if phase != 'search':
                blocks = []
            zs = [b.arch_weights for _, b in blocks]
            g = twin.grads(loss, twin.W + zs)
            gw, gz = g[:len(twin.W)], g[len(twin.W):]
            twin.step(twin.w, twin.W, gw)
            exp_w = twin.snap(0, w0)
            if phase == 'search':
                total = 0.
                res = algo.mutable_module_resources
                for (k, b), z in zip(blocks, zs):
                    p = F.softmax(twin.A[k], -1)
                    total = total + torch.log((z * p).sum())
                    if cfg['flops'] == 0:
                        sim.probe('flops-loss')
                        j = int(z.argmax())
                        total = total + 1e-2 * p[j] * res[
                            f'blocks.{k}._candidates.{b.choices[j]}']['flops']
                if blocks:
                    # the sampled operations are rewarded with what both
                    # losses ask of their weights
                    g = twin.grads(total, twin.A + zs)
                    ga, gt = g[:len(twin.A)], g[len(twin.A):]
                    for (k, _), d, t in zip(blocks, gz, gt):
                        ga[k] = ga[k] * (d.sum() + t.sum())
                    twin.step(twin.al, twin.A, ga)
                else:
                    sim.probe('all-fixed')
            exp_a = twin.snap(1, a0)
            want = ['weight'] + ['arch'] * bool(blocks)
        else:
            sim.probe('darts')
            acc_n += 1
            upd = acc_n % cfg['acc'] == 0
            if cfg['acc'] > 1:
                sim.probe('accumulate')
            if gumbel:
                sim.probe('gumbel')
            if cfg['unroll']:
                sim.probe('unrolled')
                numbers = not gumbel
                ga = twin.unrolled(b2, b1)
            else:
                ga = twin.grads(twin.loss(b2) / cfg['acc'], twin.A)
            ga = add(acc_g[0], ga)
            if upd:
                twin.step(twin.al, twin.A, ga)
            exp_a = twin.snap(1, a0)
            if failed and same(a1, a0):
                pass
            gw = add(acc_g[1],
                     twin.grads(twin.loss(b1) / cfg['acc'], twin.W))
            if upd:
                twin.step(twin.w, twin.W, gw)
            exp_w = twin.snap(0, w0)
            acc_g = ([None] * len(A), [None] * len(W)) if upd else (ga, gw)
            want = ['arch', 'weight'] if upd else []
        taken = [n for n, _ in order]
        sim.log('step', taken, failed, sdig(w1 + a1))
        sim.state(sdig(w1 + a1))
        # strict alternation, each optimizer changing only its own
        sim.check(taken == want[:len(taken)] if failed else taken == want, 'alternate',
                  f'optimizer steps {taken}, expected {want}')
        for n, before in order:
            # what the other set was when this optimizer stepped
            ref = {'arch': (w0, w1), 'weight': (a0, a1)}[n]
            sim.check(same(before, ref[0]) or same(before, ref[1]), 'displaced',
                      f'the {n} step saw the other parameters displaced')
        if not (dsnas and want[0] == 'weight'):
            for n, before in order:
                if n == 'arch':
                    sim.check(same(before, w0), 'isolated', 'the architecture step '
                              'changed network weights')
        if failed:
            if 'weight' not in taken:
                sim.check(same(w1, w0), 'failed-step', 'a failed step changed the weights')
            if 'arch' not in taken:
                sim.check(same(a1, a0), 'failed-step', 'a failed step changed the '
                          'architecture parameters')
            for o in ow.values():
                o.zero_grad()
        if numbers and (not failed or 'arch' in taken):
            sim.check(close(a1, exp_a, tol), 'arch-gradient', lambda: 'architecture parameters '
                      'did not move by the gradient of their own batch: '
                      f'{diff(a1, exp_a)}')
        if numbers and (not failed or 'weight' in taken):
            sim.check(close(w1, exp_w, tol), 'weight-gradient', lambda: 'weights did not move '
                      f'by the gradient of their own batch: '
                      f'{diff(w1, exp_w)}')
        if any(not x.isfinite().all() for x in w1 + a1):
            break
    for _ in range(MIN_STEPS):
        sim.log('end', sdig(snap(W) + snap(A)))


def add(old, new):
    return [n if o is None else o if n is None else o + n
            for o, n in zip(old, new)]


def diff(x, y):
    return max(float((a - b).abs().max()) for a, b in zip(x, y) if a.numel())
