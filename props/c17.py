"""C17: one-shot compression sums all data and fails atomically."""
import contextlib
import copy

import torch
import torch.distributed as dist
import torch.nn as nn
import torch.nn.functional as F

from mmrazor.implementations.pruning.sparse_gpt import SparseGptCompressor
from mmrazor.implementations.pruning.sparse_gpt.ops import SparseGptMixIn
from mmrazor.implementations.pruning.sparse_gpt.utils import \
    memory_efficient_forward
from mmrazor.implementations.quantization.gptq import (GPTQCompressor,
                                                       GPTQLinear, GPTQMixIn,
                                                       Quantizer)
from simkit.ranks import SimRanks
from simkit.sim import tdigest

ID = 'C17'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 400, 30000
MIN_STEPS = 3
RULE = ('A run compresses a generated network with SparseGPT or GPTQ on one '
        'process or on 2-3 simulated ranks in a random interleaving. The '
        'calibration samples are split into batches and over ranks at '
        'random. Forward passes, linear algebra and memory allocations fail '
        'at chosen calls, inputs are dead or not finite; a failed '
        'calibration is started again, a failed layer is compressed again. '
        'Statistics are compared with the sum over all samples of the '
        'layer inputs of the original network, every compressed weight with '
        'the column by column update of its predecessors.')
STATE_MEASURE = 'digest of (algorithm, layer, outcome, zero pattern)'
COMPONENTS = dict(
    real='SparseGptCompressor, SparseGptLinear/Conv2d, GPTQCompressor, '
    'GPTQLinear/Conv2d, packing of TritonGPTQLinear, Quantizer, '
    'memory_efficient_forward, conversion to a static model',
    stub='network, data, collectives between ranks, failing operators; the '
    'triton kernel is not run')
ASSUMPTIONS = ['convolutions are not grouped and pad with zeros',
               'every rank has the same number of batches, as a distributed '
               'sampler gives them',
               'all ranks fail alike']
MUST_REACH = ['sparse', 'gptq', 'pack', 'ranks', 'uneven-ranks',
              'layer-failed', 'calibration-failed', 'dead', 'not-finite',
              'shared', 'dilated', 'retried', 'n:m', 'groups', 'static',
              'bad-pattern']


class Boom(RuntimeError):
    pass


class Net(nn.Module):

    def __init__(self, cfg):
        super().__init__()
        g = torch.Generator().manual_seed(cfg['wseed'])
        self.cfg = cfg
        self.convs = nn.ModuleList()
        ci = cfg['cin']
        for c in cfg['convs']:
            self.convs.append(nn.Conv2d(ci, c['co'], c['k'],
                                        stride=c['s'], padding=c['p'],
                                        dilation=c['d'], bias=c['b']))
            ci = c['co']
        self.lins = nn.ModuleList()
        for c in cfg['lins']:
            if c['same'] and self.lins and self.lins[-1].in_features == \
                    self.lins[-1].out_features == ci:
                self.lins.append(self.lins[-1])
                continue
            self.lins.append(nn.Linear(ci, c['co'], bias=c['b']))
            ci = c['co']
        self.head = nn.Linear(ci, 2)
        with torch.no_grad():
            for p in self.parameters():
                p.copy_(torch.randn(p.shape, generator=g) /
                        max(1, p[0].numel() if p.dim() > 1 else 1)**0.5)
        self.to(getattr(torch, cfg['dtype']))

    def forward(self, x):
        for c, m in zip(self.cfg['convs'], self.convs):
            x = m(x)
            x = x if c['lin'] else F.relu(x)
        x = x.flatten(2).transpose(1, 2) if self.cfg['tokens'] else \
            x.mean((2, 3))
        for m in self.lins:
            x = F.relu(m(x))
        return self.head(x)


def gen(rng, i, tier):
    algo = rng.weighted([(5, 'sparse'), (4, 'gptq'), (1, 'pack')])
    convs = []
    for _ in range(rng.randint(0, 2)):
        d = rng.choice([1, 1, 2])
        k = rng.choice([1, 2, 3])
        convs.append(dict(co=rng.choice([4, 6, 8]), k=k, d=d,
                          s=rng.choice([1, 1, 2]),
                          p=rng.choice([0, d * (k // 2), 1 if k > 1 else 0]),
                          b=rng.chance(0.5), lin=rng.chance(0.3)))
    lins = []
    co = 4
    for _ in range(rng.randint(0 if convs else 1, 3)):
        co = rng.choice([c for c in (4, 6, 8, 12, 16) if c >= co])
        lins.append(dict(co=co, b=rng.chance(0.5), same=rng.chance(0.25)))
    cin = rng.choice([3, 4])
    if algo == 'pack':
        convs, cin = [], 32
        lins = [dict(co=rng.choice([32, 64]), b=rng.chance(0.5), same=False)
                for _ in range(rng.randint(1, 2))]
        if rng.chance(0.2):
            lins[-1]['co'] = 40    # cannot be packed completely
    ranks = rng.weighted([(2, 1), (1, 2), (1, 3)])
    nb = rng.randint(1, 3)
    cfg = dict(
        algo=algo, convs=convs, lins=lins, cin=cin, ranks=ranks,
        tokens=rng.chance(0.5), wseed=rng.seed32(),
        dtype=rng.weighted([(6, 'float32'), (1, 'float64'),
                            (1, 'bfloat16')]),
        split=[[rng.randint(1, 4) for _ in range(nb)] for _ in range(ranks)],
        dead=rng.chance(0.3), nan=rng.chance(0.12),
        scale=rng.choice([1, 1, 1e-3]),
        sparsity=rng.choice([0.25, 0.5, 0.5, 0.75, 0.9]),
        nm=rng.weighted([(4, [0, 0]), (4, [2, 4]), (1, [1, 4]),
                         (1, [1, 2])]),
        block=rng.choice([4, 8, 16, 128]), damp=rng.choice([0.01, 0.1]),
        mem=rng.chance(0.3), group=rng.choice([-1, -1, 4, 8]),
        act=rng.chance(0.4), bits=rng.choice([2, 3, 4, 8]),
        perch=rng.chance(0.7), sym=rng.chance(0.3), mse=rng.chance(0.2),
        whole=rng.chance(0.5))
    if algo == 'pack':
        cfg.update(dtype='float32', bits=rng.choice([2, 4, 8]), mem=False,
                   group=rng.choice([-1, 16, 32]), perch=True)
    if cfg['mse'] and cfg['group'] != -1:
        cfg['mse'] = False     # slow, nothing new
    faults = []
    for _ in range(rng.weighted([(3, 0), (3, 1), (1, 2)])):
        faults.append([rng.choice(['calib', 'chol', 'inv', 'mm']),
                       rng.randint(0, 6)])
    return dict(cfg=cfg, faults=faults, seed=rng.seed32(),
                sched=[rng.randint(0, 2) for _ in range(
                    20 if ranks > 1 else 0)])


def simplify(plan):
    c = plan['cfg']
    for k in ('convs', 'lins'):
        for j in range(len(c[k])):
            if len(c['convs']) + len(c['lins']) > 1:
                yield dict(plan, cfg=dict(c, **{
                    k: c[k][:j] + c[k][j + 1:]}))
    if c['ranks'] > 1:
        yield dict(plan, cfg=dict(c, ranks=c['ranks'] - 1,
                                  split=c['split'][:-1]))
    if len(c['split'][0]) > 1:
        yield dict(plan, cfg=dict(c, split=[s[:-1] for s in c['split']]))
    for k, v in (('dead', False), ('nan', False), ('mem', False),
                 ('act', False), ('mse', False), ('dtype', 'float32'),
                 ('tokens', False), ('group', -1), ('block', 128)):
        if c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))


def samples(cfg, n):
    g = torch.Generator().manual_seed(11)
    x = torch.randn((n, cfg['cin'], 6, 6), generator=g) * cfg['scale']
    if cfg['dead']:
        x[:, 1] = 0
    if cfg['nan']:
        x[n // 2, 0, 2, 3] = float('nan')
    return x.to(getattr(torch, cfg['dtype']))


class Fault:
    """One failing call of a linear algebra routine."""

    def __init__(self, sim):
        self.sim, self.kind, self.at = sim, None, -1

    def set(self, kind, at):
        self.kind, self.at = kind, at
        self.sim.arm(kind + '-fails')

    def hit(self, kind):
        if self.kind != kind:
            return
        if self.at == 0:
            self.kind = None
            self.sim.fired(kind + '-fails')
            raise Boom('out of memory')
        self.at -= 1


@contextlib.contextmanager
def patched(fault):
    la, ci, mm = torch.linalg.cholesky, torch.cholesky_inverse, \
        torch.Tensor.matmul

    def w(f, kind):
        def g(*a, **k):
            fault.hit(kind)
            return f(*a, **k)
        return g

    torch.linalg.cholesky = w(la, 'chol')
    torch.cholesky_inverse = w(ci, 'inv')
    torch.Tensor.matmul = w(mm, 'mm')
    try:
        yield
    finally:
        torch.linalg.cholesky, torch.cholesky_inverse = la, ci
        torch.Tensor.matmul = mm


def patches(m, x):
    """Rows of inputs one output is computed from: (samples, columns)."""
    x = x.double()
    if isinstance(m, nn.Linear):
        return x.reshape(-1, x.shape[-1])
    (kh, kw), (sh, sw) = m.kernel_size, m.stride
    (ph, pw), (dh, dw) = m.padding, m.dilation
    x = F.pad(x, (pw, pw, ph, ph))
    H = (x.shape[2] - dh * (kh - 1) - 1) // sh + 1
    W = (x.shape[3] - dw * (kw - 1) - 1) // sw + 1
    rows = []
    for i in range(H):
        for j in range(W):
            rows.append(x[:, :, i * sh:i * sh + dh * (kh - 1) + 1:dh,
                          j * sw:j * sw + dw * (kw - 1) + 1:dw].flatten(1))
    return torch.cat(rows)


def statistics(net, x):
    """Sum over all samples of 2 x x' per layer; mean over the samples."""
    out, hs = {}, []

    def hook(name):
        def f(m, inp):
            p = patches(m, inp[0].detach())
            out[name] = out.get(name, 0) + 2 * p.T @ p
            cnt[name] = cnt.get(name, 0) + len(inp[0])
        return f

    cnt = {}
    for n, m in net.named_modules():
        if isinstance(m, (nn.Conv2d, nn.Linear)):
            hs.append(m.register_forward_pre_hook(hook(n)))
    with torch.no_grad():
        for i in range(len(x)):
            net(x[i:i + 1])
    for h in hs:
        h.remove()
    return {n: h / cnt[n] for n, h in out.items()}


def close(a, b, tol):
    if torch.isnan(b).any():
        return bool((torch.isnan(a) == torch.isnan(b)).all())
    return bool(((a - b).abs() <= tol * b.abs().max() + 1e-12).all())


def hinv(H, damp):
    H = H.clone()
    dead = torch.diag(H) == 0
    H[dead, dead] = 1
    H += torch.eye(len(H), dtype=H.dtype) * damp * torch.diag(H).mean()
    return torch.linalg.cholesky(
        torch.cholesky_inverse(torch.linalg.cholesky(H)), upper=True), dead


def replay(W, Q, H, damp, perm=None):
    """Weights as they were when each column was decided, given the result."""
    if perm is not None:
        W, Q, H = W[:, perm], Q[:, perm], H[perm][:, perm]
    U, dead = hinv(H, damp)
    W = W.clone()
    W[:, dead] = 0
    snaps, blocks = [], []
    for i in range(W.shape[1]):
        blocks.append(W.clone())
        snaps.append(W[:, i].clone())
        e = (W[:, i] - Q[:, i]) / U[i, i]
        W[:, i:] -= e[:, None] * U[i, i:][None]
    return torch.stack(snaps, 1), blocks, U, dead


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def equal(a, b):
    return a.keys() == b.keys() and all(
        torch.equal(torch.nan_to_num(a[k].float(), 7.),
                    torch.nan_to_num(b[k].float(), 7.)) for k in a)


def nhooks(m):
    return sum(len(x._forward_hooks) + len(x._forward_pre_hooks)
               for x in m.modules())


def qparams(cfg):
    return dict(bits=cfg['bits'], perchannel=cfg['perch'], sym=cfg['sym'],
                mse=cfg['mse'])


def one(cfg, op, c):
    """Compress one layer again, by itself."""
    if cfg['algo'] == 'sparse':
        op.prune(cfg['sparsity'], cfg['nm'][0], cfg['nm'][1], cfg['block'],
                 cfg['damp'])
    else:
        q = Quantizer()
        q.configure(**qparams(cfg))
        op.quant(q, cfg['block'], cfg['damp'], cfg['group'], cfg['act'])


def body(plan, sim, rank, fault, res):
    cfg = plan['cfg']
    ref = Net(cfg)
    net = Net(cfg)
    xs = []
    n = 0
    for r, s in enumerate(cfg['split']):
        for b in s:
            n += b
    X = samples(cfg, n)
    k = 0
    for r, s in enumerate(cfg['split']):
        for b in s:
            if r == rank:
                xs.append(X[k:k + b])
            k += b
    with torch.no_grad():
        y0 = ref(X)
    sparse = cfg['algo'] == 'sparse'
    comp = SparseGptCompressor() if sparse else GPTQCompressor()
    if sparse:
        comp.prepare(net)
    elif cfg['algo'] == 'pack':
        comp.prepare(net, use_triton_ops=True, bits=cfg['bits'],
                     groupsize=cfg['group'])
    else:
        comp.prepare(net, use_triton_ops=False)
    mix = SparseGptMixIn if sparse else GPTQMixIn
    mods = dict(ref.named_modules())
    ops = {n: m for n, m in net.named_modules() if isinstance(m, mix)}
    want = {n for n, m in ref.named_modules()
            if isinstance(m, nn.Conv2d) or (
                isinstance(m, nn.Linear) and
                (not sparse or m.out_features >= m.in_features))}
    sim.check(set(ops) == want, 'layers', lambda: f'{sorted(ops)} are '
              f'compressed, not {sorted(want)}')

    def same_function(what):
        with torch.no_grad():
            y = net(X)
        sim.check(torch.equal(torch.nan_to_num(y, 3.),
                              torch.nan_to_num(y0, 3.)), 'function-changed',
                  f'{what} changed what the network computes')
        sim.check(len(set(net.lins)) == len(set(ref.lins)),
                  'layers', f'{what}: layers used twice are no longer one')

    same_function('preparing')
    if len(set(ref.lins)) < len(ref.lins):
        sim.probe('shared')
    hooks0 = nhooks(net)
    w0 = snap(net)
    calib = [f for f in plan['faults'] if f[0] == 'calib']
    linalg = [f for f in plan['faults'] if f[0] != 'calib']
    tries = 0
    while True:
        tries += 1
        comp.init_hessian()
        comp.register_hessian_hooks()
        try:
            with memory_efficient_forward(net, cfg['mem'], 'cpu'), \
                    torch.no_grad():
                for bi, x in enumerate(xs):
                    if calib and bi == calib[0][1] % len(xs):
                        calib.pop()
                        sim.arm('calib-fails')
                        h = net.head.register_forward_pre_hook(boom)
                        try:
                            net(x)
                        finally:
                            h.remove()
                    net(x)
        except Boom:
            sim.fired('calib-fails')
            sim.probe('calibration-failed')
            comp.remove_hessian_hooks()
            sim.check(nhooks(net) == hooks0, 'hooks-left',
                      'a failed calibration leaves hooks')
            continue
        comp.remove_hessian_hooks()
        break
    sim.check(nhooks(net) == hooks0, 'hooks-left', 'recording left hooks')
    sim.check(equal(snap(net), w0), 'weights-changed',
              'recording changed the weights')
    same_function('recording')
    H = statistics(ref, X)
    tol = {'float32': 1e-3, 'float64': 1e-3, 'bfloat16': 5e-2}[cfg['dtype']]
    for name, op in ops.items():
        h = op.hessian
        sim.check(close(h.double(), H[name], tol), 'statistics',
                  lambda: f'{name}: the statistics are not the mean over all '
                  f'{n} samples: ratio of the sums '
                  f'{float(h.sum() / H[name].sum()):.5f}')
    if cfg['ranks'] > 1:
        sim.probe('ranks')
        if len({tuple(s) for s in cfg['split']}) > 1:
            sim.probe('uneven-ranks')
    # compression, with failing operators
    if linalg:
        fault.set(*linalg[0])
    hs = {n: (op._hessian.clone() if op._hessian is not None else None)
          for n, op in ops.items()}
    if sparse:
        nm = cfg['nm']
        if nm == [2, 4] and cfg['whole'] and cfg['block'] == 128 and \
                cfg['damp'] == 0.01:
            comp.prune_24('cpu')
        else:
            comp.prune(cfg['sparsity'], nm[0], nm[1], cfg['block'],
                       cfg['damp'], 'cpu')
    else:
        comp.quant(cfg['block'], cfg['damp'], cfg['group'], cfg['act'],
                   'cpu', **qparams(cfg))
    fault.kind = None
    out = {}
    finite = all(bool(torch.isfinite(h).all()) for h in H.values())
    for name, op in ops.items():
        k = name + '.weight'
        packed = hasattr(op, 'qweight')
        now = None if packed and not hasattr(op, 'weight') else \
            op.weight.detach()
        old = w0[k]
        other = [p for p in ('bias', ) if getattr(op, p, None) is not None]
        for p in other:
            sim.check(torch.equal(getattr(op, p), w0[name + '.' + p]),
                      'bias-changed', f'{name}: the bias changed')
        done = now is None or not torch.equal(now, old)
        if not done:
            why = fails(cfg, op, finite, linalg)
            sim.check(bool(why), 'not-compressed', lambda: f'{name} was not '
                      'compressed although nothing failed')
            sim.probe('layer-failed')
            sim.log('failed', name)
            if why == 'pattern':
                sim.probe('bad-pattern')
            if packed:
                sim.check(not op.qweight.any() and not op.scales.any(),
                          'half-packed', f'{name} failed but keeps packed '
                          'weights')
            if why == 'fault' and hs[name] is not None and \
                    op._hessian is not None:
                sim.check(torch.equal(op._hessian, hs[name]),
                          'statistics-changed', f'{name}: the failure '
                          'changed the statistics')
            if why == 'fault':
                one(cfg, op, comp)
                sim.probe('retried')
                now = None if packed and not hasattr(op, 'weight') else \
                    op.weight.detach()
                done = True
        if done:
            if packed:
                judge_packed(sim, cfg, name, op, old, hs[name])
            elif sparse:
                judge_sparse(sim, cfg, name, now, old, H[name])
            else:
                judge_gptq(sim, cfg, name, op, now, old, H[name])
            sim.log('done', name, tdigest(op.weight == 0) if hasattr(
                op, 'weight') else 'packed')
        out[name] = None if now is None else now.clone()
        if now is not None:
            sim.state(cfg['algo'], name, done, tdigest(now == 0))
    if not packed_any(ops):
        with torch.no_grad():
            y = net(X)
        for m in ops.values():
            if isinstance(m, GPTQMixIn):
                m.free()
        comp.to_static_model(net)
        with torch.no_grad():
            y2 = net(X)
        sim.check(torch.equal(torch.nan_to_num(y, 3.),
                              torch.nan_to_num(y2, 3.)), 'static',
                  'the static model computes something else')
        sim.check(not any(isinstance(m, mix) for m in net.modules()),
                  'static', 'the static model keeps compression layers')
        sim.probe('static')
    sim.probe(cfg['algo'])
    if cfg['dead']:
        sim.probe('dead')
    if not finite:
        sim.probe('not-finite')
    if any(c['d'] > 1 and c['k'] > 1 for c in cfg['convs']):
        sim.probe('dilated')
    res[rank] = out
    return True


def packed_any(ops):
    return any(hasattr(o, 'qweight') for o in ops.values())


def boom(m, i):
    raise Boom()


def fails(cfg, op, finite, linalg):
    """Why a layer may keep its weights."""
    if not finite:
        return 'nan'
    cols = op.columns
    if cfg['algo'] == 'sparse':
        n, m = cfg['nm']
        if n and ((n, m) == (2, 4) and cols % m or 0 < cols % m < n):
            return 'pattern'
    if linalg:
        return 'fault'
    return None


def judge_sparse(sim, cfg, name, now, old, H):
    n, m = cfg['nm']
    Q, W = now.flatten(1).double(), old.flatten(1).double()
    sim.check(bool(torch.isfinite(Q).all()), 'not-finite',
              lambda: f'{name} has weights that are not finite')
    rows, cols = Q.shape
    tol = {'float32': 2e-2, 'float64': 2e-2, 'bfloat16': 0.2}[cfg['dtype']]
    s = max(float(W.abs().max()), 1e-6)
    if n:
        sim.probe('n:m')
        z = (Q == 0)[:, :cols // m * m].reshape(rows, cols // m, m).sum(-1)
        sim.check(bool((z >= n).all()), 'pattern', lambda: f'{name}: a group '
                  f'of {m} weights has only {int(z.min())} zeros')
    else:
        for b in range(0, cols, cfg['block']):
            q = Q[:, b:b + cfg['block']]
            z = float((q == 0).double().mean())
            lim = (int(q.numel() * cfg['sparsity']) + 1) / q.numel()
            dead = int((torch.diag(H) == 0)[b:b + cfg['block']].sum())
            sim.check(z >= cfg['sparsity'] - 1e-9, 'pattern',
                      lambda: f'{name}: {z:.3f} of the weights of block {b} '
                      f'are zero, {cfg["sparsity"]} were asked for')
            # equal costs go together
            sim.check(z <= lim + dead * rows / q.numel() + 0.03 +
                      2 / q.numel(), 'pattern',
                      lambda: f'{name}: {z:.3f} of the weights of block {b} '
                      f'are zero, {lim:.3f} were asked for')
    if cfg['dtype'] == 'bfloat16' or (torch.diag(H) == 0).any() and \
            cfg['scale'] != 1:
        return       # too ill conditioned to follow
    at, blocks, U, dead = replay(W, Q, H, cfg['damp'])
    keep = Q != 0
    bad = ((at - Q).abs() > tol * s) & keep
    sim.check(not bool(bad.any()), 'compensation', lambda: f'{name}: weight '
              f'{[int(v) for v in bad.nonzero()[0]]} was kept as '
              f'{float(Q[bad][0]):.5f}, makes up for the pruned ones as '
              f'{float(at[bad][0]):.5f}')
    # the weights that went cost least when they were chosen
    cost = torch.zeros_like(Q)
    d2 = torch.diag(U)**2
    if n:
        for g in range(0, cols // m * m, m):
            cost = blocks[g][:, g:g + m]**2 / d2[g:g + m]
            z = Q[:, g:g + m] == 0
            hi = torch.where(z, cost, torch.zeros_like(cost)).max(1)[0]
            # the n cheapest are gone: at most m - n may cost less
            lo = cost.sort(1)[0][:, n - 1]
            lim = torch.where(~z, cost, torch.full_like(cost, 1e300)).min(1)[0]
            sim.check(bool((lim >= lo - 0.05 * hi - 1e-9).all()), 'choice',
                      lambda: f'{name}: columns {g}..{g + m} kept a weight '
                      'cheaper than one it pruned')
    else:
        for b in range(0, cols, cfg['block']):
            e = min(b + cfg['block'], cols)
            cost = blocks[b][:, b:e]**2 / d2[b:e]
            z = Q[:, b:e] == 0
            if z.all():
                continue
            kept = cost[~z].min()
            srt = cost.flatten().sort()[0]
            th = srt[int(cost.numel() * cfg['sparsity'])]
            sim.check(bool(kept >= th * 0.9 - 1e-9), 'choice',
                      lambda: f'{name}: block {b} keeps a weight of cost '
                      f'{float(kept):.3g}, prunes up to {float(th):.3g}')


def judge_gptq(sim, cfg, name, op, now, old, H):
    Q, W = now.flatten(1).double(), old.flatten(1).double()
    sim.check(bool(torch.isfinite(Q).all()), 'not-finite',
              lambda: f'{name} has weights that are not finite')
    rows, cols = Q.shape
    levels = 2**cfg['bits']
    perm = torch.argsort(torch.diag(op_h(H)), descending=True) \
        if cfg['act'] else None
    group = cols if cfg['group'] == -1 else cfg['group']
    if cfg['group'] != -1:
        sim.probe('groups')
        if cfg['act']:
            return      # the order of equal columns is not ours to know
    for g in range(0, cols, group):
        for r in range(rows):
            v = torch.unique(Q[r, g:g + group])
            sim.check(len(v) <= levels, 'grid', lambda: f'{name}: row {r} '
                      f'has {len(v)} values for {cfg["bits"]} bits')
    if cfg['group'] != -1 or cfg['dtype'] == 'bfloat16' or cfg['mse'] or \
            cfg['act'] or (torch.diag(H) == 0).any() and cfg['scale'] != 1:
        return
    scale, zero = grid(cfg, W)
    k = Q / scale + zero
    sim.check(bool(((k - k.round()).abs() < 2e-2).all()), 'grid',
              lambda: f'{name}: weights are not on the grid of the '
              'configured range')
    at, _, _, _ = replay(W, Q, H, cfg['damp'])
    want = torch.clamp(at / scale + zero, 0, levels - 1)
    bad = (want - k).abs() > 0.5 + 0.05
    sim.check(not bool(bad.any()), 'rounding', lambda: f'{name}: weight '
              f'{[int(v) for v in bad.nonzero()[0]]} is level '
              f'{float(k[bad][0]):.3f}, the nearest to what it makes up for '
              f'is {float(want[bad][0]):.3f}')


def op_h(H):
    return H


def grid(cfg, W):
    """Scale and zero point of the rows, from the range of the weights."""
    x = W if cfg['perch'] else W.reshape(1, -1)
    lo = x.min(1)[0].clamp(max=0)
    hi = x.max(1)[0].clamp(min=0)
    mq = 2**cfg['bits'] - 1
    if cfg['sym']:
        hi = torch.maximum(lo.abs(), hi)
        lo = torch.where(lo < 0, -hi, lo)
    z = (lo == 0) & (hi == 0)
    lo, hi = torch.where(z, -1., lo), torch.where(z, 1., hi)
    scale = (hi - lo) / mq
    zero = torch.full_like(scale, (mq + 1) / 2) if cfg['sym'] else \
        torch.round(-lo / scale)
    return scale.reshape(-1, 1), zero.reshape(-1, 1)


def judge_packed(sim, cfg, name, op, old, h):
    """What the kernel reads from the packed layer."""
    b = cfg['bits']
    per = 32 // b
    qw = op.qweight.long() & 0xffffffff
    w = torch.stack([(qw >> (b * j)) & (2**b - 1) for j in range(per)], 1)
    w = w.reshape(-1, op.out_features)          # in, out
    qz = op.qzeros.long() & 0xffffffff
    z = torch.stack([(qz >> (b * j)) & (2**b - 1) for j in range(per)], 2)
    z = (z.reshape(len(qz), -1) + 1) & (2**b - 1)
    sim.check(w.shape[0] == op.in_features and z.shape[1] == op.out_features,
              'packed', lambda: f'{name}: packed as {tuple(w.shape)}, zeros '
              f'{tuple(z.shape)}')
    g = op.g_idx.long()
    got = ((w - z[g]) * op.scales.double()[g]).T
    # the same layer without a kernel
    lin = nn.Linear(op.in_features, op.out_features, bias=False)
    with torch.no_grad():
        lin.weight.copy_(old)
    twin = GPTQLinear.convert_from(lin)
    twin._hessian = h
    one(cfg, twin, None)
    want = twin.weight.detach().double()
    scale = op.scales.double()[g].T
    bad = (got - want).abs() > 0.2 * scale + 1e-3 * want.abs()
    sim.check(not bool(bad.any()), 'packed', lambda: f'{name}: weight '
              f'{[int(v) for v in bad.nonzero()[0]]} is '
              f'{float(want[bad][0]):.4f} quantised, {float(got[bad][0]):.4f} '
              'packed')


def run(plan, sim):
    cfg = plan['cfg']
    try:
        with torch.no_grad():
            Net(cfg)(samples(cfg, 1))
    except RuntimeError:
        sim.log('unsupported')
        sim.log('-')
        sim.log('-')
        return
    fault = Fault(sim)
    res = {}
    with patched(fault):
        if cfg['ranks'] == 1:
            body(plan, sim, 0, fault, res)
        else:
            # a rank fails alone only by dying; operators fail on all alike
            S = SimRanks(sim, cfg['ranks'], sched=plan['sched'])
            fs = [Fault(sim) for _ in range(cfg['ranks'])]
            cur = fault.hit
            fault.hit = lambda kind: fs[S.rank()].hit(kind)
            try:
                rs = S.run(lambda r: body(plan, sim, r, fs[r], res))
            finally:
                fault.hit = cur
            for r in rs:
                if r.exc is not None:
                    raise r.exc
            for k in range(1, cfg['ranks']):
                for n, w in res[0].items():
                    v = res[k][n]
                    sim.check((w is None) == (v is None) and (
                        w is None or torch.equal(w, v) or
                        torch.isnan(w).any()), 'ranks-differ',
                        lambda: f'{n}: ranks 0 and {k} have other weights')
    sim.log('end')
