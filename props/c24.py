"""C24: quantised graphs are the float network with fake quantizers."""
import copy

import torch
import torch.nn.functional as F
from torch.ao.quantization import FakeQuantizeBase

from simkit.sim import tdigest
from .quant import QArch, build, gen_arch, gen_q, simplify_arch

ID = 'C24'
LEVEL = 'exploration'
QUICK, THOROUGH = 60, 6000
MIN_STEPS = 3
RUN_TIMEOUT = 240
RULE = ('A run quantises a generated network (reused layers, residuals, '
        'concatenations) with a shipped quantizer and applies a random '
        'history of training steps, calibration, parameter syncs, deploys '
        'and process restarts from its state dict. After every operation '
        'each quantised graph with its fake quantizers switched off is '
        'compared with the float network, and every deploy model with the '
        'quantised graph it was made from.')
STATE_MEASURE = 'digest of (operation, weights) per step'
COMPONENTS = dict(
    real='MMArchitectureQuant, quantizers, CustomTracer, build_graphmodule, '
    'graph passes, post_process_for_deploy, QConfigHandler, observers and '
    'fake quantizers, torch.fx',
    stub='network, data, training loop')
ASSUMPTIONS = ['outputs are compared with 1e-4 tolerance']
MUST_REACH = ['trained', 'deployed', 'restarted', 'reused', 'lsq', 'native',
              'openvino', 'tensorrt', 'loaded-float']


def gen(rng, i, tier):
    big = tier != 'quick'
    q = gen_q(rng, rng.chance(0.4))
    ops = []
    for _ in range(rng.randint(2, 6 if not big else 14)):
        ops.append(rng.weighted([
            (4, ['train', rng.randint(1, 3)]), (2, ['calib']),
            (2, ['sync', 'loss']), (2, ['deploy']), (2, ['restart']),
            (1, ['eval']), (1, ['float'])]))
    return dict(cfg=dict(q=q, arch=gen_arch(rng, 2 if not big else 3),
                         wseed=rng.seed32()),
                ops=ops, seed=rng.seed32())


def simplify(plan):
    for a in simplify_arch(plan['cfg']['arch']):
        yield dict(plan, cfg=dict(plan['cfg'], arch=a))


def flags(m, fq, obs):
    for x in m.modules():
        if isinstance(x, FakeQuantizeBase):
            for k, v in (('fake_quant_enabled', fq), ('observer_enabled', obs),
                         ('static_enabled', obs), ('learning_enabled', 0)):
                if hasattr(x, k):
                    getattr(x, k)[0] = int(v)


def batch(seed, n, classes):
    g = torch.Generator().manual_seed(seed)
    return (torch.randn((n, 3, 6, 6), generator=g),
            torch.randint(0, classes, (n, ), generator=g))


def outputs(m, x, y, fq):
    """What every graph and the float network answer in eval mode."""
    c = copy.deepcopy(m).eval()
    flags(c, fq, False)
    out = {}
    with torch.no_grad():
        for mode in m.forward_modes:
            for name, net in (('q', c.qmodels[mode]), ('f', c.architecture)):
                o = net(x, y, mode)
                out[name, mode] = o['loss'] if mode == 'loss' else \
                    torch.stack(list(o))
    return out


def close(a, b, tol=1e-4):
    return a.shape == b.shape and bool(
        ((a - b).abs() <= tol * (1 + b.abs())).all())


def run(plan, sim):
    res = sim.process(body, plan, sim)
    if res.status == 'error':
        sim.violate('stops', f'{res.exc}\n{res.tb[-900:]}')


def body(plan, sim):
    cfg = plan['cfg']
    q = cfg['q']
    torch.manual_seed(plan['seed'] % 10000)
    cl = cfg['arch']['classes']
    m = build(cfg['arch'], q, cfg['wseed'])
    sim.probe(q['back'])
    if q['lsq']:
        sim.probe('lsq')
    if any(l['k'] == 'again' for l in cfg['arch']['layers']):
        sim.probe('reused')
    x, y = batch(77, 3, cl)
    ran = False

    def same(what):
        o = outputs(m, x, y, False)
        for mode in m.forward_modes:
            sim.check(close(o['q', mode], o['f', mode]), 'not-the-network',
                      lambda: f'{what}: graph {mode} without fake '
                      f'quantisation gives {o["q", mode].flatten()[:4]}, '
                      f'the float network {o["f", mode].flatten()[:4]}')
        sim.log(what, o['f', 'tensor'])
        sim.state(what, o['f', 'tensor'])
        return o
    same('built')
    opt = None
    t = 0
    for op in plan['ops']:
        if op[0] == 'train':
            m.train()
            flags(m, True, not q['lsq'] or not ran)
            if opt is None:
                opt = torch.optim.SGD(m.parameters(), 0.05)
            for _ in range(op[1]):
                t += 1
                bx, by = batch(1000 + t, 4, cl)
                opt.zero_grad()
                loss = m(bx, by, 'loss')['loss']
                loss.backward()
                torch.nn.utils.clip_grad_norm_(m.parameters(), 1.)
                opt.step()
                if q['lsq']:
                    flags(m, True, False)
            m.sync_qparams('loss')
            ran = True
            sim.probe('trained')
        elif op[0] == 'calib':
            m.eval()
            flags(m, True, True)
            t += 1
            bx, by = batch(2000 + t, 3, cl)
            with torch.no_grad():
                m.calibrate_step(dict(inputs=bx, data_samples=by))
            m.sync_qparams('predict')
            flags(m, True, False)
            ran = True
        elif op[0] == 'sync':
            m.sync_qparams(op[1])
        elif op[0] == 'eval':
            m.eval()
        elif op[0] == 'float':
            g = torch.Generator().manual_seed(t)
            sd = {k: v + 0.01 * torch.randn(v.shape, generator=g)
                  if v.is_floating_point() and 'running' not in k else v
                  for k, v in m.architecture.state_dict().items()}
            m.architecture.load_state_dict(sd)
            sim.probe('loaded-float')
        elif op[0] == 'restart':
            sd = copy.deepcopy(m.state_dict())
            o0 = outputs(m, x, y, True)
            m = build(cfg['arch'], q, cfg['wseed'] + 1)
            m.load_state_dict(sd)
            opt = None
            o1 = outputs(m, x, y, True)
            for k in o0:
                sim.check(close(o0[k], o1[k]), 'restart', lambda:
                          f'{k} differs after loading the state dict')
            sim.probe('restarted')
            sim.arm('restart')
            sim.fired('restart')
        elif op[0] == 'deploy':
            if not ran:
                continue
            deploy(sim, m, x, y, q)
        same(op[0])


def deploy(sim, m, x, y, q):
    m.sync_qparams('predict')
    m.eval()
    flags(m, True, False)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    modes = {n: a.training for n, a in m.named_modules()}
    o0 = outputs(m, x, y, True)
    QArch.deploying = True
    d = m.get_deploy_model()
    QArch.deploying = False
    sim.probe('deployed')
    after = m.state_dict()
    ch = [k for k in before if k not in after or
          not torch.equal(before[k], after[k])]
    sim.check(not ch and len(after) == len(before), 'deploy-changes',
              lambda: f'deploying changed {ch[:4]} of the model')
    ch = [n for n, a in m.named_modules() if modes.get(n) != a.training]
    sim.check(not ch, 'deploy-mode', lambda: f'deploying put {ch[:4]} into '
              'train mode')
    o1 = outputs(m, x, y, True)
    for k in o0:
        sim.check(close(o0[k], o1[k]), 'deploy-changes',
                  lambda: f'{k} answers differently after a deploy')
    kinds = sorted({type(a).__name__ for a in d.modules()
                    if 'BatchNorm' in type(a).__name__})
    d.eval()
    g = copy.deepcopy(m.qmodels['tensor']).eval()
    flags(g, True, False)
    a, want = traced(g, x)
    b, o = traced(d, x)
    # (places that share one quantizer get one each)
    sim.check(len(a) == len(b), 'deploy-graph',
              lambda: f'fake quantizers {[n for n, _ in a]} became '
              f'{[n for n, _ in b]}')
    for (n, (xi, yi, s, z)), (_, (xj, yj, s2, z2)) in zip(a, b):
        step = s.expand_as(yi)
        bad = (yi - yj).abs() > 1e-2 * step
        if not bool(bad.any()):
            continue
        # the last bits of a fused batch norm may decide a rounding tie
        k = xi / s
        tie = ((k - k.floor()) - 0.5).abs() < 2e-3
        sim.check(not bool((bad & ~tie).any()) and
                  bool(((yi - yj).abs() < 1.5 * step).all()),
                  'deploy-differs', lambda: f'{n}: deployed values are up to '
                  f'{float(((yi - yj).abs() / step).max()):.2f} steps off')
        sim.probe('tie')
        sim.log('deploy', 'tie')
        return
    err = float((o - want).abs().max() / (want.abs().max() + 1e-6))
    sim.log('deploy', round(err, 5))
    sim.check(err < 2e-3, 'deploy-differs', lambda: f'the deploy model is '
              f'{err:.3f} off the quantised network; {kinds}')


def traced(g, x):
    """(name, (input, output, scale, zero point)) of every fake quantizer."""
    out = []
    hs = []

    def mk(n):
        def h(f, i, y):
            s, z = f.scale.detach(), f.zero_point.detach().float()
            if s.numel() > 1:
                shp = [1] * y.dim()
                shp[f.ch_axis] = -1
                s, z = s.reshape(shp), z.reshape(shp)
            out.append((n, (i[0].detach(), y.detach(), s, z)))
        return h
    for n, f in g.named_modules():
        if isinstance(f, FakeQuantizeBase):
            hs.append(f.register_forward_hook(mk(n)))
    with torch.no_grad():
        y = g(x, None, 'tensor')
    for h in hs:
        h.remove()
    return out, y
