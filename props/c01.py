"""C01: evolution search keeps the best legal subnets it has scored."""
import os

from . import evo
from .worlds import legal

ID = 'C01'
LEVEL = 'exploration'
QUICK, THOROUGH = 160, 12000
MIN_STEPS = 4
RULE = ('A run draws a search space (op/channel/kernel/depth choices), '
        'constraint quantiles, pool/top-k/mutation/crossover sizes, metric '
        'landscape and random stream, and runs a whole real evolution search '
        'on it, checking pool, scores, top-k and offspring every epoch '
        'against a history-free reference supernet.')
STATE_MEASURE = 'digest of (epoch, top-k scores, offspring count)'
COMPONENTS = dict(
    real='EvolutionSearchLoop, Candidates, crossover, check_subnet_resources, '
    'CalibrateBNMixin, NasMutator, mutables, export/load_fix_subnet, '
    'ResourceEstimator, SPOS, torch forward',
    stub='runner, data loader, metric (function of real outputs), clock')
ASSUMPTIONS = ['the metric is a function of the model outputs only']
MUST_REACH = ['constraint-active', 'offspring-short', 'tie-in-top-k']


def gen(rng, i, tier):
    return dict(cfg=evo.gen_cfg(rng), rs=rng.seed32())


def simplify(p):
    c = p['cfg']
    for k, v in (('epochs', 1), ('epochs', 2), ('cons', None), ('calib', -1),
                 ('land', 'hash'), ('mu', 0), ('co', 0), ('nb', 1), ('k', 1),
                 ('n', max(2, c['mu'] + c['co'], c['k']))):
        if c[k] != v:
            q = dict(p, cfg=dict(c, **{k: v}))
            yield q
    sp = c['space']
    for j in range(len(sp['ops'])):
        if len(sp['ops']) > 1:
            yield dict(p, cfg=dict(c, space=dict(
                sp, ops=sp['ops'][:j] + sp['ops'][j + 1:])))
    for k in ('widths', 'kernels', 'depths'):
        if k in sp:
            s2 = dict(sp)
            s2.pop(k)
            yield dict(p, cfg=dict(c, space=s2))


def run(plan, sim):
    cfg = plan['cfg']
    ref = evo.Ref(cfg)
    evo.seed_life(plan['rs'])
    work = 'work'
    os.makedirs(work)
    st = dict(scored=[], epoch=[], prev=None)

    def on_eval(algo, m):
        ch = {k: evo._plain(v)
              for k, v in algo.mutator.current_choices.items()}
        st['epoch'].append((ch, dict(m)))
        sim.tick(1.0)

    def before(loop):
        st['epoch'] = []

    def after(loop):
        mut = loop.model.mutator
        sim.check(len(st['epoch']) == cfg['n'], 'pool-size',
                  lambda: f'{len(st["epoch"])} candidates scored, '
                  f'{cfg["n"]} requested')
        for ch, m in st['epoch']:
            bad = legal(mut, ch)
            sim.check(bad is None, 'illegal-candidate', lambda: bad)
            r = ref.resources(ch)
            sim.check(ref.passes(r, ref.range), 'constraint-violated',
                      lambda: f'scored {ch}: flops {r["flops"]} params '
                      f'{r["params"]}, allowed {ref.range}')
            want = ref.metric(ch)
            sim.check(set(want) == set(m) and all(
                abs(want[k] - m[k]) < 1e-6 for k in m), 'wrong-metric',
                lambda: f'{ch} was evaluated as {m}, in isolation {want}')
            st['scored'].append(round(m[evo.KEY], 2) if m else 0.0)
        top = evo.pool(loop.top_k_candidates)
        evo.check_topk(sim, cfg, ref, top, st['scored'],
                       f'epoch {loop._epoch}')
        evo.check_pool(sim, cfg, ref, top, mut, 'top-k')
        nxt = evo.pool(loop.candidates)
        sim.check(len(nxt) <= cfg['mu'] + cfg['co'], 'too-many-offspring',
                  lambda: f'{len(nxt)} offspring')
        evo.check_pool(sim, cfg, ref, nxt, mut, 'offspring')
        if st['prev'] is not None:
            sim.check(top[0]['score'] >= st['prev'], 'best-decreased', 'top-1')
        st['prev'] = top[0]['score']
        sc = [t['score'] for t in top]
        if len(set(sc)) < len(sc):
            sim.probe('tie-in-top-k')
        if len(nxt) < cfg['mu'] + cfg['co']:
            sim.probe('offspring-short')
        if ref.range is not None:
            sim.probe('constraint-active')
        if any(not m for _, m in st['epoch']):
            sim.probe('empty-metrics')
        sim.state(loop._epoch, sc, len(nxt))
        sim.log('epoch', loop._epoch, st['epoch'], top, nxt)

    loop, algo = evo.build_loop(cfg, ref.range, work, on_eval=on_eval,
                                before=before, after=after)
    loop.run()
    sim.check(loop._epoch == cfg['epochs'], 'epoch-count',
              lambda: f'{loop._epoch} epochs run, {cfg["epochs"]} requested')
    evo.check_final(sim, cfg, ref, work, evo.pool(loop.top_k_candidates))
