"""C20: differentiable search fixes the architecture it learned."""
import copy
import os

import torch
import torch.nn.functional as F
from mmengine.fileio import dump, load
from mmengine.hooks import Hook
from mmengine.logging import MessageHub
from mmengine.optim import OptimWrapper, OptimWrapperDict

from mmrazor.models.algorithms.nas.dsnas import DSNASDDP
from mmrazor.models.mutables import DiffChoiceRoute
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)
from simkit.ddp import wrap
from simkit.ranks import SimRanks
from simkit.sim import tdigest
from .diff import DiffNet, build_darts, build_dsnas, gen_diff, simplify_diff
from .rr import Die, ListData, last_ckpt, loader, runner
from .worlds import batch, seeded_init

ID = 'C20'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 130, 10000
MIN_STEPS = 3
RUN_TIMEOUT = 200
RULE = ('A run is (a) a DSNAS training under the real Runner over several '
        'process lives, dying at hook points and resuming from the last '
        'checkpoint before, at or after the fixing epoch, with generated '
        'architecture weights and fix thresholds, (b) the same algorithm on '
        '2-3 simulated ranks with different data and random streams in a '
        'random interleaving, or (c) the derivation of an architecture from '
        'generated architecture weights of a Darts or DSNAS supernet, its '
        'export and its reload in a fresh network. At every step each '
        'choice is compared with the largest architecture weights.')
STATE_MEASURE = 'digest of (fixed choices, architecture weights) per step'
COMPONENTS = dict(
    real='DSNAS, DSNASDDP, Darts, DiffMutableOP, OneHotMutableOP, '
    'DiffChoiceRoute, NasMutator, export/load_fix_subnet, Runner, '
    'CheckpointHook, resume, SeparateOptimWrapperConstructor, '
    'DistributedDataParallel reducer',
    stub='network, data, moment of death, collectives between ranks')
ASSUMPTIONS = ['checkpoint files are written completely by mmengine',
               'architecture weights equal up to 1e-5 may be decided either '
               'way, but alike on all ranks']
MUST_REACH = ['lives', 'resume-before', 'resume-after', 'ranks', 'derive',
              'auto-fixed', 'finetune', 'route', 'reloaded', 'alias',
              'single-option', 'ranks-finetune', 'ranks-auto-fixed']


def gen(rng, i, tier):
    big = tier != 'quick'
    mode = rng.weighted([(4, 'lives'), (3, 'ranks'), (6, 'derive')])
    onehot = mode != 'derive' or rng.chance(0.3)
    net = gen_diff(rng, onehot, 4 if big else 3)
    if mode != 'derive' and rng.chance(0.5):
        net['fix'] = rng.choice([0.2, 0.4, 0.6, 0.9])
    cfg = dict(mode=mode, net=net, onehot=onehot, wseed=rng.seed32(),
               spread=rng.choice([0.1, 1., 4.]), alr=rng.choice([0.1, 2.]),
               flops=rng.choice([0, 1e9]))
    plan = dict(cfg=cfg, seed=rng.seed32())
    if mode == 'derive':
        plan['ops'] = [[rng.choice(['arch', 'arch', 'train', 'derive']),
                        rng.seed32()] for _ in range(rng.randint(1, 5))]
        plan['ops'].append(['derive', rng.seed32()])
        return plan
    cfg['pre'] = rng.choice([0, 0, 1])
    cfg['fin'] = cfg['pre'] + rng.randint(1, 2)
    cfg['max'] = cfg['fin'] + rng.randint(1, 2)
    cfg['per'] = rng.randint(1, 3)
    if mode == 'ranks':
        cfg['n'] = rng.choice([2, 2, 3])
        plan['sched'] = [rng.randint(0, 5) for _ in range(60)]
        return plan
    lives = []
    for _ in range(rng.randint(1, 3)):
        pt = rng.choice(['after_train_iter', 'before_train_iter',
                         'after_train_epoch', 'before_train_epoch',
                         'after_save_checkpoint'])
        top = cfg['max'] * cfg['per']
        at = rng.randint(0, top - 1 if 'iter' in pt else cfg['max'] - 1)
        lives.append([pt, at])
    plan['lives'] = lives
    return plan


def simplify(plan):
    cfg = plan['cfg']
    for n in simplify_diff(cfg['net']):
        yield dict(plan, cfg=dict(cfg, net=n))
    if 'fix' in cfg['net']:
        n = dict(cfg['net'])
        n.pop('fix')
        yield dict(plan, cfg=dict(cfg, net=n))


def landscape(algo, seed, spread):
    """Generated architecture weights."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in sorted(algo.mutator.named_parameters()):
            p.copy_(torch.randn(p.shape, generator=g) * spread)


def best(alpha, k=1):
    """The admissible sets of k largest options: must-have, may-have."""
    a = alpha.detach().double()
    kth = a.sort(descending=True).values[min(k, len(a)) - 1]
    must = {i for i in range(len(a)) if a[i] > kth + 1e-5}
    may = {i for i in range(len(a)) if a[i] >= kth - 1e-5}
    return must, may, min(k, len(a))


def is_best(names, chosen, alpha, k=1):
    chosen = [chosen] if isinstance(chosen, str) else list(chosen)
    must, may, k = best(alpha, k)
    ids = {names.index(c) for c in chosen}
    return must <= ids <= may and len(ids) == len(chosen) == k


class Book:
    """Follows the choices of one DSNAS model."""

    def __init__(self, algo, cfg, sim, names=None):
        self.sim, self.cfg = sim, cfg
        self.blocks = list(algo.architecture.blocks)
        self.names = names or [list(b.choices) for b in self.blocks]
        self.algo = algo
        self.fixed = {}
        self.alpha = None

    def params(self):
        return [self.algo.mutator.arch_params[f'module_{k}']
                for k in range(len(self.blocks))]

    def before(self):
        self.alpha = [p.detach().clone() for p in self.params()]

    def after(self, epoch):
        sim, cfg = self.sim, self.cfg
        thr = cfg['net'].get('fix', 1.0)
        for k, b in enumerate(self.blocks):
            p = F.softmax(self.alpha[k].double(), -1)
            gap = 1.0 if len(p) == 1 else float(
                p.topk(2).values[0] - p.topk(2).values[1])
            if len(p) == 1:
                sim.probe('single-option')
            if k in self.fixed:
                sim.check(b.is_fixed, 'unfixed', f'block {k} is searched '
                          'again')
                sim.check(list(b._candidates) == [self.fixed[k]], 'changed',
                          f'block {k} was fixed to {self.fixed[k]} and is '
                          f'now {list(b._candidates)}')
            elif b.is_fixed:
                ok = epoch >= cfg['fin'] or gap >= thr - 1e-5
                sim.check(ok, 'early', f'block {k} was fixed at epoch {epoch}'
                          f' with a lead of {gap:.4f} (threshold {thr}, '
                          f'finetuning from epoch {cfg["fin"]})')
                got = list(b._candidates)
                sim.check(len(got) == 1 and is_best(
                    self.names[k], got, self.alpha[k]), 'argmax', lambda: f'block {k} '
                    f'was fixed to {got} of {self.names[k]} with weights '
                    f'{self.alpha[k].tolist()}')
                if epoch < cfg['fin']:
                    sim.probe('auto-fixed')
                self.fixed[k] = got[0]
            else:
                sim.check(epoch < cfg['fin'], 'late', f'block {k} is still '
                          f'searched at epoch {epoch}, finetuning started '
                          f'at {cfg["fin"]}')
                sim.check(len(p) == 1 or gap < thr + 1e-5 or
                          thr >= 1, 'undecided', f'block {k} is not fixed '
                          f'though one option leads by {gap:.4f} (threshold '
                          f'{thr})')
            if b.is_fixed:
                cur = b._chosen
                sim.check(list(cur) == [self.fixed[k]], 'forward',
                          f'block {k} computes {cur}')
        sim.log('fixed', epoch, sorted(self.fixed.items()))
        sim.state([epoch, sorted(self.fixed.items()),
                   [tdigest(p) for p in self.params()]])

    def inert(self):
        """Architecture parameters no longer change a fixed network."""
        if len(self.fixed) < len(self.blocks):
            return
        m = copy.deepcopy(self.algo)
        m.eval()
        x = batch(5, 2, 6)['inputs']
        with torch.no_grad():
            y = m(x, mode='tensor')
            for p in m.mutator.parameters():
                p.copy_(torch.randn_like(p) * 5)
            z = m(x, mode='tensor')
        self.sim.check(torch.equal(y, z), 'inert', 'architecture parameters '
                       'still change the fixed network')


def make(cfg):
    a = build_dsnas(cfg['net'], cfg['wseed'], cfg['flops'], cfg['pre'],
                    cfg['fin'])
    landscape(a, cfg['wseed'], cfg['spread'])
    return a


# ---------------------------------------------------------------- lives

class Watch(Hook):
    priority = 'VERY_HIGH'

    def __init__(self, book, sim):
        self.book, self.sim = book, sim
        self.first = True

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        self.book.before()

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        self.book.after(runner.epoch)
        if runner.epoch >= self.book.cfg['fin']:
            self.sim.probe('finetune')
        self.sim.obs.append([runner.epoch, batch_idx,
                             {str(k): v for k, v in
                              self.book.fixed.items()}])


def life(plan, sim, lf, first, work):
    cfg = plan['cfg']
    a = make(cfg)
    a.init_weights = lambda: None
    book = Book(a, cfg, sim)
    hooks = [Watch(book, sim)]
    if lf:
        sim.arm('crash')
        hooks.append(Die(lf[0], lf[1], sim))
    ds = ListData(cfg['per'] * 2, seed=1, shape=(3, 6, 6),
                  classes=cfg['net']['classes'])

    def step(data, mode='loss'):
        return old(data, mode)
    old = a._run_forward
    ld = loader(ds, 2)
    coll = ld.collate_fn
    ld.collate_fn = lambda items: {k: v for k, v in coll(items).items()
                                   if k != 'idx'}
    if not first:
        ck = torch.load(last_ckpt(work), map_location='cpu')
        ep = ck['meta']['epoch']
        sim.probe('resume-after' if ep > cfg['fin'] else 'resume-before')
        sim.log('resume', ep)
    r = runner(work, a, dict(by_epoch=True, max_epochs=cfg['max']), ld,
               optim=dict(
                   constructor='mmrazor.SeparateOptimWrapperConstructor',
                   architecture=dict(optimizer=dict(
                       type='SGD', lr=0.1, momentum=0.9)),
                   mutator=dict(optimizer=dict(
                       type='SGD', lr=cfg['alr'], weight_decay=0.01))),
               hooks=hooks, ckpt=dict(interval=1), resume=not first,
               seed=plan['seed'] % 1000)
    r.train()
    book.inert()
    return dict(epoch=r.epoch)


def lives(plan, sim):
    cfg = plan['cfg']
    sim.probe('lives')
    work = os.path.join(sim.scratch, 'w')
    os.makedirs(work)
    for n, lf in enumerate(list(plan['lives']) + [None]):
        first = last_ckpt(work) is None
        kept = None if first else torch.load(
            last_ckpt(work), map_location='cpu')['meta']['epoch']
        mark = len(sim.obs)
        r = sim.process(life, plan, sim, lf, first, work)
        sim.log('life', r.status, lf)
        if r.status == 'error':
            sim.violate('unexpected', f'life {n} raised {r.exc}\n{r.tb}')
        seen = sim.obs[mark:]
        if kept is not None and kept > cfg['fin'] and seen:
            # the checkpoint was saved after the fixing epoch
            old = [o for o in sim.obs[:mark] if o[0] == kept - 1]
            if old:
                want = old[-1][2]
                for o in seen:
                    sim.check(o[2] == want, 'resumed', 'the architecture '
                              f'was {want} when the checkpoint was saved and '
                              f'is {o[2]} after resuming')
        if r.status == 'ok':
            sim.check(r.value['epoch'] == cfg['max'], 'epochs',
                      f'finished at epoch {r.value["epoch"]}')
            break


# ---------------------------------------------------------------- ranks

def ranks(plan, sim):
    cfg = plan['cfg']
    n = cfg['n']
    sim.probe('ranks')
    models = [make(cfg) for _ in range(n)]
    S = SimRanks(sim, n, plan['sched'],
                 rank_seed=lambda r: plan['seed'] % 1000 + 7 * r)
    books = [Book(m, cfg, sim) for m in models]

    def body(r):
        a = models[r]
        a.world_size = n
        hub = MessageHub.get_instance(f'c20-{plan["seed"]}-{r}')
        m = wrap(DSNASDDP, a, S, find_unused_parameters=True)
        ow = OptimWrapperDict(
            architecture=OptimWrapper(torch.optim.SGD(
                a.architecture.parameters(), lr=0.1, momentum=0.9)),
            mutator=OptimWrapper(torch.optim.SGD(
                a.mutator.parameters(), lr=cfg['alr'])))
        m.train()
        out = []
        for e in range(cfg['max']):
            hub.update_info('epoch', e)
            for it in range(cfg['per']):
                hub.update_info('iter', e * cfg['per'] + it)
                b = batch(plan['seed'] % 1000 + 31 * r + 100 * e + it, 2, 6,
                          cfg['net']['classes'])
                books[r].before()
                m.train_step(b, ow)
                books[r].after(e)
                out.append([e, sorted(books[r].fixed.items()),
                            [p.detach().clone() for p in
                             books[r].params()]])
        books[r].inert()
        return out
    outs = S.run(body)
    for r in outs:
        if r.exc is not None:
            sim.violate('unexpected', f'rank {r.i} raised '
                        f'{type(r.exc).__name__}: {r.exc}\n{r.tb}')
    for i, rows in enumerate(zip(*[o.result for o in outs])):
        e = rows[0][0]
        if e >= cfg['fin']:
            sim.probe('ranks-finetune')
        elif rows[0][1]:
            sim.probe('ranks-auto-fixed')
        for r in range(1, n):
            sim.check(rows[r][1] == rows[0][1], 'ranks-choice',
                      f'epoch {e}: rank 0 has fixed {rows[0][1]}, rank {r} '
                      f'{rows[r][1]}')


# ---------------------------------------------------------------- derive

def ref_block(net_block, block, chosen, feats, x, c):
    """What the block computes with the chosen options only."""
    if 'op' in net_block:
        names = [chosen] if isinstance(chosen, str) else chosen
        return sum(block._candidates[k](x) for k in names)
    raise AssertionError


def reference(arch, picks, x):
    """The supernet's own candidates, combined as the picks say."""
    h = F.relu(arch.bn(arch.stem(x)))
    feats = [h]
    for i, (nb, b) in enumerate(zip(arch.cfg['blocks'], arch.blocks)):
        p = picks[f'blocks.{i}']
        if 'op' in nb:
            h = b._candidates[p](feats[-1])
        else:
            n = len(nb['route'])
            h = 0
            for j in range(n):
                e = f'e{j}'
                if e in p:
                    inner = b._candidates[e]
                    h = h + inner._candidates[
                        picks[f'blocks.{i}._candidates.{e}']](
                            feats[j % len(feats)])
        feats.append(h)
    return arch.head(h.mean((2, 3)))


def derive(plan, sim):
    cfg = plan['cfg']
    sim.probe('derive')
    if cfg['onehot']:
        algo = build_dsnas(cfg['net'], cfg['wseed'])
    else:
        algo = build_darts(cfg['net'], cfg['wseed'])
    arch = algo.architecture
    hub = MessageHub.get_instance(f'c20-{plan["seed"]}')
    hub.update_info('epoch', 0)
    hub.update_info('iter', 0)
    ow = OptimWrapperDict(
        architecture=OptimWrapper(torch.optim.SGD(
            arch.parameters(), lr=0.1)),
        mutator=OptimWrapper(torch.optim.SGD(
            algo.mutator.parameters(), lr=cfg['alr'])))
    named = {n: m for n, m in arch.named_modules()
             if hasattr(m, 'sample_choice')}
    param = {}
    for g, ms in algo.mutator.search_groups.items():
        for m in ms:
            param[m] = algo.mutator.arch_params[g]
        if len(ms) > 1:
            sim.probe('alias')
            sim.check(len({tuple(m.choices) for m in ms}) == 1, 'group',
                      'a group of different choices')
    for i, (kind, seed) in enumerate(plan['ops']):
        if kind == 'arch':
            landscape(algo, seed, cfg['spread'])
        elif kind == 'train':
            algo.train()
            b = [batch(seed + k, 2, 6, cfg['net']['classes'])
                 for k in (0, 1)]
            torch.manual_seed(seed % 2**31)
            algo.train_step(b[0] if cfg['onehot'] else b, ow)
            if any(m.is_fixed for m in named.values()):
                break  # the lead of one option was complete
            if any(not p.isfinite().all() for p in algo.parameters()):
                break
        else:
            before = {k: v.clone() for k, v in algo.state_dict().items()}
            picks = algo.mutator.sample_choices()
            algo.mutator.set_choices(picks)
            got = {}
            for n, m in named.items():
                k = min(m.num_chosen, len(m.choices)) if isinstance(
                    m, DiffChoiceRoute) else 1
                if k > 1 or isinstance(m, DiffChoiceRoute):
                    sim.probe('route')
                c = m.current_choice
                sim.check(is_best(list(m.choices), c, param[m], k), 'argmax',
                          lambda: f'{n} was set to {c} of {m.choices} with '
                          f'weights {param[m].tolist()}')
                got[n] = c
            fix = convert_fix_subnet(export_fix_subnet(algo.architecture)[0])
            path = os.path.join(sim.scratch, f's{i}.yaml')
            dump(fix, path)
            after = algo.state_dict()
            sim.check(list(after) == list(before) and all(
                torch.equal(after[k], before[k]) for k in before), 'exported',
                'deriving changed the supernet')
            new = DiffNet(cfg['net'], cfg['onehot'])
            load_fix_subnet(new, load(path))
            left = [n for n, m in new.named_modules()
                    if hasattr(m, 'is_fixed') and not m.is_fixed]
            sim.check(not left, 'left', f'{left} are not fixed')
            miss, _ = new.load_state_dict(arch.state_dict(), strict=False)
            sim.check(not miss, 'weights', f'the supernet has no {miss}')
            sim.probe('reloaded')
            x = batch(seed, 2, 6)['inputs']
            algo.eval()
            new.eval()
            with torch.no_grad():
                y = new(x, mode='tensor')
                z = reference(arch, got, x)
            sim.check(torch.allclose(y, z, atol=1e-5, rtol=1e-4,
                                               equal_nan=True), 'output',
                      'the reloaded network computes something else')
            # searching goes on as if nothing had been derived
            sim.check(not any(m.is_fixed
                                           for m in named.values()), 'searching',
                      'deriving fixed the supernet')
        sim.log(kind, tdigest(torch.cat([p.reshape(-1) for p in
                                         algo.parameters()])))
        sim.state([kind, [tdigest(p) for p in algo.mutator.parameters()]])


def run(plan, sim):
    torch.manual_seed(plan['seed'] % 2**31)
    m = plan['cfg']['mode']
    dict(lives=lives, ranks=ranks, derive=derive)[m](plan, sim)
    for _ in range(MIN_STEPS):
        sim.log('end')
