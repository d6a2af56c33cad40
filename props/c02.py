"""C02: an evolution search killed anywhere resumes without losing work."""
import os

from simkit import SimCrash
from simkit.disk import SimDisk
from . import evo
from .c01 import simplify as _simplify

ID = 'C02'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 140, 9000
MIN_STEPS = 6
RULE = ('A run draws a search configuration and a list of process lives. '
        'Every life runs the real search on a simulated disk until it '
        'finishes or its crash (at a file operation, possibly after a torn '
        'write, or at an evaluation) or I/O error strikes; memory is lost, '
        'files stay, and the next life resumes from the newest loadable '
        'searcher checkpoint. The last life has no fault.')
STATE_MEASURE = 'digest of (life outcome, newest checkpoint, files left)'
COMPONENTS = dict(
    real='EvolutionSearchLoop with resume/save/retention, fileio, pickle, '
    'Candidates, mutator, estimator, SPOS, torch forward',
    stub='disk (real files, simulated failures), process death (fork), '
    'runner, loader, metric, clock')
ASSUMPTIONS = [
    'crash model is process death: data handed to the OS survives, buffered '
    'data is lost', 'the launcher resumes from the newest loadable checkpoint']
MUST_REACH = ['resumed-mid-search', 'torn-checkpoint', 'resumed-after-end',
              'crash-in-retention']


def gen(rng, i, tier):
    cfg = evo.gen_cfg(rng, small=True)
    cfg['calib'] = rng.choice([-1, -1, -1, 3])
    lives = []
    for _ in range(rng.weighted([(5, 1), (3, 2), (2, 3)])):
        r = rng.random()
        if r < 0.2:
            lives.append(dict(evals=rng.randint(1, cfg['n'] * cfg['epochs']),
                              faults=[]))
        else:
            lives.append(dict(evals=0, faults=[dict(
                op=rng.randint(0, 4 * cfg['epochs'] + 6),
                kind=rng.weighted([(4, 'crash'), (1, 'enospc'), (1, 'eio')]),
                frac=rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]))]))
    return dict(cfg=cfg, lives=lives, rs=rng.seed32())


def simplify(p):
    for q in _simplify(p):
        yield q


def run(plan, sim):
    cfg = plan['cfg']
    ref = evo.Ref(cfg)
    work = os.path.abspath('work')
    os.makedirs(work)
    sim.obs = []
    kept = {}        # epoch -> (state digest, scores) of the kept lineage
    saved_any = False
    lives = list(plan['lives']) + [dict(evals=0, faults=[])]
    for li, life in enumerate(lives):
        ck, names = evo.newest_ckpt(work)
        start = ck[0] if ck else 0
        kept = {e: v for e, v in kept.items() if e <= start}
        n0 = len(sim.obs)
        for f in life['faults']:
            sim.arm(f['kind'])
        r = sim.process(one_life, sim, cfg, ref.range, work,
                        os.path.relpath(ck[1]) if ck else None, life,
                        plan['rs'] + 7919 * li,
                        kept.get(start, (None, ))[0])
        sim.log('life', li, r.status, r.exc)
        last = start
        retention_cut = False
        for o in sim.obs[n0:]:
            if o[0] == 'epoch':
                _, e, dig, scores = o
                sim.check(e == last + 1, 'epoch-order', lambda:
                          f'epoch {e} completed after epoch {last}')
                last = e
                kept[e] = (dig, scores)
            elif o[0] == 'saved':
                saved_any = True
                if cfg['keep'] > 0:
                    sim.check(o[2] <= cfg['keep'], 'retention', lambda:
                              f'{o[2]} searcher checkpoints after the save '
                              f'of epoch {o[1]}, at most {cfg["keep"]}')
        if r.status == 'error' and not r.exc.startswith('OSError'):
            sim.violate('life-failed', f'life {li} died of {r.exc}')
        ck, names = evo.newest_ckpt(work)
        if saved_any:
            sim.check(ck is not None, 'no-loadable-checkpoint', lambda:
                      f'epoch {last} completed, files {sorted(names)}, none '
                      'loads')
            sim.check(ck[0] >= last - 1, 'lost-more-than-one-epoch', lambda:
                      f'newest loadable checkpoint is epoch {ck[0]}, epoch '
                      f'{last} had completed')
        if ck is not None:
            sim.check(int(ck[2]['_epoch']) == ck[0], 'checkpoint-epoch',
                      lambda: f'search_epoch_{ck[0]}.pkl holds epoch '
                      f'{ck[2]["_epoch"]}')
            got = digest(ck[2]['candidates'], ck[2]['top_k_candidates'])
            sim.check(got == kept[ck[0]][0], 'checkpoint-content', lambda:
                      f'checkpoint of epoch {ck[0]} is not the state the '
                      'search had then')
        if names and ck and max(names) > ck[0]:
            sim.probe('torn-checkpoint')
        if r.status != 'ok' and ck and 0 < ck[0] < cfg['epochs']:
            sim.probe('resumed-mid-search')
        if r.status != 'ok' and ck and ck[0] == cfg['epochs']:
            sim.probe('resumed-after-end')
        if r.status != 'ok' and cfg['keep'] > 0 and len(names) > cfg['keep']:
            sim.probe('crash-in-retention')
        sim.state(r.status, start, ck[0] if ck else 0, sorted(names))
        if r.status == 'ok':
            sim.check(last == cfg['epochs'], 'epoch-count', lambda:
                      f'search stopped after epoch {last} of '
                      f'{cfg["epochs"]} (resumed from {start})')
            top = r.value
            scored = [s for e in sorted(kept) for s in kept[e][1]]
            want = sorted(scored, reverse=True)[:cfg['k']]
            got = [t['score'] for t in top]
            sim.check(got == want, 'lost-best', lambda:
                      f'final top-k scores {got}, best over the kept epochs '
                      f'{want}')
            evo.check_final(sim, cfg, ref, work, top)
            return
    sim.violate('no-completion', 'the fault-free last life did not finish')


def digest(cand, top):
    from simkit.sim import norm
    import hashlib
    import json
    return hashlib.sha256(json.dumps(norm(
        [evo.pool(cand), evo.pool(top)])).encode()).hexdigest()[:20]


def one_life(sim, cfg, rng_range, work, resume, life, seed, want):
    evo.seed_life(seed)
    st = dict(scores=[], n=0)

    def on_eval(algo, m):
        st['n'] += 1
        st['scores'].append(round(m[evo.KEY], 2) if m else 0.0)
        sim.tick(1.0)
        if life['evals'] and st['n'] == life['evals']:
            sim.fired('crash_in_eval')
            raise SimCrash()

    first = [True]

    def before(loop):
        st['scores'] = []
        if first[0] and resume is not None:
            got = digest(loop.candidates, loop.top_k_candidates)
            sim.check(got == want, 'resume-state', lambda:
                      f'resuming from {resume} does not restore the pools')
        first[0] = False

    def after(loop):
        sim.obs.append(('epoch', loop._epoch, digest(
            loop.candidates, loop.top_k_candidates), list(st['scores'])))
        sim.log('epoch', loop._epoch, st['scores'],
                loop.top_k_candidates.scores)

    def saved(loop):
        n = len([f for f in os.listdir(work)
                 if f.startswith('search_epoch_')])
        sim.obs.append(('saved', loop._epoch, n))

    with SimDisk(sim, work, life['faults']):
        loop, algo = evo.build_loop(cfg, rng_range, work, resume=resume,
                                    on_eval=on_eval, before=before,
                                    after=after)
        loop.sim_saved = saved
        loop.run()
    return evo.pool(loop.top_k_candidates)
