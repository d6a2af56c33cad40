E_ = 'mmrazor/engine/runner/evolution_search_loop.py'
SEEDS = []

SEEDS.append(dict(
    id='c01-stale-resource', property='C01',
    needs='constraints plus a surviving offspring pool: the newly sampled '
    'candidates are appended behind the offspring, so their resources land '
    'on other candidates',
    breaks='recorded flops/params of candidates belong to other subnets',
    edits=[(E_, """                candidates_resources,
                start=len(self.candidates.data) - len(candidates_resources))
            assert""", """                candidates_resources,
                start=max(0, init_candidates - len(candidates_resources)))
            assert""")],
    demo='''
import sys
from demo_common import *
from mmrazor.engine.runner.utils import check_subnet_resources

seed(3)
m = supernet()
loop = evo(sys.argv[1], m, constraints_range=dict(flops=(0, 1e9)),
           num_candidates=6, top_k=3, num_mutation=2, num_crossover=1,
           max_epochs=3)
for _ in range(3):
    loop.sample_candidates()
    for s, f, p in zip(loop.candidates.subnets,
                       loop.candidates.resources('flops'),
                       loop.candidates.resources('params')):
        _, r = check_subnet_resources(m, s, loop.estimator,
                                      loop.constraints_range)
        if (r['flops'], r['params']) != (f, p):
            sys.exit(f'{s}: recorded {f} {p}, is {r}')
    loop.run_epoch()
'''))

SEEDS.append(dict(
    id='c01-skip-rescore', property='C01',
    needs='metric landscapes whose scores can be negative or zero and at '
    'least two epochs',
    breaks='a candidate whose score is not positive is dropped from the kept '
    'top-k although nothing better was scored',
    edits=[(E_, """        self.candidates.extend(self.top_k_candidates)
        self.candidates.sort_by(""", """        self.candidates.extend(
            [c for c, s in zip(self.top_k_candidates.data, scores_before)
             if s > 0])
        self.candidates.sort_by(""")],
    demo='''
import sys
from demo_common import *

seed(1)
me = Metric(lambda v: -((v * 977.0) % 100) - 1)
loop = evo(sys.argv[1], metric=me, num_candidates=3, top_k=3,
           num_mutation=1, num_crossover=1)
for _ in range(4):
    loop.run_epoch()
    want = sorted((round(x, 2) for x in me.seen), reverse=True)[:3]
    if loop.top_k_candidates.scores != want:
        sys.exit(f'top-k {loop.top_k_candidates.scores}, best seen {want}')
'''))

SEEDS.append(dict(
    id='c01-mutation-fallback', property='C01',
    needs='constraints so tight that every mutation fails the check until '
    'the iteration limit',
    breaks='the last failing mutant joins the next pool although it violates '
    'the constraints',
    edits=[(E_, """                random_subnet=mutation_candidate)
            if is_pass:
""", """                random_subnet=mutation_candidate)
            if is_pass or (mutate_iter == max_mutate_iters
                           and not mutation_candidates):
""")],
    demo='''
import sys
from demo_common import *
from mmrazor.engine.runner.utils import check_subnet_resources

m = supernet()
full = evo(sys.argv[1], m, constraints_range=dict(flops=(0, 1e9)))
seed(0)
subs = [m.mutator.sample_choices() for _ in range(24)]
fl = [check_subnet_resources(m, s, full.estimator, dict(flops=(0, 1e9)))[1][
    'flops'] for s in subs]
lo = min(fl)
for s in range(20):
    seed(s)
    loop = evo(sys.argv[1], m, constraints_range=dict(flops=(0, lo)),
               num_candidates=2, top_k=1, num_mutation=1, num_crossover=0,
               mutate_prob=1.0)
    loop.top_k_candidates.append([subs[fl.index(lo)]])
    for c in loop.gen_mutation_candidates().data:
        sub = eval(list(c)[0])
        ok, r = check_subnet_resources(m, sub, loop.estimator,
                                       loop.constraints_range)
        if not ok:
            sys.exit(f'offspring {sub} has {r}, allowed {lo}')
'''))

SEEDS.append(dict(
    id='c02-remove-before-save', property='C02',
    needs='a crash or write error while the searcher checkpoint is being '
    'written, with max_keep_ckpts=1',
    breaks='the only good checkpoint is deleted before its successor is '
    'complete',
    edits=[(E_, """            save_for_resume = dict()
            save_for_resume['_epoch'] = self._epoch
""", """            if self.max_keep_ckpts > 0:
                # make room for the new checkpoint first
                for _step in range(1, self._epoch + 1 - self.max_keep_ckpts):
                    ckpt_path = osp.join(self.runner.work_dir,
                                         f'search_epoch_{_step}.pkl')
                    if osp.isfile(ckpt_path):
                        os.remove(ckpt_path)
            save_for_resume = dict()
            save_for_resume['_epoch'] = self._epoch
"""), (E_, """
            if self.max_keep_ckpts > 0:
                cur_ckpt = self._epoch + 1
                redundant_ckpts = range(1, cur_ckpt - self.max_keep_ckpts)
                for _step in redundant_ckpts:
                    ckpt_path = osp.join(self.runner.work_dir,
                                         f'search_epoch_{_step}.pkl')
                    if osp.isfile(ckpt_path):
                        os.remove(ckpt_path)
""", "")],
    demo='''
import builtins
import os
import sys
from demo_common import *
from mmengine import fileio

work = sys.argv[1]
seed(0)
loop = evo(work, max_keep_ckpts=1, max_epochs=3)
real = builtins.open


def failing(p, mode='r', *a, **k):
    f = real(p, mode, *a, **k)
    if 'w' in mode and str(p).endswith('search_epoch_3.pkl'):
        f.write(b'torn')
        f.close()
        raise OSError(28, 'No space left on device')
    return f


builtins.open = failing
try:
    loop.run()
    sys.exit('the disk was full')
except OSError:
    pass
builtins.open = real
good = []
for n in sorted(os.listdir(work)):
    try:
        good.append(fileio.load(os.path.join(work, n))['_epoch'])
    except Exception:
        pass
if 2 not in good:
    sys.exit(f'nothing to resume from: {os.listdir(work)}')
'''))

SEEDS.append(dict(
    id='c02-topk-trim', property='C02',
    needs='a resume after more epochs than max_keep_ckpts with top_k larger '
    'than max_keep_ckpts',
    breaks='the saved top-k is cut to max_keep_ckpts entries, so a resumed '
    'search has lost candidates an uninterrupted one would still hold',
    edits=[(E_, """            for k in ['candidates', 'top_k_candidates']:
                save_for_resume[k] = getattr(self, k)
""", """            for k in ['candidates', 'top_k_candidates']:
                save_for_resume[k] = getattr(self, k)
                if 0 < self.max_keep_ckpts < self._epoch:
                    # keep the files of a long search small
                    save_for_resume[k] = Candidates(
                        save_for_resume[k].data[:self.max_keep_ckpts])
""")],
    demo='''
import os
import sys
from demo_common import *

work = sys.argv[1]
seed(0)
a = evo(work, max_epochs=3, max_keep_ckpts=2, num_candidates=5, top_k=4)
a.run()
b = evo(work, max_epochs=3, max_keep_ckpts=2, num_candidates=5, top_k=4,
        resume_from=os.path.join(work, 'search_epoch_3.pkl'))
b.run()
if b.top_k_candidates.scores != a.top_k_candidates.scores:
    sys.exit(f'{b.top_k_candidates.scores} != {a.top_k_candidates.scores}')
'''))

RANKS = '''
import os
import sys
import torch.distributed as dist
import torch.multiprocessing as mp
from datetime import timedelta
from demo_common import *


class Wrapped(nn.Module):

    def __init__(self, m):
        super().__init__()
        self.module = m

    def val_step(self, d):
        return self.module.val_step(d)


def mean(v):
    t = torch.tensor([v], dtype=torch.float64)
    dist.all_reduce(t)
    return float(t) / dist.get_world_size()


def init(rank, work, n):
    torch.set_num_threads(1)
    dist.init_process_group(
        'gloo', init_method=f'file://{work}/store', rank=rank, world_size=n,
        timeout=timedelta(seconds=40))
    seed(100 + rank)
'''

SEEDS.append(dict(
    id='c03-broadcast-if-new', property='C03',
    needs='a generation whose offspring already fill the pool, so rank 0 '
    'samples nothing new while the other ranks wait for the broadcast',
    breaks='ranks issue different collectives and deadlock',
    edits=[(E_, """        # broadcast candidates to val with multi-GPUs.
        broadcast_object_list(self.candidates.data)
""", """        # broadcast candidates to val with multi-GPUs.
        if self.runner.rank != 0 or init_candidates < self.num_candidates:
            broadcast_object_list(self.candidates.data)
""")],
    demo=RANKS + '''

def main(rank, work):
    init(rank, work, 2)
    loop = evo(work, rank=rank, distributed=True, wrap=Wrapped,
               metric=Metric(reduce=mean), num_candidates=4, num_mutation=2,
               num_crossover=2, max_epochs=2)
    loop.run()
    out = [None, None]
    dist.all_gather_object(out, loop.top_k_candidates.data)
    assert out[0] == out[1], out


if __name__ == '__main__':
    mp.spawn(main, (sys.argv[1], ), 2)
'''))

SEEDS.append(dict(
    id='c03-all-ranks-prune', property='C03',
    needs='more epochs than max_keep_ckpts and a rank other than 0 that '
    'reaches the retention step while an old checkpoint still exists',
    breaks='a rank other than 0 deletes searcher checkpoints',
    edits=[(E_, """
            if self.max_keep_ckpts > 0:
                cur_ckpt = self._epoch + 1
                redundant_ckpts = range(1, cur_ckpt - self.max_keep_ckpts)
                for _step in redundant_ckpts:
                    ckpt_path = osp.join(self.runner.work_dir,
                                         f'search_epoch_{_step}.pkl')
                    if osp.isfile(ckpt_path):
                        os.remove(ckpt_path)
""", """
        if self.max_keep_ckpts > 0:
            cur_ckpt = self._epoch + 1
            redundant_ckpts = range(1, cur_ckpt - self.max_keep_ckpts)
            for _step in redundant_ckpts:
                ckpt_path = osp.join(self.runner.work_dir,
                                     f'search_epoch_{_step}.pkl')
                if osp.isfile(ckpt_path):
                    os.remove(ckpt_path)
""")],
    demo='''
import os
import sys
from demo_common import *

work = sys.argv[1]
seed(0)
a = evo(work, max_epochs=2, max_keep_ckpts=0)
a.run()
b = evo(work, max_epochs=3, max_keep_ckpts=1, rank=1)
b._epoch, b.top_k_candidates = 2, a.top_k_candidates
before = sorted(os.listdir(work))
b._save_searcher_ckpt()
if sorted(os.listdir(work)) != before:
    sys.exit(f'rank 1 changed {before} to {sorted(os.listdir(work))}')
'''))

SEEDS.append(dict(
    id='c03-calib-rank-break', property='C03',
    needs='BN calibration during a distributed search with ranks whose '
    'loaders hold different amounts of data',
    breaks='ranks run different numbers of reductions, and disagree or hang',
    edits=[('mmrazor/engine/runner/utils/calibrate_bn_mixin.py',
            """        remaining = calibrate_sample_num
""", """        remaining = calibrate_sample_num
        if get_rank() != 0:
            # the other ranks only have to confirm rank 0's statistics
            remaining = min(remaining, len(dataloader))
"""), ('mmrazor/engine/runner/utils/calibrate_bn_mixin.py',
       """from mmrazor.""", """from mmengine.dist import get_rank

from mmrazor.""")],
    demo=''))
SEEDS.pop()
