"""Process lives that are real mmengine Runner trainings: model, loop, hooks,
checkpoints and resume are the shipped code; the data, the moment of death and
the failures are simulated."""
import glob
import os

import torch
from mmengine.hooks import Hook
from mmengine.runner import Runner
from torch.utils.data import DataLoader, Dataset

import mmrazor.engine  # noqa
import mmrazor.models  # noqa
from simkit import SimCrash


class ListData(Dataset):
    """Samples (x_i, y_i); reading sample ``bad`` fails."""
    METAINFO = dict(classes=('a', 'b'))
    metainfo = METAINFO

    def __init__(self, n, seed=0, shape=(3, 8, 8), classes=2, seen=None):
        g = torch.Generator().manual_seed(seed)
        self.x = torch.randn((n, ) + tuple(shape), generator=g)
        self.y = torch.randint(0, classes, (n, ), generator=g)
        self.seen = seen
        self.bad = None

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        if self.bad is not None and self.bad == i:
            raise OSError(5, 'Input/output error')
        if self.seen is not None:
            self.seen.append(i)
        return dict(inputs=self.x[i], data_samples=self.y[i], idx=i)


def collate(items):
    return dict(inputs=torch.stack([b['inputs'] for b in items]),
                data_samples=torch.stack([b['data_samples'] for b in items]),
                idx=[b['idx'] for b in items])


def loader(ds, batch=2, sampler=None, drop_last=False):
    return DataLoader(ds, batch_size=batch, sampler=sampler,
                      collate_fn=collate, drop_last=drop_last)


class Die(Hook):
    """The process dies at one of the runner's own hook points."""
    priority = 'LOWEST'

    def __init__(self, point, at, sim=None):
        self.at = at

        def f(runner, *a, **k):
            if self.at == 0:
                if sim is not None:
                    sim.fired('crash')
                raise SimCrash()
            self.at -= 1
        setattr(self, point, f)


def runner(work_dir, model, train_cfg, train_loader, optim=None, hooks=(),
           ckpt=None, resume=False, schedulers=None, seed=3, val=None,
           test=None, model_wrapper_cfg=None, load_from=None):
    os.makedirs(work_dir, exist_ok=True)
    d = dict(logger=None, timer=None)
    d['checkpoint'] = dict(type='CheckpointHook', **ckpt) if ckpt else None
    kw = {}
    if val:
        kw.update(val)
    if test:
        kw.update(test)
    return Runner(
        model, work_dir, train_dataloader=train_loader,
        train_cfg=train_cfg,
        optim_wrapper=None if train_cfg is None else optim or dict(
            optimizer=dict(type='SGD', lr=0.05, momentum=0.9)),
        param_scheduler=schedulers, default_hooks=d, custom_hooks=list(hooks),
        log_level='CRITICAL', resume=resume, load_from=load_from,
        default_scope='mmrazor', experiment_name='sim',
        randomness=dict(seed=seed), **kw)


def last_ckpt(work_dir):
    p = os.path.join(work_dir, 'last_checkpoint')
    return open(p).read().strip() if os.path.exists(p) else None


def ckpts(work_dir):
    return sorted(glob.glob(os.path.join(work_dir, '*.pth')))
