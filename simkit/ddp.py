"""Real DistributedDataParallel wrappers on SimRanks.

Every rank's wrapper runs PyTorch's own reducer over a private one-member
process group; the reduction of a gradient bucket goes through a communication
hook to the simulated all_reduce, so that its completion is decided by the
simulator's schedule like that of any other collective. The reducer decides
itself whether, when and in which buckets gradients are reduced."""
import os

os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")

import torch  # noqa
import torch.distributed as dist  # noqa
from torch.distributed import HashStore  # noqa
from torch._C._distributed_c10d import _create_work_from_future  # noqa


class _Group(dist.ProcessGroup):
    """One member for PyTorch, S.n for the map of used parameters."""
    S = None

    def allreduce(self, tensors, opts=None):
        if self.S is not None:
            for t in tensors:
                vals = self.S.collective('ddp_used', tuple(t.shape),
                                         t.detach().clone())
                t.copy_(sum(vals[1:], vals[0].clone()))
        f = torch.futures.Future()
        f.set_result(tensors)
        return _create_work_from_future(f)

    def getBackendName(self):
        return 'sim'


def _group():
    st = HashStore()
    pg = _Group(st, 0, 1, dist.ProcessGroup.Options('gloo'))
    be = dist.ProcessGroupGloo(st, 0, 1)
    pg._register_backend(torch.device('cpu'),
                         dist.ProcessGroup.BackendType.GLOO, be)
    return pg


_patched = []


def wrap(cls, module, S, **kw):
    """cls(module) for the calling rank of S."""
    from torch.nn.parallel import distributed as D
    if not _patched:
        # membership questions about the private groups
        dist._rank_not_in_group = dist.distributed_c10d._rank_not_in_group = \
            lambda g: False
        D._rank_not_in_group = lambda g: False
        _patched.append(1)
    kw.setdefault('broadcast_buffers', False)
    pg = _group()
    ddp = cls(module=module, process_group=pg, **kw)
    pg.S = S

    def hook(state, bucket):
        b = bucket.buffer()
        vals = S.collective('ddp_bucket', (tuple(b.shape), bucket.index()),
                            b.detach().clone())
        out = sum(vals[1:], vals[0].clone()) / S.n
        f = torch.futures.Future()
        f.set_result(out)
        ddp.sim_reduced = getattr(ddp, 'sim_reduced', 0) + b.numel()
        return f
    ddp.register_comm_hook(None, hook)
    return ddp
