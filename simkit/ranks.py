"""SimRanks: N ranks of a distributed job as parked threads in one process.

Exactly one rank runs at a time. At every yield point (a collective, a disk
operation, an explicit ``yield_``) the running rank parks and the scheduler
picks the next runnable rank from an explicit decision list (``sched``), then
round-robin when the list is used up. Random-number states and mmengine's
process-global managers are swapped with the rank, so each rank sees its own.

torch.distributed is replaced by in-memory collectives. A collective completes
when every rank of the world has arrived with a matching call; mismatching
calls, a rank finishing or dying while others wait, and missing progress are
reported.
"""
import contextlib
import random
import threading

import numpy as np
import torch
import torch.distributed as dist

from .sim import HarnessError, SimCrash, Violation, sdigest, tdigest


class _Abort(BaseException):
    """Unwinds the parked ranks after the run has been decided."""


class _Rank:

    def __init__(self, i):
        self.i = i
        self.go = threading.Semaphore(0)
        self.state = 'ready'     # ready | wait | done | failed
        self.op = None           # collective waited for
        self.exc = None
        self.result = None
        self.ncoll = 0
        self.saved = None
        self.calls = []


_MANAGERS = None


def _managers():
    global _MANAGERS
    if _MANAGERS is None:
        from mmengine.logging import MessageHub, MMLogger
        from mmengine.visualization import Visualizer
        from mmengine.registry import DefaultScope
        _MANAGERS = [MessageHub, MMLogger, Visualizer, DefaultScope]
    return _MANAGERS


class SimRanks:

    def __init__(self, sim, n, sched=(), rank_seed=None, max_steps=200000):
        self.sim = sim
        self.n = n
        self.sched = list(sched)
        self.si = 0
        self.rr = 0
        self.ranks = [_Rank(i) for i in range(n)]
        self.cur = None
        self.main = threading.Semaphore(0)
        self.rank_seed = rank_seed or (lambda r: 0)
        self.inter = []            # interleaving record
        self.max_steps = max_steps
        self.steps = 0
        self.abort = False
        self.fatal = None

    # -- per-rank process-global state
    def _save(self, rk):
        rk.saved = (random.getstate(), np.random.get_state(),
                    torch.get_rng_state(),
                    [(m, m._instance_dict) for m in _managers()])

    def _restore(self, rk):
        if rk.saved is None:
            s = self.rank_seed(rk.i)
            random.seed(s)
            np.random.seed(s % (2**32))
            torch.manual_seed(s)
            from collections import OrderedDict
            for m in _managers():
                m._instance_dict = OrderedDict()
            return
        a, b, c, d = rk.saved
        random.setstate(a)
        np.random.set_state(b)
        torch.set_rng_state(c)
        for m, inst in d:
            m._instance_dict = inst

    # -- scheduling (runs in whichever thread is parking)
    def _runnable(self):
        return [r for r in self.ranks if r.state == 'ready']

    def _pick(self, runnable):
        if self.si < len(self.sched):
            k = self.sched[self.si] % len(runnable)
            self.si += 1
        else:
            k = 0
            for j, r in enumerate(runnable):
                if r.i > self.rr:
                    k = j
                    break
            self.rr = runnable[k].i
        return runnable[k]

    def _dispatch(self):
        """Hand control to the next rank, or back to the main thread."""
        self.steps += 1
        run = self._runnable()
        if self.fatal is not None or not run or self.steps > self.max_steps:
            self.main.release()
            return
        r = self._pick(run)
        r.go.release()

    def _park(self, rk):
        self._save(rk)
        self._dispatch()
        rk.go.acquire()
        if self.abort:
            raise _Abort()
        self._restore(rk)
        self.cur = rk

    def rank(self):
        rk = getattr(_tls, 'rank', None)
        return rk.i if rk is not None else 0

    def yield_(self, why='yield'):
        rk = getattr(_tls, 'rank', None)
        if rk is None:
            return
        if len(self._runnable()) > 1:
            self.inter.append((rk.i, why))
            self._park(rk)

    def collective(self, name, sig, payload):
        """Blocks until all ranks arrived; returns the list of payloads."""
        rk = _tls.rank
        if self.n == 1:
            return [payload]
        rk.op = (rk.ncoll, name, sig, payload)
        rk.ncoll += 1
        rk.calls.append((name, sig))
        rk.state = 'wait'
        self.inter.append((rk.i, name))
        waiting = [r for r in self.ranks if r.state == 'wait']
        if len(waiting) == self.n:
            heads = [(r.op[0], r.op[1], r.op[2]) for r in self.ranks]
            if any(h != heads[0] for h in heads[1:]):
                self.fatal = ('collective-mismatch',
                              'ranks issue different collectives: ' +
                              '; '.join(f'rank {i}: #{h[0]} {h[1]} {h[2]}'
                                        for i, h in enumerate(heads)))
            else:
                payloads = [r.op[3] for r in self.ranks]
                for r in self.ranks:
                    r.result = payloads
                    r.state = 'ready'
                self.sim.log('coll', heads[0][1], heads[0][2])
        self._park(rk)
        return rk.result

    # -- entry
    def run(self, fn, timeout=None):
        """Run fn(rank) on every rank; returns [(status, value/exc)]."""

        def body(rk):
            rk.go.acquire()
            _tls.rank = rk
            if self.abort:
                return
            self._restore(rk)
            self.cur = rk
            try:
                rk.result = fn(rk.i)
                rk.state = 'done'
            except _Abort:
                return
            except SimCrash as e:
                rk.state, rk.exc = 'failed', e
                self.fatal = ('crash', 'crash')
            except BaseException as e:  # noqa
                import traceback
                rk.tb = traceback.format_exc()
                rk.state, rk.exc = 'failed', e
                if isinstance(e, HarnessError):
                    self.fatal = ('harness', e)
                if isinstance(e, Violation):
                    self.fatal = (e.key, e.msg)
            self.inter.append((rk.i, rk.state))
            self._save(rk)
            self._dispatch()

        threads = [threading.Thread(target=body, args=(r, ), daemon=True)
                   for r in self.ranks]
        keep = (random.getstate(), np.random.get_state(),
                torch.get_rng_state(),
                [(m, m._instance_dict) for m in _managers()])
        with self.patched():
            for t in threads:
                t.start()
            self._dispatch()
            self.main.acquire()
            self.abort = True
            for r in self.ranks:
                if r.state in ('ready', 'wait'):
                    r.go.release()
            for t in threads:
                t.join(20)
        random.setstate(keep[0])
        np.random.set_state(keep[1])
        torch.set_rng_state(keep[2])
        for m, inst in keep[3]:
            m._instance_dict = inst
        self.sim.state('inter', self.inter)
        if self.fatal is not None:
            if self.fatal[0] == 'crash':
                raise SimCrash()
            if self.fatal[0] == 'harness':
                raise self.fatal[1]
            raise Violation(*self.fatal)
        if self.steps > self.max_steps:
            raise Violation('no-progress', 'step bound exceeded')
        stuck = [r for r in self.ranks if r.state == 'wait']
        if stuck:
            other = [f'rank {r.i} {r.state}' +
                     (f' ({type(r.exc).__name__}: {r.exc})' if r.exc else '')
                     for r in self.ranks if r.state != 'wait']
            raise Violation(
                'deadlock',
                '; '.join(f'rank {r.i} waits in #{r.op[0]} {r.op[1]}'
                          for r in stuck) + ' while ' + '; '.join(other))
        return self.ranks

    # -- torch.distributed
    @contextlib.contextmanager
    def patched(self):
        S = self
        saved = {}

        def put(mod, name, f):
            saved[(mod, name)] = getattr(mod, name)
            setattr(mod, name, f)

        def tsig(t):
            return (tuple(t.shape), str(t.dtype))

        class Work:

            def wait(self, *a):
                return True

            def is_completed(self):
                return True

        def ret(async_op):
            return Work() if async_op else None

        def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None,
                       async_op=False):
            vals = S.collective('all_reduce', (tsig(tensor), str(op)),
                                tensor.detach().clone())
            with torch.no_grad():
                out = vals[0].clone()
                for v in vals[1:]:
                    if op == dist.ReduceOp.SUM or op == dist.ReduceOp.AVG:
                        out = out + v
                    elif op == dist.ReduceOp.PRODUCT:
                        out = out * v
                    elif op == dist.ReduceOp.MAX:
                        out = torch.maximum(out, v)
                    elif op == dist.ReduceOp.MIN:
                        out = torch.minimum(out, v)
                    else:
                        raise NotImplementedError(str(op))
                if op == dist.ReduceOp.AVG:
                    out = out / S.n
                tensor.data.copy_(out)
            return ret(async_op)

        def broadcast(tensor, src=0, group=None, async_op=False):
            vals = S.collective('broadcast', (tsig(tensor), src),
                                tensor.detach().clone())
            with torch.no_grad():
                tensor.data.copy_(vals[src])
            return ret(async_op)

        def all_gather(tensor_list, tensor, group=None, async_op=False):
            vals = S.collective('all_gather', (tsig(tensor), ),
                                tensor.detach().clone())
            with torch.no_grad():
                for o, v in zip(tensor_list, vals):
                    o.copy_(v)
            return ret(async_op)

        def reduce(tensor, dst=0, op=dist.ReduceOp.SUM, group=None,
                   async_op=False):
            vals = S.collective('reduce', (tsig(tensor), dst, str(op)),
                                tensor.detach().clone())
            if S.rank() == dst:
                with torch.no_grad():
                    tensor.data.copy_(sum(vals[1:], vals[0].clone()))
            return ret(async_op)

        import pickle

        def broadcast_object_list(object_list, src=0, group=None,
                                  device=None):
            data = [pickle.dumps(o) for o in object_list] \
                if S.rank() == src else None
            vals = S.collective('broadcast_object_list',
                                (len(object_list), src), data)
            if S.rank() != src:
                for i, b in enumerate(vals[src]):
                    object_list[i] = pickle.loads(b)

        def all_gather_object(object_list, obj, group=None):
            vals = S.collective('all_gather_object', (), pickle.dumps(obj))
            for i, b in enumerate(vals):
                object_list[i] = pickle.loads(b)

        def gather_object(obj, object_gather_list=None, dst=0, group=None):
            vals = S.collective('gather_object', (dst, ), pickle.dumps(obj))
            if S.rank() == dst:
                for i, b in enumerate(vals):
                    object_gather_list[i] = pickle.loads(b)

        def barrier(group=None, async_op=False, device_ids=None):
            S.collective('barrier', (), None)
            return ret(async_op)

        for mod in (dist, dist.distributed_c10d):
            for name, f in dict(
                    is_initialized=lambda: True,
                    get_rank=lambda group=None: S.rank(),
                    get_world_size=lambda group=None: S.n,
                    get_backend=lambda group=None: 'gloo',
                    all_reduce=all_reduce, broadcast=broadcast,
                    all_gather=all_gather, reduce=reduce,
                    broadcast_object_list=broadcast_object_list,
                    all_gather_object=all_gather_object,
                    gather_object=gather_object,
                    barrier=barrier,
                    _get_default_group=lambda: None).items():
                if hasattr(mod, name):
                    put(mod, name, f)
        import mmengine.dist.utils as mdu
        import mmengine.dist.dist as mdd
        for mod in (mdu, mdd):
            if hasattr(mod, 'get_default_group'):
                put(mod, 'get_default_group', lambda: None)
            if hasattr(mod, 'get_comm_device'):
                put(mod, 'get_comm_device',
                    lambda group=None: torch.device('cpu'))
            if hasattr(mod, 'get_data_device'):
                pass
        try:
            yield self
        finally:
            for (mod, name), f in saved.items():
                setattr(mod, name, f)


_tls = threading.local()
