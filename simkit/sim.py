"""One simulated run: trace, clock, fault accounting, process lives.

A run executes in a child forked from a parent that has imported everything and
run nothing, so every run starts from the same memory image.  Inside a run,
``Sim.process`` forks once more for every *process life* of the system under
test, so that a crash leaves nothing behind but the files in the scratch
directory, exactly as a killed process would.
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import traceback


class Violation(Exception):
    """The property is broken. ``key`` identifies the kind of failure (stable
    across seeds), ``msg`` says what happened."""

    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.msg = msg

    def __reduce__(self):
        return (Violation, (self.key, self.msg))


class HarnessError(Exception):
    """The machinery, not the code under test, misbehaved."""


class SimCrash(BaseException):
    """The simulated machine dies here. A BaseException so that no handler of
    the code under test can survive it."""


class ProcResult:

    def __init__(self, status, value=None, exc=None, tb=''):
        self.status = status  # ok | crash | error
        self.value = value
        self.exc = exc        # 'Type: message' of an exception that escaped
        self.tb = tb

    def __repr__(self):
        return f'ProcResult({self.status}, {self.exc})'


def norm(x):
    """JSON-able, exact, order-preserving rendering of an observation."""
    import numpy as np
    import torch
    if isinstance(x, torch.Tensor):
        return tdigest(x)
    if isinstance(x, (np.floating, float)):
        return float(x).hex()
    if isinstance(x, (np.integer, )):
        return int(x)
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return type(x).__name__


def tdigest(t):
    import torch
    t = t.detach().cpu().contiguous()
    h = hashlib.sha256(str((t.dtype, tuple(t.shape))).encode())
    if t.dtype == torch.bfloat16:
        t = t.float()
    h.update(t.numpy().tobytes())
    return 't' + h.hexdigest()[:16]


def sdigest(sd):
    """Digest of a state dict (or any mapping of tensors)."""
    h = hashlib.sha256()
    for k in sd:
        v = sd[k]
        h.update(str(k).encode())
        h.update((tdigest(v) if hasattr(v, 'detach') else repr(v)).encode())
    return h.hexdigest()[:16]


class Sim:

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch          # directory removed after the run
        self.trace = []
        self.clock = 1_600_000_000.0
        self.clock0 = self.clock
        self.faults = {}                # kind -> times it actually fired
        self.armed = {}                 # kind -> times it was planned
        self.probes = {}                # rare condition -> times reached
        self.states = set()             # distinct-state digests
        self.steps = 0
        self.lives = 0
        self.obs = []                   # observations, survive a crash

    # -- recording
    def log(self, *ev):
        self.trace.append([self._clean(norm(e)) for e in ev])
        self.steps += 1

    def _clean(self, x):
        if isinstance(x, str):
            return x.replace(self.scratch, '<scratch>')
        if isinstance(x, list):
            return [self._clean(y) for y in x]
        if isinstance(x, dict):
            return {self._clean(k): self._clean(v) for k, v in x.items()}
        return x

    def tick(self, seconds):
        self.clock += seconds

    def fired(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def arm(self, kind, n=1):
        self.armed[kind] = self.armed.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *x):
        self.states.add(
            hashlib.sha256(json.dumps(norm(list(x))).encode()).hexdigest()[:12])

    def violate(self, key, msg):
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        if isinstance(cond, str) and not isinstance(key, str):
            raise HarnessError('check() got a string as its condition')
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def trace_hash(self):
        return hashlib.sha256(
            json.dumps(self.trace).encode()).hexdigest()[:24]

    def export(self):
        return dict(trace=self.trace, clock=self.clock, faults=self.faults,
                    armed=self.armed, probes=self.probes,
                    states=sorted(self.states), steps=self.steps,
                    lives=self.lives, obs=self.obs)

    def absorb(self, d):
        self.trace = d['trace']
        self.clock = d['clock']
        self.faults = d['faults']
        self.armed = d['armed']
        self.probes = d['probes']
        self.states = set(d['states'])
        self.steps = d['steps']
        self.lives = d['lives']
        self.obs = d['obs']

    # -- process lives
    def process(self, fn, *args, timeout=240):
        """Run ``fn(*args)`` as one process life. Its memory is lost when it
        ends; files in the scratch directory and the run's trace stay."""
        self.lives += 1
        out = in_child(lambda: self._life(fn, args), timeout)
        self.absorb(out['sim'])
        if out['status'] == 'violation':
            raise Violation(*out['value'])
        if out['status'] == 'harness':
            raise HarnessError(out['exc'] + '\n' + out['tb'])
        return ProcResult(out['status'], out['value'], out['exc'], out['tb'])

    def _life(self, fn, args):
        status, value, exc, tb = 'ok', None, None, ''
        try:
            value = fn(*args)
        except Violation as v:
            status, value = 'violation', (v.key, v.msg)
        except SimCrash:
            status = 'crash'
        except HarnessError as e:
            status, exc, tb = 'harness', repr(e), traceback.format_exc()
        except BaseException as e:  # noqa
            frames = traceback.extract_tb(e.__traceback__)
            status = 'error' if any(
                '/mmrazor/' in f.filename and '/verif/' not in f.filename
                for f in frames) else 'harness'
            exc = f'{type(e).__name__}: {e}'
            tb = traceback.format_exc()
        return dict(status=status, value=value, exc=exc, tb=tb,
                    sim=self.export())


def in_child(fn, timeout):
    """Fork, evaluate fn in the child, return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            res = fn()
            signal.alarm(0)
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb', closefd=True) as f:
                f.write(data)
            os._exit(0)
        except BaseException:  # noqa
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(70)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            raise HarnessError(f'life exceeded {timeout}s of wall time')
        raise HarnessError(f'child ended with status {st}')
    return pickle.loads(data)
