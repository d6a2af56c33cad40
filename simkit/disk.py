"""SimDisk: file operations below a scratch root go through the simulator.

Real files are used (on tmpfs or disk under the scratch root); the simulator
decides at every operation whether it succeeds, fails (EIO/ENOSPC, possibly
after a torn prefix) or is the instant the process dies.  The crash model is
process death: data handed to the OS is durable, data still in user-space
buffers is lost; opening for writing truncates at once.

A write-mode file buffers in memory and reaches the OS at flush/close, so one
``with open(p, 'wb')`` is three operations: create/truncate, write, close.
"""
import builtins
import errno
import io
import os
import os.path as osp

from .sim import SimCrash

_real_open = builtins.open
_io_open = io.open
_os = {n: getattr(os, n) for n in (
    'remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'link',
    'symlink', 'truncate')}


class _SimFile:
    """Write-mode file: a memory buffer over a real fd."""

    def __init__(self, disk, path, mode, encoding, errors, newline):
        self._d, self._p, self.name, self.mode = disk, path, path, mode
        raw_mode = mode.replace('t', '').replace('b', '')
        self._f = _real_open(path, raw_mode.replace('+', '') + 'b'
                             if 'r' not in raw_mode else 'r+b', buffering=0)
        self._text = 'b' not in mode
        self._enc, self._errors = encoding or 'utf-8', errors or 'strict'
        self._pending = bytearray()
        self.closed = False
        self._base = self._f.seek(0, 2) if 'a' in mode else 0

    def write(self, data):
        self._d.alive()
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self._text:
            if not isinstance(data, str):
                raise TypeError('write() argument must be str')
            self._pending += data.encode(self._enc, self._errors)
        else:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            self._pending += bytes(data)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if not self._pending:
            return
        data, self._pending = bytes(self._pending), bytearray()
        self._d.op('write', self._p, data=data, fobj=self._f)

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
            self._d.op('close', self._p)
        finally:
            self._f.close()

    def tell(self):
        return self._base + len(self._pending) + (
            0 if self._base else self._f.tell())

    def seek(self, *a):
        self.flush()
        return self._f.seek(*a)

    def fileno(self):
        return self._f.fileno()

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self._f.close()
        except Exception:
            pass


class SimDisk:
    """faults: list of dicts {op: int, kind: 'crash'|'enospc'|'eio', frac}.
    ``op`` is the index of the operation, counted from the start of this life.
    """

    def __init__(self, sim, root, faults=(), sched=None):
        self.sim = sim
        self.root = osp.realpath(root)
        self.faults = {f['op']: f for f in faults}
        self.n = 0
        self.dead = False
        self.sched = sched          # called before each op (a yield point)
        self.ops = []               # (who, op, basename)
        self.who = lambda: 0

    def inside(self, path):
        try:
            p = osp.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        return p == self.root or p.startswith(self.root + os.sep)

    def alive(self):
        if self.dead:
            raise SimCrash()

    def op(self, name, path, data=None, fobj=None, do=None):
        self.alive()
        if self.sched is not None:
            self.sched('disk')
            self.alive()
        i, self.n = self.n, self.n + 1
        base = osp.relpath(osp.realpath(path), self.root)
        self.sim.log('disk', self.who(), i, name, base,
                     len(data) if data is not None else 0)
        self.ops.append((self.who(), name, base))
        f = self.faults.get(i)
        if f is not None:
            kind = f['kind']
            self.sim.fired(kind)
            if data is not None:
                k = int(len(data) * f.get('frac', 0.0))
                fobj.write(data[:k])
                if 0 < k < len(data):
                    self.sim.fired('torn_write')
            self.sim.log('fault', kind, i)
            if kind == 'crash':
                self.dead = True
                raise SimCrash()
            if name != 'close':
                code = errno.ENOSPC if kind == 'enospc' else errno.EIO
                raise OSError(code, os.strerror(code), str(path))
            code = errno.ENOSPC if kind == 'enospc' else errno.EIO
            raise OSError(code, os.strerror(code), str(path))
        if data is not None:
            fobj.write(data)
        if do is not None:
            return do()

    # -- installation
    def __enter__(self):
        import torch
        d = self

        def make_open(orig):

            def sim_open(file, mode='r', buffering=-1, encoding=None,
                         errors=None, newline=None, closefd=True,
                         opener=None):
                if isinstance(file, int) or not d.inside(file):
                    return orig(file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
                d.alive()
                if not any(c in mode for c in 'wax+'):
                    return orig(file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
                path = os.fspath(file)
                return d.op('open-' + mode.strip('bt+'), path,
                            do=lambda: _SimFile(d, path, mode, encoding,
                                                errors, newline))
            return sim_open

        def make_os(name):
            orig = _os[name]

            def f(path, *a, **k):
                tgt = a[0] if name in ('rename', 'replace', 'link',
                                       'symlink') and a else path
                if 'dst' in k:
                    tgt = k['dst']
                if k.get('dir_fd') is not None or not (
                        isinstance(tgt, (str, bytes, os.PathLike))
                        and d.inside(tgt)):
                    return orig(path, *a, **k)
                return d.op(name, tgt, do=lambda: orig(path, *a, **k))
            f.__name__ = name
            return f

        self._saved = (builtins.open, io.open,
                       {n: getattr(os, n) for n in _os}, torch.save)
        builtins.open = make_open(_real_open)
        io.open = make_open(_io_open)
        for n in _os:
            setattr(os, n, make_os(n))
        real_save = torch.save

        def sim_save(obj, f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and d.inside(f):
                buf = io.BytesIO()
                real_save(obj, buf, *a, **k)
                with builtins.open(f, 'wb') as fh:
                    fh.write(buf.getvalue())
                return
            return real_save(obj, f, *a, **k)

        torch.save = sim_save
        return self

    def __exit__(self, *exc):
        import torch
        builtins.open, io.open, saved, torch.save = self._saved
        for n, f in saved.items():
            setattr(os, n, f)
        return False
