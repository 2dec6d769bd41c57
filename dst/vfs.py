"""Storage, clock and listing seam.

Files live in a scratch directory; every call of the code under test that can
change or list it passes here first (builtins.open/io.open, the os module,
shutil, tempfile, pathlib, torch.save). The seam numbers the mutating calls and
the fault plan names the number at which something happens:

    crash        the process dies before the call has any effect
    crash_after  the process dies right after the call
    torn         (writes) a prefix reaches the file, then the process dies
    enospc, eio  the call fails with that error; of a write a prefix may remain
    intr         KeyboardInterrupt is raised before the call

After a death nothing reaches the disk: buffered data is lost and cleanup code
that runs while the exception unwinds has no effect.
"""
import builtins
import contextlib
import errno
import io
import os
import shutil
import sys
import tempfile
import threading
import time

import torch

from dst.core import SimCrash, SimInterrupt, h64

_real_open = builtins.open
_real = {name: getattr(os, name) for name in
         ('open', 'write', 'close', 'mkdir', 'remove', 'unlink', 'rmdir',
          'rename', 'replace', 'link', 'symlink', 'truncate', 'ftruncate',
          'listdir', 'scandir', 'fsync', 'stat')}
_real_torch_save = torch.save
_real_torch_load = torch.load
_real_time = {name: getattr(time, name) for name in
              ('time', 'perf_counter', 'monotonic', 'sleep', 'process_time',
               'time_ns')}

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _silence(unraisable):
    if isinstance(unraisable.exc_value, (SimCrash, OSError)):
        return
    sys.__unraisablehook__(unraisable)


class _Names:
    """Deterministic replacement for random temporary file names."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f'sim{self.n:05d}'


# =============================================================================
class SimRaw(io.RawIOBase):
    """Unbuffered file whose writes are simulated I/O events."""

    def __init__(self, fs, raw, path):
        self._fs = fs
        self._raw = raw
        self._path = path
        self.name = path
        self.mode = raw.mode

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def seekable(self):
        return self._raw.seekable()

    def readinto(self, b):
        if self._fs.dead:
            raise SimCrash()
        return self._raw.readinto(b)

    def seek(self, *a):
        return self._raw.seek(*a)

    def tell(self):
        return self._raw.tell()

    def fileno(self):
        return self._raw.fileno()

    def truncate(self, size=None):
        self._fs.event('truncate', self._path)
        return self._raw.truncate(size)

    def write(self, b):
        data = bytes(b)
        if not data:
            return 0
        with self._fs.write_event(self._path, len(data)) as keep:
            n = self._raw.write(data if keep is None else data[:keep])
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._raw.close()
                self._fs.open_raws.discard(self)


# =============================================================================
class SimFS:
    """Simulated storage, listing order and clock."""

    def __init__(self, root, ctx, listing='shuffle', chunk=2048):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.dead = False
        self.n = 0
        self.plan = {}
        self.listing = listing
        self.list_n = 0
        self.chunk = chunk
        self.sched = None
        self.open_raws = set()
        self.fds = {}
        self.record = None
        self.clock = 1.0e9
        self.clock_n = 0
        self.clock_jumps = False
        self.on_event = None
        self.trace_io = True

    # ------------------------------------------------------------- bookkeeping
    def rel(self, path):
        """Path relative to the simulated disk, or None if outside it."""
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.abspath(path)
        if full == self.root:
            return '.'
        if full.startswith(self.root + os.sep):
            return full[len(self.root) + 1:]
        return None

    def arm(self, plan):
        """Set the fault plan: {event number (from now): fault}."""
        self.plan = {self.n + int(k): v for k, v in plan.items()}

    def disarm(self):
        self.plan = {}

    def restart(self):
        """The machine starts a new process after a crash."""
        for raw in list(self.open_raws):
            with contextlib.suppress(BaseException):
                raw._raw.close()
        self.open_raws = set()
        for fd in list(self.fds):
            with contextlib.suppress(OSError):
                _real['close'](fd)
        self.fds = {}
        self.dead = False
        self.plan = {}
        torch.set_default_dtype(torch.float32)

    # ------------------------------------------------------------------ events
    def _take(self, kind, path):
        if self.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point(kind, path)
            if self.dead:
                raise SimCrash()
        self.ctx.step()
        n = self.n
        self.n += 1
        fault = self.plan.get(n)
        if self.trace_io:
            self.ctx.log('io', kind, path, fault and fault['kind'])
        if self.record is not None:
            self.record.append((kind, path))
        if self.on_event is not None:
            self.on_event(kind, path)
        return fault

    def _raise(self, fault, kind, path):
        fk = fault['kind']
        if kind != 'write':
            fk = {'torn': 'crash'}.get(fk, fk)
        if kind in ('remove', 'unlink', 'rmdir', 'truncate'):
            fk = {'enospc': 'eio'}.get(fk, fk)
        self.ctx.fault(f'{fk}@{kind}')
        if fk == 'enospc':
            raise OSError(errno.ENOSPC, 'No space left on device (simulated)',
                          path)
        if fk == 'eio':
            raise OSError(errno.EIO, 'Input/output error (simulated)', path)
        if fk == 'intr':
            raise SimInterrupt('simulated interrupt')
        self.dead = True
        raise SimCrash()

    def event(self, kind, path):
        """A mutating call without data; returns the post-call hook."""
        fault = self._take(kind, path)
        if fault is None:
            return lambda: None
        if fault['kind'] == 'crash_after':
            def after():
                self._raise(fault, kind, path)
            return after
        self._raise(fault, kind, path)

    @contextlib.contextmanager
    def write_event(self, path, size):
        fault = self._take('write', path)
        if fault is None:
            yield None
            return
        fk = fault['kind']
        if fk in ('crash', 'intr'):
            self._raise(fault, 'write', path)
        if fk == 'crash_after':
            yield None
        else:
            yield min(int(size*float(fault.get('frac', 0.5))), size - 1)
        self._raise(fault, 'write', path)

    # ------------------------------------------------------------------- calls
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if opener is not None and any(c in mode for c in 'wax+'):
            flags = os.O_CLOEXEC | (os.O_RDWR if '+' in mode else os.O_WRONLY)
            flags |= {'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT
                      | os.O_APPEND, 'x': os.O_CREAT | os.O_EXCL}.get(
                          mode[0], 0)
            fd = opener(file, flags)
            if fd not in self.fds:
                return _real_open(fd, mode, buffering, encoding, errors,
                                  newline)
            return self.open(fd, mode, buffering, encoding, errors, newline)
        path = self.rel(file)
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        if self.dead:
            raise SimCrash()
        writes = any(c in mode for c in 'wax+')
        if not writes:
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        rawmode = mode.replace('b', '').replace('t', '')
        if isinstance(file, int):
            after = lambda: None
        else:
            # An exclusive creation that must fail, or a file that cannot be
            # opened, changes nothing and is no event
            after = self.event('open:' + rawmode, path)
        raw = SimRaw(self, io.FileIO(file, rawmode, closefd), path)
        self.open_raws.add(raw)
        after()
        binary = 'b' in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=(buffering == 1))

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.rel(path) if dir_fd is None else None
        if rel is None or not flags & _WRITE_FLAGS:
            return _real['open'](path, flags, mode, dir_fd=dir_fd)
        after = self.event('os.open', rel)
        fd = _real['open'](path, flags, mode)
        self.fds[fd] = rel
        after()
        return fd

    def os_write(self, fd, data):
        if fd not in self.fds:
            return _real['write'](fd, data)
        with self.write_event(self.fds[fd], len(data)) as keep:
            return _real['write'](fd, data if keep is None else data[:keep])

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return _real['close'](fd)

    def _one(self, name):
        real = _real[name]

        def call(path, *args, **kwargs):
            rel = (self.rel(path) if kwargs.get('dir_fd') is None else None)
            if rel is None:
                return real(path, *args, **kwargs)
            after = self.event(name, rel)
            out = real(path, *args, **kwargs)
            after()
            return out
        return call

    def _two(self, name):
        real = _real[name]

        def call(src, dst, *args, **kwargs):
            rel = self.rel(dst)
            if rel is None:
                rel = self.rel(src)
            if rel is None:
                return real(src, dst, *args, **kwargs)
            after = self.event(name, f'{self.rel(src)}>{self.rel(dst)}')
            out = real(src, dst, *args, **kwargs)
            after()
            return out
        return call

    def order(self, rel, names, key):
        """Directory listing order chosen by the simulator."""
        if self.listing == 'sorted':
            return sorted(names, key=key)
        self.list_n += 1
        if self.listing == 'reverse':
            return sorted(names, key=key, reverse=True)
        return sorted(names, key=lambda x: h64(self.ctx.seed, 'ls',
                                               self.listing, self.list_n,
                                               key(x)))

    def listdir(self, path='.'):
        rel = self.rel(path)
        names = _real['listdir'](path)
        if rel is None:
            return names
        if self.dead:
            raise SimCrash()
        self.ctx.faults['shuffled_listing'] += 1
        return self.order(rel, names, lambda x: x)

    def scandir(self, path='.'):
        rel = self.rel(path)
        if rel is None:
            return _real['scandir'](path)
        if self.dead:
            raise SimCrash()
        with _real['scandir'](path) as it:
            entries = list(it)
        self.ctx.faults['shuffled_listing'] += 1
        return _Entries(self.order(rel, entries, lambda x: x.name))

    # ------------------------------------------------------------------- torch
    def torch_save(self, obj, f, *args, **kwargs):
        buffer = io.BytesIO()
        _real_torch_save(obj, buffer, *args, **kwargs)
        data = buffer.getvalue()
        if hasattr(f, 'write'):
            for i in range(0, len(data), self.chunk):
                f.write(data[i:i + self.chunk])
            return
        if not os.path.isdir(os.path.dirname(os.path.abspath(f))):
            raise RuntimeError(
                f'Parent directory {os.path.dirname(f)} does not exist.')
        with self.open(f, 'wb', buffering=0) as file:
            for i in range(0, len(data), self.chunk):
                file.write(data[i:i + self.chunk])

    def torch_load(self, f, *args, **kwargs):
        if self.dead:
            raise SimCrash()
        return _real_torch_load(f, *args, **kwargs)

    # ------------------------------------------------------------------- clock
    def now(self):
        self.clock_n += 1
        step = (h64(self.ctx.seed, 'clock', self.clock_n) % 10**6)/1.0e6
        if self.clock_jumps and h64(self.ctx.seed, 'jump',
                                    self.clock_n) % 7 == 0:
            step = ((h64(self.ctx.seed, 'jumpd', self.clock_n) % 7200000)
                    / 1000.0 - 3600.0)
            self.ctx.fault('clock_jump')
        self.clock += step
        if step > 0:
            self.ctx.sim_time += step
        return self.clock

    def sleep(self, dt):
        self.clock += dt
        self.ctx.sim_time += dt

    # ----------------------------------------------------------------- install
    @contextlib.contextmanager
    def installed(self):
        patches = [(builtins, 'open', self.open), (io, 'open', self.open),
                   (os, 'open', self.os_open), (os, 'write', self.os_write),
                   (os, 'close', self.os_close),
                   (os, 'listdir', self.listdir), (os, 'scandir', self.scandir),
                   (torch, 'save', self.torch_save),
                   (torch, 'load', self.torch_load),
                   (torch.serialization, 'save', self.torch_save),
                   (time, 'time', self.now),
                   (time, 'perf_counter', self.now),
                   (time, 'sleep', self.sleep),
                   (shutil, '_USE_CP_SENDFILE', False),
                   (shutil, '_use_fd_functions', False),
                   (sys, 'unraisablehook', _silence),
                   (tempfile, '_name_sequence', _Names())]
        patches += [(os, name, self._one(name)) for name in
                    ('mkdir', 'remove', 'unlink', 'rmdir', 'truncate')]
        patches += [(os, name, self._two(name)) for name in
                    ('rename', 'replace', 'link', 'symlink')]
        saved = [(mod, name, getattr(mod, name)) for mod, name, _ in patches]
        for mod, name, new in patches:
            setattr(mod, name, new)
        try:
            yield self
        finally:
            for mod, name, old in reversed(saved):
                setattr(mod, name, old)
            self.restart()


class _Entries:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


# =============================================================================
class Scheduler:
    """Runs actors as threads, exactly one at a time, switching at I/O points.

    Which actor proceeds is a function of the seed and the switch number.
    """

    def __init__(self, ctx, fs, schedule=None, key='sched'):
        self.ctx = ctx
        self.fs = fs
        self.key = key
        self.schedule = schedule
        self.n = 0
        self.cv = threading.Condition()
        self.current = None
        self.live = {}
        self.tls = threading.local()
        self.results = {}
        self.waiting = set()

    def run(self, actors):
        """Run {name: callable}; returns {name: ('ok', value)|('err', exc)}."""
        threads = []
        for name, fn in sorted(actors.items()):
            self.waiting.add(name)
            thread = threading.Thread(target=self._main, args=(name, fn),
                                      daemon=True)
            threads.append(thread)
        self.fs.sched = self
        for thread in threads:
            thread.start()
        with self.cv:
            self.current = self._pick()
            self.cv.notify_all()
        for thread in threads:
            thread.join(300)
        self.fs.sched = None
        return self.results

    def _pick(self):
        if not self.waiting:
            return None
        names = sorted(self.waiting)
        n = self.n
        self.n += 1
        if self.schedule is not None and n < len(self.schedule):
            name = names[self.schedule[n] % len(names)]
        else:
            name = names[h64(self.ctx.seed, self.key, n) % len(names)]
        self.ctx.log('run', name)
        return name

    def _main(self, name, fn):
        self.tls.name = name
        with self.cv:
            while self.current != name:
                self.cv.wait()
        try:
            self.results[name] = ('ok', fn())
        except BaseException as exc:
            self.results[name] = ('err', exc)
        with self.cv:
            self.waiting.discard(name)
            self.current = self._pick()
            self.cv.notify_all()

    def point(self, kind, path):
        name = getattr(self.tls, 'name', None)
        if name is None:
            return
        with self.cv:
            self.current = self._pick()
            if self.current != name:
                self.ctx.faults['context_switch'] += 1
                self.ctx.nontrivial = True
            self.cv.notify_all()
            while self.current != name:
                self.cv.wait()
