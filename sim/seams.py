"""Seams between the library under test and everything nondeterministic.

Imported before legume (and before the libraries legume uses), it puts the
clock, the console, the random number generators and file writing behind
objects owned by the simulator.  Nothing in here draws from the scheduler's
PRNG; every behaviour is set by the running program (see world.py).
"""
import builtins
import errno
import io
import os
import random
import sys
import time
import weakref

# The real clock, for the harness itself only (budgets, evidence).
real_perf = time.perf_counter


class Clock:
    """The only clock the library sees.

    mode: 'steady'   every reading advances by 1 ms
          'frozen'   the clock stands still
          'coarse'   readings are quantised to 1 s
          'forward'  every 7th reading jumps ahead by ten years
          'backward' every 5th reading jumps back by one hour
          'mad'      alternating jumps of +-30 years
    """
    MODES = ('steady', 'frozen', 'coarse', 'forward', 'backward', 'mad')

    def __init__(self):
        self.reset()

    def reset(self, t0=1.0e9):
        self.mode = 'steady'
        self.t = t0
        self.reads = 0
        self.span = 0.0
        self.jumps = 0

    def _advance(self, dt):
        self.t += dt
        self.span += abs(dt)
        if abs(dt) > 1:
            self.jumps += 1

    def read(self):
        self.reads += 1
        m = self.mode
        if m == 'frozen':
            return self.t
        if m == 'coarse':
            self._advance(0.004)
            return float(int(self.t))
        if m == 'forward':
            self._advance(3.15e8 if self.reads % 7 == 0 else 1e-3)
        elif m == 'backward':
            self._advance(-3600. if self.reads % 5 == 0 else 1e-3)
        elif m == 'mad':
            self._advance(9.5e8 if self.reads % 2 else -9.5e8)
        else:
            self._advance(1e-3)
        return self.t

    def sleep(self, dt):
        self._advance(max(0., float(dt)))


clock = Clock()


def install_clock():
    f = clock.read
    for name in ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time'):
        setattr(time, name, lambda _f=f: _f())
    for name in ('time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
        setattr(time, name, lambda _f=f: int(_f() * 1e9))
    time.sleep = clock.sleep


class ConsoleError(OSError):
    """Raised by the simulated console; an OSError as a broken pipe is."""


class Console(io.TextIOBase):
    """Simulated standard output. mode: 'ok', 'broken' (every write fails),
    'fail_at' (writes fail from the n-th on), 'flush' (flush fails), 'closed',
    'ascii' (cannot encode other characters), 'once' and 'once_flush' (only the
    n-th write or flush fails, as on a full non-blocking pipe), and ones that never fail:
    'noenc' (no encoding, as StringIO), 'bare' (neither encoding
    nor descriptor, as the replacements of notebooks and editors), 'tty', 'void' (write returns None)."""
    MODES = ('ok', 'broken', 'fail_at', 'flush', 'closed', 'ascii', 'once', 'once_flush', 'noenc', 'bare', 'tty', 'void')
    HARMLESS = ('noenc', 'bare', 'tty', 'void')

    def __init__(self):
        self.reset()

    def reset(self):
        self.mode = 'ok'
        self.n = 0          # write calls
        self.nf = 0         # flush calls
        self.fail_from = 0
        self.nbytes = 0     # bytes offered (accepted or not)
        self.fired = 0
        self.text = []

    @property
    def encoding(self):
        if self.mode == 'bare':
            raise AttributeError('encoding')
        if self.mode in ('noenc', 'void'):
            return None
        return 'ascii' if self.mode == 'ascii' else 'utf-8'

    @property
    def errors(self):
        return 'strict'

    def writable(self):
        return True

    def isatty(self):
        return self.mode == 'tty'

    def fileno(self):
        if self.mode == 'bare':
            raise AttributeError('fileno')
        raise io.UnsupportedOperation('fileno')

    def write(self, s):
        self.n += 1
        self.nbytes += len(s)
        if s and len(self.text) < 200:
            self.text.append(s[:200])
        m = self.mode
        if m == 'broken' or (m == 'fail_at' and self.n > self.fail_from):
            self.fired += 1
            raise ConsoleError(errno.EPIPE, 'simulated broken console')
        if m == 'once' and self.n == self.fail_from + 1:
            self.fired += 1
            raise ConsoleError(errno.EAGAIN, 'simulated full pipe')
        if m == 'closed':
            self.fired += 1
            raise ValueError('I/O operation on closed file.')
        if m == 'ascii' and not s.isascii():
            self.fired += 1
            s.encode('ascii')
        return None if m == 'void' else len(s)

    def flush(self):
        self.nf += 1
        if self.mode == 'once_flush' and self.nf == self.fail_from + 1:
            self.fired += 1
            raise ConsoleError(errno.EAGAIN, 'simulated full pipe')
        if self.mode in ('flush', 'broken'):
            self.fired += 1
            raise ConsoleError(errno.EIO, 'simulated console flush failure')
        if self.mode == 'closed':
            self.fired += 1
            raise ValueError('I/O operation on closed file.')


console = Console()


def install_console():
    sys.stdout = console


# ------------------------------------------------------------------ randomness
class Rng:
    """Seeds everything that would otherwise come from OS entropy."""

    def __init__(self):
        self.seed = 0
        self.draws = 0

    def reset(self, seed):
        import numpy as np
        self.seed = int(seed) & 0x7fffffff
        self.draws = 0
        random.seed(self.seed)
        np.random.seed(self.seed)

    def next_seed(self):
        self.draws += 1
        return (self.seed * 1000003 + self.draws * 7919) & 0x7fffffff


rng = Rng()


def install_rng():
    import numpy as np
    real = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            seed = rng.next_seed()
        return real(seed)

    np.random.default_rng = default_rng
    real_urandom = os.urandom
    os.urandom = lambda n: random.Random(rng.next_seed()).randbytes(n)
    os.urandom.real = real_urandom


# ------------------------------------------------------------------ storage
class DiskFault(OSError):
    pass


class Disk:
    """Simulated storage under one scratch directory. The n-th byte written to
    it (per fault plan) can fail; plan = None or dict(kind, at):
      'open'   opening for writing fails (EACCES)
      'nospc'  accepts `at` bytes, then ENOSPC (the rest is lost)
      'eio'    the at-th write call raises EIO
      'short'  the raw device takes only half of what is offered, once, then ENOSPC
      'close'  close() fails while flushing: data not yet durable is lost
      'flush'  flush() fails
    """

    def __init__(self):
        self.root = None
        self.plan = None
        self.fired = {}
        self.opened = 0

    def reset(self):
        self.plan = None
        self.fired = {}
        self.opened = 0

    def hit(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


disk = Disk()
_real_open = builtins.open
_real_io_open = io.open


class SimRaw(io.RawIOBase):
    def __init__(self, path, mode):
        self._f = _real_open(path, mode, buffering=0)
        self.name = str(path)
        self._n = 0
        self._calls = 0
        self._plan = dict(disk.plan) if disk.plan else None
        self._dead = False

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def write(self, b):
        b = bytes(b)
        p = self._plan
        self._calls += 1
        if p:
            k = p['kind']
            if self._dead:
                raise DiskFault(errno.ENOSPC, 'No space left on device (simulated)')
            if k == 'nospc' and self._n + len(b) > p['at']:
                room = max(0, p['at'] - self._n)
                self._f.write(b[:room])
                self._dead = True
                disk.hit(k)
                raise DiskFault(errno.ENOSPC, 'No space left on device (simulated)')
            if k == 'eio' and self._calls > p['at']:
                disk.hit(k)
                raise DiskFault(errno.EIO, 'Input/output error (simulated)')
            if k == 'short' and len(b) > 1:
                n = max(1, len(b) // 2)
                self._f.write(b[:n])
                self._n += n
                disk.hit(k)
                self._dead = p['at'] % 2 == 1     # odd: device full afterwards
                if not self._dead:
                    self._plan = None             # even: device recovers
                return n
            if k == 'close':
                return len(b)                     # accepted, never durable
        self._f.write(b)
        self._n += len(b)
        return len(b)

    def flush(self):
        if self._plan and self._plan['kind'] == 'flush' and not self.closed:
            disk.hit('flush')
            self._plan = None
            raise DiskFault(errno.EIO, 'Input/output error on flush (simulated)')

    def close(self):
        if self.closed:
            return
        try:
            self._f.close()
        finally:
            super().close()
        if self._plan and self._plan['kind'] == 'close':
            disk.hit('close')
            raise DiskFault(errno.EIO, 'Input/output error on close (simulated)')


def sim_open(file, mode='r', buffering=-1, *a, **k):
    if disk.root is not None and isinstance(file, (str, os.PathLike)) and \
            os.path.abspath(os.fspath(file)).startswith(disk.root + os.sep) and \
            any(c in mode for c in 'wax+'):
        disk.opened += 1
        if disk.plan and disk.plan['kind'] == 'open':
            disk.hit('open')
            raise DiskFault(errno.EACCES, 'Permission denied (simulated)')
        raw = SimRaw(file, mode.replace('t', '').replace('b', '') + 'b')
        if buffering == 0:
            return raw
        buf = io.BufferedWriter(raw, 4096)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, *a, **k)
    return _real_open(file, mode, buffering, *a, **k)


def _moving(name):
    real = getattr(os, name)

    def move(src, dst, *a, **k):
        if disk.root is not None and disk.plan and disk.plan['kind'] == 'move' and \
                os.path.abspath(os.fspath(dst)).startswith(disk.root + os.sep):
            disk.hit('move')
            raise DiskFault(errno.EACCES, 'Permission denied (simulated)')
        return real(src, dst, *a, **k)
    move.__name__ = name
    setattr(os, name, move)


def install_disk():
    builtins.open = sim_open
    io.open = sim_open
    for name in ('rename', 'replace', 'link'):
        _moving(name)


def install(console_too=True):
    install_clock()
    install_rng()
    install_disk()


# ------------------------------------------------------------------ addresses
class Addresses:
    """id() as seen by the library: the address of an object that is gone is
    given to the next object of its type asked about, which a real allocator
    does often but not reproducibly."""

    def __init__(self):
        self.live = {}          # real id -> (weak reference, address)
        self.free = {}          # type -> addresses
        self.next = 0x7f0000000000
        self.reused = 0

    def __call__(self, o):
        i = id(o)
        e = self.live.get(i)
        if e is not None and e[0]() is o:
            return e[1]
        t = type(o)
        try:
            r = weakref.ref(o, lambda _, i=i, t=t: self._gone(i, t))
        except TypeError:
            return i
        f = self.free.get(t)
        if f:
            a = f.pop()
            self.reused += 1
        else:
            a = self.next
            self.next += 64
        self.live[i] = (r, a)
        return a

    def _gone(self, i, t):
        e = self.live.pop(i, None)
        if e is not None:
            self.free.setdefault(t, []).append(e[1])


addresses = Addresses()


def install_ids():
    for n, m in list(sys.modules.items()):
        if m is not None and (n == 'legume' or n.startswith('legume.')):
            vars(m).setdefault('id', addresses)
