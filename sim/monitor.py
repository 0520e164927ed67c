"""Interception of execution inside the library: every source line and every
call made by legume code is an event at which the simulator can inject an
exception or switch threads.  Built on sys.monitoring, no change to legume."""
import gc
import sys
import warnings
import threading
import types

TOOL = 4
mon = sys.monitoring


def _codes(prefix):
    seen = {}

    def walk(c):
        if c in seen:
            return
        seen[c] = None
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and \
                o.__code__.co_filename.startswith(prefix):
            walk(o.__code__)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def callee_name(f):
    n = getattr(f, '__qualname__', None) or getattr(f, '__name__', None) or type(f).__name__
    m = getattr(f, '__module__', None) or ''
    return f'{m}.{n}'


class Monitor:
    def __init__(self, prefix):
        self.prefix = prefix
        self.codes = None
        self.active = False
        self.nline = self.ncall = 0
        self.line_hook = self.call_hook = None

    def start(self, line=None, call=None):
        """line(code, lineno), call(code, offset, callable): hooks; they may raise."""
        if self.codes is None:
            self.codes = _codes(self.prefix)
        if not self.active:
            mon.use_tool_id(TOOL, 'legume-sim')
        ev = mon.events
        want = 0
        if line is not None:
            mon.register_callback(TOOL, ev.LINE, line)
            want |= ev.LINE
        if call is not None:
            mon.register_callback(TOOL, ev.CALL,
                                  lambda c, o, f, a: call(c, o, f))
            want |= ev.CALL
        for c in self.codes:
            mon.set_local_events(TOOL, c, want)
        self.active = True

    def stop(self):
        if self.active:
            for c in self.codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.register_callback(TOOL, mon.events.CALL, None)
            mon.free_tool_id(TOOL)
            self.active = False


def _line_of(code, offset):
    last = code.co_firstlineno
    for s, e, l in code.co_lines():
        if s <= offset < e and l:
            return l
    return last


REAL_PREFIX = ('numpy', 'scipy', 'autograd', 'legume', '_bootstrap', 'builtins',
               'rich', 'itertools', 'time', 'matplotlib', 'gdspy', 'skimage')


class Profiler:
    """Counts the events of one operation, per site."""

    def __init__(self, m):
        self.m = m
        self.nline = self.ncall = 0
        self.lines, self.calls = {}, {}
        self._cl = {}

    def _line(self, code, line):
        k = (code, line)
        l = self.lines.get(k)
        if l is None:
            l = self.lines[k] = []
        if len(l) < 400:
            l.append(self.nline)
        self.nline += 1

    def _call(self, code, off, f):
        k = (code, off, callee_name(f))
        l = self.calls.get(k)
        if l is None:
            l = self.calls[k] = []
        if len(l) < 400:
            l.append(self.ncall)
        self.ncall += 1

    def __enter__(self):
        self.m.start(self._line, self._call)
        return self

    def __exit__(self, *a):
        self.m.stop()

    def result(self):
        pl = len(self.m.prefix)
        lines = sorted((f'{c.co_filename[pl:]}:{l}', v) for (c, l), v in self.lines.items())
        calls = sorted((f'{c.co_filename[pl:]}:{_line_of(c, o)}', n, o, v)
                       for (c, o, n), v in self.calls.items())
        return dict(nline=self.nline, ncall=self.ncall, lines=lines, calls=calls)


class Injector:
    """Raises exc at the n-th line or call event (counted from start)."""

    def __init__(self, m, ev, n, exc):
        self.m, self.ev, self.n, self.exc = m, ev, n, exc
        self.i = 0
        self.fired = None

    def _line(self, code, line):
        i = self.i
        self.i = i + 1
        if i == self.n:
            self.fired = f'{code.co_filename[len(self.m.prefix):]}:{line}'
            raise self.exc

    def _call(self, code, off, f):
        i = self.i
        self.i = i + 1
        if i == self.n:
            self.fired = f'{code.co_filename[len(self.m.prefix):]}:{_line_of(code, off)} -> {callee_name(f)}'
            raise self.exc

    def __enter__(self):
        if self.ev == 'line':
            self.m.start(line=self._line)
        else:
            self.m.start(call=self._call)
        return self

    def __exit__(self, *a):
        self.m.stop()
        return False


class Warner:
    """The numerical libraries warn: at the n-th call made to them, and every
    `every` calls after that. What becomes of a warning is up to the filters."""

    def __init__(self, m, n, every, cat):
        self.m, self.n, self.every, self.cat = m, n, every, cat
        self.i = -1

    def _call(self, code, off, f):
        if not callee_name(f).startswith(('numpy', 'scipy', 'autograd')):
            return
        self.i += 1
        if self.i >= self.n and (self.i - self.n) % self.every == 0:
            warnings.warn('simulated: the result may be inaccurate', self.cat)

    def __enter__(self):
        self.m.start(call=self._call)
        return self

    def __exit__(self, *a):
        self.m.stop()
        return False


class ThreadSim:
    """Runs tasks in real threads of which exactly one is runnable at a time;
    control passes at legume source lines chosen by the seeded scheduler.

    plan: list of [gap, pick]: after `gap` lines of the running thread the
    pick-th (mod number of live others, in thread order) other thread goes on.
    The plan is consumed in order and then repeated (it is finite and explicit,
    so that it can be written to a replay file and shrunk)."""

    def __init__(self, m, plan):
        self.m = m
        self.plan = plan
        self.pos = 0
        self.left = plan[0][0] if plan else 1 << 60
        self.current = None
        self.live = []
        self.switches = 0
        self.spin = 0
        self.trace = []
        self.results = {}
        self.ident = {}

    def _next(self):
        p = self.plan[self.pos % len(self.plan)]
        self.pos += 1
        self.left = self.plan[self.pos % len(self.plan)][0]
        return p[1]

    def _line(self, code, line):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        if not self.plan:
            self.left = 1 << 60
            return
        pick = self._next()
        others = [t for t in self.live if t != me]
        if not others:
            return
        nxt = others[pick % len(others)]
        self.switches += 1
        if len(self.trace) < 400:
            self.trace.append((me, f'{code.co_filename[len(self.m.prefix):]}:{line}', nxt))
        self._handover(me, nxt)

    def _handover(self, me, nxt):
        self.current = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()

    def run(self, tasks):
        """tasks: list of callables; returns list of results (never raises)."""
        global active_sim
        active_sim = self
        n = len(tasks)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        done = threading.Semaphore(0)
        self.live = list(range(n))
        out = [None] * n

        def body(i):
            self.gates[i].acquire()
            self.ident[threading.get_ident()] = i
            try:
                out[i] = tasks[i]()
            except BaseException as e:       # tasks do not raise by contract
                out[i] = {'harness_error': repr(e)}
            finally:
                del self.ident[threading.get_ident()]
                self.live.remove(i)
                if self.live:
                    nxt = self.live[(self.plan[self.pos % len(self.plan)][1] if self.plan else 0)
                                    % len(self.live)]
                    self.current = nxt
                    self.gates[nxt].release()
                else:
                    done.release()

        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        self.m.start(line=self._line)
        try:
            self.current = 0
            self.gates[0].release()
            done.acquire()
        finally:
            self.m.stop()
        for t in ths:
            t.join()
        active_sim = None
        return out


# ---- locks the library may create: cooperative under ThreadSim --------------
active_sim = None


class SimLock:
    def __init__(self, reentrant):
        self._l = (_real_rlock if reentrant else _real_lock)()

    def acquire(self, blocking=True, timeout=-1):
        sim = active_sim
        me = sim.ident.get(threading.get_ident()) if sim else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            others = [t for t in sim.live if t != me]
            if not others:
                return self._l.acquire(False)   # self-deadlock: report as failure
            sim.spin += 1
            sim._handover(me, others[sim.spin % len(others)])

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = lambda self: self.acquire()

    def __exit__(self, *a):
        self._l.release()


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _factory(real, reentrant):
    def make():
        name = sys._getframe(1).f_globals.get('__name__', '')
        return SimLock(reentrant) if name.startswith('legume') else real()
    return make


def install_locks():
    threading.Lock = _factory(_real_lock, False)
    threading.RLock = _factory(_real_rlock, True)
