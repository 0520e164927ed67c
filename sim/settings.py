"""Process-wide settings a library must leave as it found them."""
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings
import numpy as np


def _counted(*a):
    pass


def unusual(kind):
    """Settings of a caller, other than the defaults."""
    import matplotlib
    np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
    if kind % 2:
        np.seterrcall(_counted)
        np.seterr(divide='call', over='warn', under='call', invalid='call')
        np.set_printoptions(precision=5, suppress=True)
        matplotlib.rcParams['lines.linewidth'] = 1.7
        sys.setrecursionlimit(3100)
        decimal.getcontext().prec = 19
        gc.disable()
        logging.getLogger('legume').setLevel(logging.ERROR)
        logging.getLogger('matplotlib').setLevel(logging.WARNING)
    if kind % 2 == 0 or kind % 3 == 2:
        import matplotlib.pyplot as plt
        plt.ion()
    if kind % 3 == 2:
        import gdspy
        warnings.simplefilter('ignore')
        gdspy.current_library = gdspy.GdsLibrary(name='caller')
        gdspy.Cell('CALLER')
        warnings.filters.pop(0)
    if kind % 3 == 1:
        warnings.filterwarnings('ignore', message='of the caller')
        warnings.filterwarnings('default', category=DeprecationWarning, module='caller')
        os.environ['CALLER_SETTING'] = '1'
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        np.set_printoptions(edgeitems=2, threshold=77)
        matplotlib.rcParams['image.cmap'] = 'gray'


# ------------------------------------------------------------------ settings of one operation
PRINT = [dict(precision=2, threshold=3, edgeitems=1), dict(precision=1, suppress=True, threshold=0),
         dict(legacy='1.13', threshold=2), dict(precision=0, floatmode='fixed', linewidth=12),
         dict(formatter={'all': lambda x: '*'})]
RC = [{'image.origin': 'upper', 'image.cmap': 'gray', 'lines.linewidth': 3.},
      {'lines.marker': 'x', 'lines.linestyle': '--', 'lines.color': 'r', 'axes.xmargin': .3, 'axes.ymargin': .3},
      {'image.interpolation': 'bilinear', 'image.aspect': 'auto', 'scatter.marker': 's', 'axes.grid': True},
      {'axes.autolimit_mode': 'round_numbers', 'figure.figsize': [2., 1.5], 'axes.titlesize': 6.},
      {'figure.autolayout': True, 'axes.unicode_minus': False, 'axes.prop_cycle': None}]


class Applied:
    """cfg: list of names; 'print:2', 'rc:1', 'env:TERM=dumb', ..."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.calls = 0

    def __enter__(self):
        import contextlib
        import tempfile
        st = self.stack = contextlib.ExitStack()
        for c in self.cfg:
            n, _, a = c.partition(':')
            if n == 'fp':
                if a == 'call':
                    st.callback(np.seterrcall, np.seterrcall(self._called))
                st.callback(lambda o: np.seterr(**o), np.seterr(all=a))
            elif n == 'warn':
                st.enter_context(warnings.catch_warnings())
                warnings.simplefilter(a)
                warnings.showwarning = lambda *a, **k: None
            elif n == 'print':
                st.enter_context(np.printoptions(**PRINT[int(a)]))
            elif n == 'rc':
                import matplotlib
                st.enter_context(matplotlib.rc_context())
                rc = {k: v for k, v in RC[int(a)].items() if v is not None}
                if 'axes.prop_cycle' in RC[int(a)]:
                    from cycler import cycler
                    rc['axes.prop_cycle'] = cycler(color=['m'])
                matplotlib.rcParams.update(rc)
            elif n == 'env':
                k, _, v = a.partition('=')
                st.callback(self._setenv, k, os.environ.get(k))
                os.environ[k] = v
            elif n == 'cwd':
                d = st.enter_context(tempfile.TemporaryDirectory(prefix='legume-sim-cwd-'))
                st.callback(os.chdir, os.getcwd())
                os.chdir(d)
            elif n == 'locale':
                st.callback(locale.setlocale, locale.LC_ALL, locale.setlocale(locale.LC_ALL))
                try:
                    locale.setlocale(locale.LC_ALL, a)
                except locale.Error:
                    pass
            elif n == 'gc':
                if a == 'off':
                    gc.disable()
                    st.callback(gc.enable)
                else:
                    st.callback(gc.set_threshold, *gc.get_threshold())
                    gc.set_threshold(3, 1, 1)
            elif n == 'decimal':
                st.enter_context(decimal.localcontext(decimal.Context(prec=3)))
            elif n == 'umask':
                st.callback(os.umask, os.umask(0o077))
            elif n in ('thread', 'libwarn'):
                pass
            else:
                raise ValueError(c)
        return self

    def _called(self, *a):
        self.calls += 1

    @staticmethod
    def _setenv(k, v):
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v

    def __exit__(self, *a):
        self.stack.close()
        return False


def in_thread(f):
    """Runs f in another thread; returns or raises what it does."""
    box = []

    def go():
        try:
            box.append((True, f()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    ok, v = box[0]
    if ok:
        return v
    raise v


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


_NAMES = {}


def _functions():
    """The functions of the libraries the package computes with, by the
    names they had when the first snapshot was taken."""
    import scipy.linalg, scipy.optimize, scipy.sparse.linalg, matplotlib.axes, matplotlib.figure, gdspy, time, builtins
    out = []
    for m in (builtins, time, np, np.linalg, np.fft, scipy.linalg, scipy.optimize, scipy.sparse.linalg,
              matplotlib.axes.Axes, matplotlib.figure.Figure, gdspy, os, sys.modules['matplotlib.pyplot']):
        k = getattr(m, '__module__', '') + m.__name__
        d = vars(m)
        if k not in _NAMES:
            _NAMES[k] = sorted(n for n, v in d.items() if callable(v))
        out += ['%s.%s' % (k, n) + ':%d' % id(d.get(n)) for n in _NAMES[k]]
    return out


def _limits():
    import resource
    return tuple((n, resource.getrlimit(getattr(resource, n))) for n in dir(resource) if n.startswith('RLIMIT_'))


def snapshot(L):
    import matplotlib
    import matplotlib.pyplot as plt
    import gdspy
    from autograd.tracer import trace_stack
    return {
        'floating-point error handling': tuple(sorted(np.geterr().items())),
        'floating-point error callback': repr(np.geterrcall()),
        'print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'warning filters': repr(warnings.filters),
        'warning display': (id(warnings.showwarning), id(warnings.formatwarning)),
        'standard output': id(sys.stdout),
        'standard error': id(sys.stderr),
        'standard input': id(sys.stdin),
        'signal handlers': tuple(repr(signal.getsignal(s)) for s in
                                 (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGALRM, signal.SIGPIPE)),
        'timers': signal.getitimer(signal.ITIMER_REAL)[1],
        'environment': tuple(sorted(os.environ.items())),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'plot settings': repr(sorted(matplotlib.rcParams.items(), key=str)),
        'plot backend': matplotlib.get_backend(),
        'interactive plotting': plt.isinteractive(),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'hooks': (id(sys.excepthook), id(sys.displayhook), repr(sys.gettrace()), repr(sys.getprofile()),
                  id(threading.excepthook)),
        'threads': threading.active_count(),
        'decimal context': repr(decimal.getcontext().prec),
        'import path': tuple(sys.path),
        'numerical backend': (type(L.backend).__name__, id(L.backend)),
        'print backend': repr(vars(sys.modules['legume.print_backend']).get('print_backend')).split(' at ')[0],
        'gdspy library': (id(gdspy.current_library), sorted(gdspy.current_library.cells)),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
                    logging.lastResort is None,
                    tuple((n, v.level, len(v.handlers), v.disabled, v.propagate) for n, v in
                          sorted(logging.root.manager.loggerDict.items()) if isinstance(v, logging.Logger)
                          if v.level or v.handlers or v.disabled or not v.propagate)),
        'active differentiation': trace_stack.top,
        'file creation mask': _umask(),
        'resource limits': _limits(),
        'priority': os.nice(0),
        'blocked signals': tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        'functions of libraries': _functions(),
        'fault handler': faulthandler.is_enabled(),
        'socket timeout': socket.getdefaulttimeout(),
        'collector callbacks': len(gc.callbacks),
        'pickling and copying': tuple(sorted(map(repr, copyreg.dispatch_table))),
        'time zone': time.tzname,
        'array functions': tuple(repr(np.__dict__.get(n)) for n in ('bool_', 'float64')),
        'registered colour maps': tuple(sorted(matplotlib.colormaps)),
    }


def rng():
    """Digests of the states of the global generators."""
    s = np.random.get_state()
    return [hashlib.sha1(s[1].tobytes() + repr(s[2:]).encode()).hexdigest(),
            hashlib.sha1(repr(random.getstate()).encode()).hexdigest()]


def changed(a, b):
    return [k for k in a if a[k] != b[k]]
