"""Which events of the library are places for a fault.

Faults come out of calls (a failed allocation, a solver that does not converge)
or arrive while a call is running (an interrupt), so only lines with a call are
used, and none inside an exception handler or a finally block."""
import ast
import os
from . import boot

_cache = {}


def ok_lines(rel):
    if rel not in _cache:
        path = os.path.join(boot.REPO, 'legume', rel)
        ok, bad = set(), set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                ok.update(range(n.lineno, n.end_lineno + 1))
            if isinstance(n, ast.Try):
                for part in [h for h in n.handlers] + n.finalbody:
                    bad.update(range(part.lineno, part.end_lineno + 1))
        _cache[rel] = ok - bad
    return _cache[rel]


def usable(site):
    rel, line = site.rsplit(':', 1)
    return int(line) in ok_lines(rel)


EXC_LINE = ('KeyboardInterrupt', 'MemoryError')


def exc_for(callee, u):
    """A plausible failure of this callee, chosen by u in [0, 1)."""
    c = callee.lower()
    opts = ['KeyboardInterrupt', 'MemoryError']
    if any(x in c for x in ('eigh', 'inv', 'solve', 'linalg', 'svd', '.eig', 'norm')):
        opts = ['LinAlgError', 'LinAlgError', 'KeyboardInterrupt', 'MemoryError']
    if 'eigsh' in c or 'arpack' in c:
        opts = ['ArpackNoConvergence', 'ArpackError', 'KeyboardInterrupt', 'MemoryError']
    if any(x in c for x in ('root', 'brent', 'fsolve', 'bisect')):
        opts = ['ValueError', 'RuntimeError', 'KeyboardInterrupt']
    if 'print' in c or 'stdout' in c or 'console' in c or 'update_prog' in c:
        opts = ['OSError', 'KeyboardInterrupt', 'MemoryError']
    if 'seams' in c or c.startswith('time.'):
        opts = ['KeyboardInterrupt']
    return opts[int(u * len(opts)) % len(opts)]


SOLVERS = ('eigh', 'inv', 'solve', 'svd', '.eig', 'eigsh', 'root', 'brent', 'fsolve', 'bisect')


def place(profile, f):
    """Turn an abstract fault dict(ev, focus, u=[site, occurrence, kind]) into a
    concrete one (ev, n, exc), given the profile of the undisturbed operation."""
    u = f['u']
    focus = f.get('focus')

    def sel(items):
        items = [x for x in items if usable(x[0])]
        if focus:
            g = [x for x in items if x[0].startswith(tuple(focus))]
            items = g or items
        return items
    if f['ev'] == 'line':
        items = sel(profile['lines'])
        if not items:
            return None
        s, occ = items[int(u[0] * len(items)) % len(items)]
        return dict(ev='line', n=occ[int(u[1] * len(occ)) % len(occ)], site=s,
                    exc=EXC_LINE[int(u[2] * 2) % 2])
    items = sel(profile['calls'])
    if f.get('solver'):
        items = [x for x in items if any(n in x[1].lower() for n in SOLVERS)] or items
    if not items:
        return None
    s, name, off, occ = items[int(u[0] * len(items)) % len(items)]
    return dict(ev='call', n=occ[int(u[1] * len(occ)) % len(occ)], site=f'{s} -> {name}',
                exc=exc_for(name, u[2]))


def abstract(g):
    u = [g.r.random(), g.pick(0., 0., g.r.random(), .999), g.r.random()]
    if g.flip(.25):
        return dict(ev='call', u=[round(x, 6) for x in u], focus=None, solver=True)
    return dict(ev=g.pick('call', 'call', 'line'), u=[round(x, 6) for x in u],
                focus=g.pick(None, ['gme/gme.py', 'pol/', 'exc/exc.py', 'pwe/'], ['gme/gme.py', 'pol/', 'exc/exc.py', 'pwe/'], ['gme/slab', 'gme/matrix', 'backend', 'utils', 'phc/', 'print']))


def concretise(eng, ops, env, info=None):
    """Replace abstract faults by concrete ones, in order, from profiles of the
    same program."""
    ops = list(ops)
    for i, op in enumerate(ops):
        f = op.get('fault')
        if f and 'u' in f:
            base = {k: v for k, v in op.items() if k != 'fault'}
            prof = eng.exec(dict(kind='world', env=env, ops=ops[:i] + [base]), memo=False, profile=i)
            if prof.get('hang') or prof.get('crash') or 'profile' not in prof['obs'][-1]:
                ops[i] = base
                continue
            c = place(prof['obs'][-1]['profile'], f)
            ops[i] = dict(base, fault=c) if c else base
    return ops
