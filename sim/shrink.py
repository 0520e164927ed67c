"""Minimises a failing history while a violation of the same class persists."""
import copy
from . import seams

LISTS = ('ops', 'lanes', 'plan', 'shapes', 'layers', 'qws', 'steps', 'minds', 'sweep', 'calls')
DROPKEYS = ('opts', 'gme_options', 'exc_options', 'clad', 'eff', 'fault', 'console', 'clock', 'grid', 'opt')


def _paths(x, pre=()):
    """(path to list, index) and (path to dict, key) that may be removed."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('fault', 'console', 'clock', 'grid', 'clad', 'eff', 'callback', 'disk') and v is not None:
                yield ('key', pre, k)
            if k in ('opts', 'gme_options', 'exc_options', 'opt') and isinstance(v, dict):
                for kk in v:
                    if kk not in ('verbose', 'verbose_ex'):
                        yield ('key', pre + (k,), kk)
            if k in LISTS and isinstance(v, list):
                n = len(v)
                size = n // 2
                while size > 1:
                    for i in range(0, n, size):
                        yield ('cut', pre + (k,), i, size)
                    size //= 2
                for i in reversed(range(n)):
                    yield ('cut', pre + (k,), i, 1)
            if k == 'k' and isinstance(v, list) and v and isinstance(v[0], list) and len(v[0]) > 1:
                for i in reversed(range(len(v[0]))):
                    yield ('kcut', pre, i)
            yield from _paths(v, pre + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                yield from _paths(v, pre + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _apply(h, c):
    h = copy.deepcopy(h)
    o = _get(h, c[1])
    if c[0] == 'key':
        del o[c[2]]
    elif c[0] == 'cut':
        if len(o) <= 1 and c[1][-1] in ('layers', 'minds', 'lanes'):
            return None
        del o[c[2]:c[2] + c[3]]
    elif c[0] == 'kcut':
        for r in o['k']:
            del r[c[2]]
        if o.get('ang'):
            o['ang'] = o['ang'][:-1]
    return h


def shrink(C, eng, h, v, budget=40, maxeval=250):
    want = v[0]['cls']
    t0 = seams.real_perf()
    evals = 0
    best, bv = h, None

    def fails(x):
        nonlocal evals
        evals += 1
        try:
            vv, _ = C.evaluate(copy.deepcopy(x), eng)
        except Exception:
            return None
        vv = [y for y in vv if y['cls'] == want]
        return vv or None

    bv = fails(h)
    if not bv:
        return h, v
    progress = True
    while progress and evals < maxeval and seams.real_perf() - t0 < budget:
        progress = False
        tried = set()
        for c in list(_paths(best)):
            if evals >= maxeval or seams.real_perf() - t0 > budget:
                break
            try:
                x = _apply(best, c)
            except (IndexError, KeyError, TypeError):
                continue
            if x is None or repr(x) in tried:
                continue
            tried.add(repr(x))
            f = fails(x)
            if f:
                best, bv = x, f
                progress = True
                if c[0] == 'cut' and c[3] > 1:
                    break
    return best, bv
