"""Comparison of observations.

`same` is the strict comparison (rounding only).  `diff_state` first tries the
strict one and, if asked to (gauge=True), then compares what is independent of
the free choices of an eigensolver: order inside a degenerate cluster, global
phases, bases of degenerate subspaces."""
import numpy as np

RT, AT = 1e-9, 1e-11


def _num(x):
    return isinstance(x, (int, float, complex)) and not isinstance(x, bool)


def same(a, b, rt=RT, at=AT):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except ValueError:
            return False
        if a_.shape != b_.shape:
            return False
        if a_.size == 0:
            return True
        if a_.dtype.kind in 'OUS' or b_.dtype.kind in 'OUS':
            return a_.tolist() == b_.tolist()
        s = float(np.max(np.abs(np.where(np.isfinite(b_), b_, 0))))
        return bool(np.allclose(a_, b_, rtol=rt, atol=at * (1 + s), equal_nan=True))
    if _num(a) and _num(b):
        return bool(np.isclose(a, b, rtol=rt, atol=at, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rt, at) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rt, at) for k in a)
    return type(a) == type(b) and a == b


def empty(x):
    if x is None:
        return True
    if isinstance(x, np.ndarray):
        return x.size == 0
    if isinstance(x, dict):
        return len(x) == 0 or all(empty(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return len(x) == 0
    return False


def clusters(f2, gap):
    """Indices grouped by closeness of the sorted values."""
    o = np.argsort(f2, kind='stable')
    out = [[int(o[0])]]
    for i in o[1:]:
        if f2[i] - f2[out[-1][-1]] < gap:
            out[-1].append(int(i))
        else:
            out.append([int(i)])
    return out


def _rad_t(f, fi):
    b = 2 * np.pi * np.asarray(fi)
    w = 2 * np.pi * np.asarray(f)
    return 2 * b * np.sqrt(w ** 2 + b ** 2)


def _close(x, y, rt, at):
    return bool(np.all(np.abs(np.asarray(x) - np.asarray(y)) <= at + rt * np.maximum(np.abs(x), np.abs(y))))


def diff_modes(fa, fb, va, vb, tol, edge=True):
    """Compare one k-point. Returns (reason or None, list of clusters, phases
    per mode (None if only the subspace is comparable), set of skipped)."""
    fa, fb = np.asarray(fa, float), np.asarray(fb, float)
    if fa.shape != fb.shape:
        return f'freq shape {fa.shape} != {fb.shape}', None, None, None
    a2, b2 = fa ** 2, fb ** 2
    if not np.all(np.abs(a2 - b2) <= tol * (1 + b2)):
        return f'frequencies differ: max {np.max(np.abs(fa - fb)):.3g}', None, None, None
    n = len(fa)
    cl = clusters(b2, max(1e-6, 30 * tol))
    ph = [None] * n
    skip = set()
    if va is None or vb is None:
        return None, cl, ph, set(range(n))
    va, vb = np.asarray(va), np.asarray(vb)
    if va.shape != vb.shape:
        return f'eigvec shape {va.shape} != {vb.shape}', None, None, None
    last = {int(np.argmax(b2)), int(np.argmin(b2))} if edge else set()
    vt = max(1e-7, 1e3 * tol)
    for c in cl:
        A, B = va[:, c], vb[:, c]
        ov = np.sum(np.conj(B) * A, axis=0)
        if np.all(np.abs(np.abs(ov) - 1) < vt):
            for i, m in enumerate(c):
                ph[m] = ov[i] / abs(ov[i])
            continue
        if last & set(c):
            skip |= set(c)
            continue
        if len(c) == 1:
            # close neighbours mix at the level of the eigensolver noise
            gap = min([abs(b2[c[0]] - b2[j]) for j in range(n) if j != c[0]] + [1.])
            if abs(ov[0]) ** 2 > 1 - (1e-10 / gap) ** 2 - 1e-6:
                skip |= set(c)
                continue
            return f'eigenvector of mode {c[0]} differs: overlap {abs(ov[0]):.9g}', None, None, None
        s = np.linalg.svd(np.conj(B.T) @ A, compute_uv=False)
        if np.any(np.abs(s - 1) > 1e-5):
            return f'eigenspace of modes {c} differs: {s}', None, None, None
    return None, cl, ph, skip


def diff_rad(k, fa, ra, fb, rb, cl, ph, skip, tol):
    """ra, rb: dict(fi=[..], coup={..: [per mode]}, gvec={..: [per mode]})."""
    lt = max(1e-6, 1e3 * tol)
    for c in cl:
        if any(m in skip for m in c):
            continue
        if min(fb[m] for m in c) < 1e-3:
            continue
        if all(ph[m] is not None for m in c):
            groups = [[m] for m in c]
        else:
            groups = [c]
        for g in groups:
            ta = sum(_rad_t(fa[m], ra['fi'][m]) for m in g)
            tb = sum(_rad_t(fb[m], rb['fi'][m]) for m in g)
            if not _close(ta, tb, lt, 1e-9):
                return f'losses differ: k {k} modes {g}: {ta!r} != {tb!r}'
            for key in rb['coup']:
                for m in g:
                    if np.shape(ra['coup'][key][m]) != np.shape(rb['coup'][key][m]):
                        return f'number of diffraction orders differs: k {k} mode {m} {key}'
                ca = sum(np.abs(ra['coup'][key][m]) ** 2 for m in g)
                cb = sum(np.abs(rb['coup'][key][m]) ** 2 for m in g)
                if not _close(ca, cb, lt, 1e-9):
                    return f'couplings differ: k {k} modes {g} {key}'
                if len(g) == 1 and ph[g[0]] is not None:
                    x = np.asarray(ra['coup'][key][g[0]])
                    y = np.asarray(rb['coup'][key][g[0]]) * np.conj(ph[g[0]])
                    if not _close(x, y, lt, 1e-6):
                        return f'coupling phases differ: k {k} mode {g[0]} {key}'
            for key in rb['gvec']:
                for m in g:
                    if not same(np.asarray(ra['gvec'][key][m]), np.asarray(rb['gvec'][key][m])):
                        return f'diffraction orders differ: k {k} mode {m} {key}'
            if 'unb' in rb and len(g) == 1 and tb > 1e-7:
                if abs(ra['unb'][g[0]] - rb['unb'][g[0]]) > 1e-4:
                    return f's/p unbalance differs: k {k} mode {g[0]}'
    return None


def _krad(s, k):
    return dict(fi=np.asarray(s['freqs_im'])[k],
                coup={key: v[k] for key, v in s['rad_coup'].items()},
                gvec={key: v[k] for key, v in s['rad_gvec'].items()},
                unb=np.asarray(s['unbalance_sp'])[k])


def diff_gme_k(sa, ka, sb, kb, tol=1e-9):
    """Compare the results at k index ka of state sa with kb of sb."""
    e, cl, ph, skip = diff_modes(sa['freqs'][ka], sb['freqs'][kb],
                                 sa['eigvecs'][ka] if not empty(sa['eigvecs']) else None,
                                 sb['eigvecs'][kb] if not empty(sb['eigvecs']) else None, tol)
    if e:
        return e
    if empty(sa['freqs_im']) != empty(sb['freqs_im']):
        return 'losses present in one only'
    if not empty(sb['freqs_im']):
        e = diff_rad(kb, sa['freqs'][ka], _krad(sa, ka), sb['freqs'][kb], _krad(sb, kb), cl, ph, skip, tol)
        if e:
            return e
    if empty(sa['kz_symms']) != empty(sb['kz_symms']):
        return 'symmetries present in one only'
    if not empty(sb['kz_symms']):
        for c in cl:
            if any(m in skip for m in c):
                continue
            if not same(sorted(np.asarray(sa['kz_symms'])[ka][c]), sorted(np.asarray(sb['kz_symms'])[kb][c])):
                return f'kz symmetries differ: modes {c}'
    return None


def diff_exc_k(sa, ka, sb, kb, tol=1e-9, name='eners'):
    ea, eb = np.asarray(sa[name])[ka], np.asarray(sb[name])[kb]
    if ea.shape != eb.shape:
        return f'{name} shape'
    if not _close(ea, eb, tol, tol):
        return f'{name} differ: max {np.max(np.abs(ea - eb)):.3g}'
    if not empty(sa['eigvecs']) and not empty(sb['eigvecs']):
        va, vb = np.asarray(sa['eigvecs'][ka]), np.asarray(sb['eigvecs'][kb])
        if va.shape != vb.shape:
            return 'eigvec shape'
        cl = clusters(eb, 1e-7 * (1 + abs(float(eb[0]))))
        for c in cl[1:-1]:
            s = np.linalg.svd(np.conj(vb[:, c].T) @ va[:, c], compute_uv=False)
            if np.any(np.abs(s - 1) > 1e-5):
                return f'eigenspace of states {c} differs'
    return None


def diff_pol_k(sa, ka, sb, kb, tol=1e-8):
    ea, eb = np.asarray(sa['eners'])[ka], np.asarray(sb['eners'])[kb]
    if ea.shape != eb.shape:
        return 'eners shape'
    # energies in meV; a photon without energy makes the matrix defective, and
    # the polariton energy near zero is the square root of the rounding error
    big = (np.abs(ea) > .1) | (np.abs(eb) > .1)
    if not _close(ea[big], eb[big], tol, max(1e-6, 1e3 * tol if tol > 1e-8 else 0)):
        return f'polariton energies differ: max {np.max(np.abs(ea - eb)):.3g}'
    cl = clusters(eb, max(1e-4, 1e4 * tol))
    ft = max(1e-5, 1e4 * tol if tol > 1e-8 else 0)
    for c in cl[:-1]:
        if not all(big[c]):
            continue
        for n in ('eners_im', 'fractions_ex', 'fractions_ph'):
            if empty(sb[n]) != empty(sa[n]):
                return f'{n} in one only'
            if empty(sb[n]):
                continue
            x, y = np.sum(np.asarray(sa[n])[ka][c]), np.sum(np.asarray(sb[n])[kb][c])
            if not _close(x, y, ft, .1 * ft):
                return f'{n} of states {c} differ: {x!r} != {y!r}'
    return None


def diff_state(a, b, tol=1e-9, gauge=False, kmap=None):
    """None or a reason. kmap: list of (index in a, index in b)."""
    if a.get('kind') != b.get('kind'):
        return 'kind'
    kind = b['kind']
    if kmap is None:
        bad = [n for n in b if n != 'kind' and not same(a.get(n), b[n])]
        if not bad:
            return None
        if not gauge:
            n = bad[0]
            return f'{n} differs{_how(a.get(n), b[n])} (all: {bad})'
        for n in ('kpoints', 'gvec'):
            if n in bad:
                return f'{n} differs'
        for x, y in zip(a.get('sub', []), b.get('sub', [])):
            e = diff_state(x, y, tol, gauge)
            if e:
                return f'inside: {e}'
        main = 'freqs' if kind in ('gme', 'pwe') else 'eners'
        if empty(a[main]) or empty(b[main]):
            return None if empty(a[main]) and empty(b[main]) else f'{main} in one only'
        if len(a[main]) != len(b[main]):
            return f'number of k-points in {main} differs'
        kmap = [(i, i) for i in range(len(b[main]))]
    for i, j in kmap:
        if kind == 'gme':
            e = diff_gme_k(a, i, b, j, tol)
        elif kind == 'pwe':
            e, *_ = diff_modes(a['freqs'][i], b['freqs'][j], a['eigvecs'][i], b['eigvecs'][j], tol)
        elif kind == 'exc':
            e = diff_exc_k(a, i, b, j, tol)
        else:
            e = diff_pol_k(a, i, b, j, max(tol, 1e-8))
        if e:
            return f'k index {i}/{j}: {e}'
    return None


def _how(a, b):
    try:
        if empty(a) != empty(b):
            return ' (empty in one only)'
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f' (shape {a.shape} vs {b.shape})'
        return f' (max abs {float(np.max(np.abs(a - b))):.3g})'
    except Exception:
        return ''
