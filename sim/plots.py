"""Plots among other figures: what every figure shows, before and after."""
import numpy as np
from .compare import same


def _plt():
    import matplotlib.pyplot as plt
    return plt


# ------------------------------------------------------------------ what is shown
def arr(x):
    return np.array(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan))


def artists(ax):
    """[(identity, description)] of what was drawn into the axes."""
    out = []
    for l in ax.lines:
        out.append((id(l), ['line', np.column_stack([arr(l.get_xdata()), arr(l.get_ydata())]),
                            str(l.get_linestyle()), str(l.get_marker()), str(l.get_color())]))
    for c in ax.collections:
        a = c.get_array()
        paths = [np.array(p.vertices) for p in c.get_paths()]
        nm = c.norm
        out.append((id(c), ['coll', type(c).__name__, arr(c.get_offsets()), None if a is None else arr(a).ravel(), paths,
                            [type(nm).__name__, nm.vmin, nm.vmax] if a is not None else None,
                            np.array(c.get_edgecolor(), float), np.array(c.get_facecolor(), float)]))
    for im in ax.images:
        out.append((id(im), ['image', arr(im.get_array()), list(map(float, im.get_extent())), list(im.get_clim()),
                             im.origin, im.get_cmap().name]))
    for p in ax.patches:
        out.append((id(p), ['patch', np.array(p.get_path().vertices)]))
    for t in ax.texts:
        out.append((id(t), ['text', t.get_text()]))
    return out


def look(ax):
    return [[d for _, d in artists(ax)], ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), list(ax.get_xlim()),
            list(ax.get_ylim()), str(ax.get_aspect()), ax.axison, [c.get_label() for c in ax.child_axes]]


def show(fig):
    return [[look(a) for a in fig.axes], fig.get_suptitle(), list(fig.get_size_inches())]


class Figs:
    """The figures of the caller."""

    def __init__(self):
        self.d = {}

    def op_fig(self, op):
        plt = _plt()
        if op.get('oo'):
            from matplotlib.figure import Figure
            f = Figure(figsize=(3, 2))
        else:
            f = plt.figure(figsize=(3, 2))
        for j in range(op['n']):
            a = f.add_subplot(1, op['n'], j + 1)
            if op.get('old'):
                a.plot([0, 1, 2], [j, 3, 1], 'r--')
                a.set_title(f'of the caller {j}')
                a.imshow(np.arange(6.).reshape(2, 3))
                a.set_xlim(0, 7 + j)
        self.d[op['id']] = f

    def op_sel(self, op):
        f = self.d.get(op['f'])
        if f is None or not self.managed(f):
            return
        plt = _plt()
        plt.figure(f.number)
        if f.axes:
            plt.sca(f.axes[op['a'] % len(f.axes)])

    def op_shut(self, op):
        f = self.d.pop(op['f'], None)
        if f is not None and self.managed(f):
            _plt().close(f)

    def managed(self, f):
        return any(m.canvas.figure is f for m in _managers())


def _managers():
    from matplotlib._pylab_helpers import Gcf
    return list(Gcf.figs.values())


def current():
    """Current figure and axes, without making any."""
    from matplotlib._pylab_helpers import Gcf
    m = Gcf.get_active()
    if m is None:
        return None, None
    f = m.canvas.figure
    return f, (f._axstack.current() if hasattr(f, '_axstack') else None)


# ------------------------------------------------------------------ plots
def op_plot(w, op):
    """Draws and looks at all figures. Returns the problems."""
    from .world import Skip
    figs = w.figs
    v, kind, o = w.L.viz, None, None
    if op.get('e') is not None:
        if op['e'] not in w.engines:
            raise Skip('no engine')
        kind, o = w.engines[op['e']]
    else:
        if op['s'] not in w.structs:
            raise Skip('no struct')
        o = w.structs[op['s']]
    if op.get('need') and len(getattr(o, op['need'], ())) == 0:
        raise Skip('no results')
    known = {f'{i}': f for i, f in figs.d.items()}
    for m in _managers():
        if not any(f is m.canvas.figure for f in known.values()):
            known[f'figure {m.num}'] = m.canvas.figure
    before = {i: show(f) for i, f in known.items()}
    man0 = [m.canvas.figure for m in _managers()]
    cur0 = current()
    kw = dict(op.get('kw', {}))
    target, tax, gs = None, None, None
    if op.get('on') and op['on'][0] in figs.d:
        target = figs.d[op['on'][0]]
        if op['fn'] in GRID:
            import matplotlib.gridspec as mg
            gs = mg.GridSpec(1, 2, figure=target)[0, op['on'][1] % 2]
            kw.update(fig=target, gridspec=gs)
        elif target.axes:
            free = [a for a in target.axes if not is_bar(a)]
            tax = free[op['on'][1] % len(free)]
            kw['ax'] = tax
        else:
            target = None
    old = {id(a) for a in target.axes} if target is not None else set()
    had = {i for i, _ in artists(tax)} if tax is not None else set()
    err = None
    try:
        DRAW[op['fn']](v, o, kw)
    except BaseException as e:
        err = e
    bad = []
    # the other figures and axes
    for i, f in known.items():
        if f is target:
            now = show(f)
            for a, b in zip(f.axes, before[i][0]):
                if a is not tax and not same(look(a), b):
                    bad.append(['other-axes-changed', f'other axes of the figure {i} drawn into'])
            continue
        if not same(show(f), before[i]):
            bad.append(['other-figure-changed', f'figure {i}'])
    man1 = [m.canvas.figure for m in _managers()]
    if any(all(f is not g for g in man1) for f in man0):
        bad.append(['figure-closed', ''])
    new = [f for f in man1 if all(f is not g for g in man0)]
    if target is not None:
        if new:
            bad.append(['stray-figure', f'{len(new)} new figures although it draws into a given one'])
        if not (current()[0] is cur0[0] and current()[1] is cur0[1]) and target is not cur0[0]:
            bad.append(['current-figure-changed', ''])
    elif len(new) > 1:
        bad.append(['stray-figure', f'{len(new)} new figures'])
    if err is not None:
        if not bad and op['fn'] == 'field' and isinstance(err, Exception):
            # the field itself cannot be had, e.g. at zero frequency
            try:
                EXPECT['field'](w, kind, o, op.get('kw', {}), [[None, []]] * len(op['kw'].get('component', 'xyz')))
            except Shape:
                pass
            except Exception as e:
                if type(e) is type(err):
                    raise Skip('no field')
        if op.get('invalid') and isinstance(err, Exception) and target is None and new and not bad:
            # refused, so there is nothing to show
            bad.append(['stray-figure', f'{len(new)} new figures of a plot that was refused'])
        if bad:
            return dict(bad=bad, exc=type(err).__name__)
        raise err
    # what it drew
    if target is None:
        if len(new) != 1:
            bad.append(['no-figure', f'{len(new)} new figures'])
            return dict(bad=bad)
        fig = new[0]
        axes = [a for a in fig.axes]
        if op.get('id'):
            figs.d[op['id']] = fig
    else:
        fig = target
        axes = [tax] if tax is not None else []
        axes += [a for a in fig.axes if id(a) not in old]
    drawn = [(a, [d for i, d in artists(a) if i not in had]) for a in axes]
    bars = [(a, d) for a, d in drawn if is_bar(a)]
    main = [(a, d) for a, d in drawn if not any(a is b for b, _ in bars)]
    if op['fn'] in GRID:
        main = [(a, d) for a, d in main if d]
    try:
        for p in EXPECT[op['fn']](w, kind, o, op.get('kw', {}), main):
            bad.append(['wrong-content', p])
        nb = BARS.get(op['fn'], lambda k, n: 0)(op.get('kw', {}), len(main))
        if nb is not None and len(bars) != nb:
            bad.append(['wrong-colorbars', f'{len(bars)} instead of {nb}'])
    except Shape as e:
        bad.append(['wrong-content', str(e)])
    return dict(bad=bad)


def is_bar(a):
    return a.get_label() == '<colorbar>' or getattr(a, '_colorbar', None) is not None


class Shape(Exception):
    pass


GRID = ('structure', 'eps_ft', 'pot_ft')
DRAW = dict(
    bands=lambda v, o, kw: v.bands(o, **kw),
    pol_bands=lambda v, o, kw: v.pol_bands(o, **kw),
    eps=lambda v, o, kw: v.eps(o.layers[kw.pop('layer') % len(o.layers)], **kw),
    eps_xy=lambda v, o, kw: v.eps_xy(o, **kw),
    eps_xz=lambda v, o, kw: v.eps_xz(o, **kw),
    eps_yz=lambda v, o, kw: v.eps_yz(o, **kw),
    shapes=lambda v, o, kw: v.shapes(o.layers[kw.pop('layer') % len(o.layers)], **kw),
    structure=lambda v, o, kw: v.structure(o, **kw),
    eps_ft=lambda v, o, kw: v.eps_ft(o, **kw),
    pot_ft=lambda v, o, kw: v.pot_ft(o, **kw),
    reciprocal=lambda v, o, kw: v.reciprocal(o),
    field=lambda v, o, kw: v.field(o, kw.pop('field'), kw.pop('kind'), kw.pop('mind'), **kw),
    wavef=lambda v, o, kw: v.wavef(o, kw.pop('kind'), kw.pop('mind'), **kw),
)
BARS = dict(
    bands=lambda kw, n: int(bool(kw.get('Q'))),
    pol_bands=lambda kw, n: int(bool(kw.get('Q', True) or kw.get('fraction'))),
    eps=lambda kw, n: int(kw.get('cbar', False)), eps_xy=lambda kw, n: int(kw.get('cbar', False)),
    eps_xz=lambda kw, n: int(kw.get('cbar', False)), eps_yz=lambda kw, n: int(kw.get('cbar', False)),
    structure=lambda kw, n: n if kw.get('cbar', True) else 0,
    eps_ft=lambda kw, n: n if kw.get('cbar', True) else 0,
    pot_ft=lambda kw, n: n if kw.get('cbar', True) else 0,
    field=lambda kw, n: n if kw.get('cbar', True) else 0,
    wavef=lambda kw, n: n if kw.get('cbar', True) else 0,
)


# ------------------------------------------------------------------ what they should show
def one(main):
    if len(main) != 1:
        raise Shape(f'{len(main)} axes drawn into')
    return main[0]


def pts_sorted(a):
    return a[np.lexsort((np.round(a[:, 1], 9), np.round(a[:, 0], 9)))]


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True)))


def x_axis(k, units):
    n = k.shape[1]
    if not units:
        return np.arange(n, dtype=float)
    s = [0.]
    for i in range(1, n):
        s.append(s[-1] + float(np.hypot(*(k[:, i] - k[:, i - 1]))))
    return np.array(s) / s[-1] if s[-1] > 0 else np.array(s)


def exp_bands(w, kind, o, kw, main, pol=False):
    ax, d = one(main)
    out = []
    k = np.asarray(o.kpoints, float)
    E = np.asarray(o.eners if pol else o.freqs, float)
    conv = 1.
    if not pol and kw.get('eV'):
        conv = 2 * np.pi * 299792458. / (kw['a']) / 1.602176634e-19 * 6.62607015e-34 / (2 * np.pi)
    X = x_axis(k, kw.get('k_units'))
    want = np.array([[X[i], conv * E[i, m]] for i in range(E.shape[0]) for m in range(E.shape[1])])
    tol = 1e-7 if conv == 1. else 1e-5
    got, col = [], None
    sc = [c for c in d if c[0] == 'coll' and c[1] == 'PathCollection']
    for c in d:
        if c[0] == 'line':
            got.append(c[1])
    for c in sc:
        got.append(c[2])
        col = c[3]
    got = np.concatenate(got) if got else np.zeros((0, 2))
    if not close(pts_sorted(got), pts_sorted(want), tol):
        out.append(f'points of the bands: {len(got)} shown, {len(want)} expected, '
                   f'{"" if got.shape != want.shape else np.max(np.abs(pts_sorted(got) - pts_sorted(want)))}')
        return out
    # colours belong to their points
    def cmap(c, val, what):
        want_c = np.column_stack([want, np.asarray(val, float).reshape(-1, 1)])
        got_c = np.column_stack([sc[0][2], c.reshape(-1, 1)])
        f = lambda a: a[np.lexsort((np.round(a[:, 2], 6), np.round(a[:, 1], 9), np.round(a[:, 0], 9)))]
        if not close(f(got_c), f(want_c), 1e-6):
            out.append(f'{what}: the colours do not belong to the points')
    def span(lo, hi, what):
        nm = [c[5] for c in sc if c[5]]
        for a, b, n in zip(nm[0][1:] if nm else [None, None], (lo, hi), ('lowest', 'highest')):
            if b is not None and (a is None or not close(a, b, 1e-6)):
                out.append(f'{what}: the {n} colour stands for {a} instead of {b}')

    if pol and kw.get('fraction'):
        cmap(col, o.fractions_ex, 'excitonic fractions')
        span(0., 1., 'excitonic fractions')
    elif kw.get('Q', pol):
        im = np.asarray(o.eners_im if pol else o.freqs_im, float)
        cmap(np.log(np.maximum(col, 1e-300)), np.log(np.maximum(E / 2 / (im + 1e-16), 1e-300)), 'quality factors')
        if pol:
            span(kw.get('Q_min', 1e2), kw.get('Q_max', 1e4), 'quality factors')
        else:
            q, clip = E / 2 / (im + 1e-16), kw.get('Q_clip', 1e10)
            below = q[q < clip]
            # (matplotlib widens the range of the colours when it is empty)
            if below.size and q.min() < .9 * below.max():
                span(None, below.max(), 'quality factors')
    elif not pol and kind == 'gme' and str(o.kz_symmetry).lower() == 'both' and kw.get('show_symmetry', True):
        cmap(col, np.asarray(o.kz_symms, float), 'symmetries')
    # light cone
    if kw.get('cone', True) and kind != 'pwe':
        phc = o.gme.phc if pol else o.phc
        if pol:
            conv = 2 * np.pi * 299792458. / o.a / 1.602176634e-19 * 6.62607015e-34 / (2 * np.pi)
        n = np.sqrt(max(float(np.real(phc.claddings[0].eps_avg)), float(np.real(phc.claddings[1].eps_avg))))
        ll = np.column_stack([X, conv * np.hypot(k[0], k[1]) / 2 / np.pi / n])
        poly = [p for c in d if c[0] == 'coll' and c[1] != 'PathCollection' for p in c[4]]
        if not poly:
            out.append('the light cone is missing')
        else:
            v = np.concatenate(poly)
            for p in ll:
                if np.min(np.max(np.abs(v - p) / (1e-5 + np.abs(p)), axis=1)) > 1e-4 and np.min(np.max(np.abs(v - p), axis=1)) > 1e-5:
                    out.append(f'the light cone does not pass through {p}')
                    break
    elif any(c[0] == 'coll' and c[1] != 'PathCollection' for c in d):
        out.append('a light cone although none was asked for')
    if k.shape[1] > 1 and not close(ax.get_xlim(), [0, X[-1]]):
        out.append(f'range of the wave vectors {ax.get_xlim()}')
    if not close(ax.get_ylim(), [0, (1. if pol else conv) * E.max()], 1e-4) and E.max() > 0:
        out.append(f'range of the frequencies {ax.get_ylim()}, highest {conv * E.max()}')
    return out


def image(d, n=1):
    im = [x for x in d if x[0] == 'image']
    if len(im) != n:
        raise Shape(f'{len(im)} images')
    return im[0]


def cmp_image(d, val, g1, g2, clim=None, what='image'):
    im = image(d)
    out = []
    if not close(im[1], np.asarray(val, float), 1e-7):
        out.append(f'{what}: other values')
    if not close(im[2], [g1[0], g1[-1], g2[0], g2[-1]]) or im[4] != 'lower':
        out.append(f'{what}: extent {im[2]} instead of {[g1[0], g1[-1], g2[0], g2[-1]]}')
    if clim is not None and not close(im[3], clim):
        out.append(f'{what}: range of the colours {im[3]} instead of {clim}')
    return out


def plane(phc, pl, c, n1, n2):
    """Permittivity of the crystal at the points of a plane."""
    if pl == 'xy':
        g1, g2 = phc.lattice.xy_grid(Nx=n1, Ny=n2)
        X, Y = np.meshgrid(g1, g2)
        p = (X, Y, c * np.ones(X.shape))
    elif pl == 'xz':
        g1, g2 = phc.lattice.xy_grid(Nx=n1)[0], phc.z_grid(Nz=n2)
        X, Z = np.meshgrid(g1, g2)
        p = (X, c * np.ones(X.shape), Z)
    else:
        g1, g2 = phc.lattice.xy_grid(Ny=n1)[1], phc.z_grid(Nz=n2)
        Y, Z = np.meshgrid(g1, g2)
        p = (c * np.ones(Y.shape), Y, Z)
    # point by point
    val = np.array([[float(np.real(np.asarray(phc.get_eps((np.array([[p[0][i, j]]]), np.array([[p[1][i, j]]]),
                                                           np.array([[p[2][i, j]]])))).ravel()[0]))
                     for j in range(len(g1))] for i in range(len(g2))])
    return val, g1, g2


def exp_plane(pl, cn, n1, n2):
    def f(w, kind, o, kw, main):
        ax, d = one(main)
        val, g1, g2 = plane(o, pl, kw.get(cn, 0), kw[n1], kw[n2])
        return cmp_image(d, val, g1, g2, kw.get('clim'), 'eps_' + pl)
    return f


def exp_eps(w, kind, o, kw, main):
    ax, d = one(main)
    l = o.layers[kw['layer'] % len(o.layers)]
    g1, g2 = l.lattice.xy_grid(Nx=kw['Nx'], Ny=kw['Ny'])
    val = [[float(np.asarray(l.get_eps((np.array([[x]]), np.array([[y]])))).ravel()[0]) for x in g1] for y in g2]
    return cmp_image(d, val, g1, g2, kw.get('clim'), 'eps')


def exp_shapes(w, kind, o, kw, main):
    ax, d = one(main)
    out = []
    l = o.layers[kw['layer'] % len(o.layers)]
    lines = [x for x in d if x[0] == 'line']
    per = 5 if kw.get('pad', True) else 1
    if len(lines) != per * len(l.shapes):
        return [f'{len(lines)} outlines of {len(l.shapes)} shapes']
    a1, a2 = np.asarray(l.lattice.a1, float)[:2], np.asarray(l.lattice.a2, float)[:2]
    offs = [np.zeros(2)] + ([a1, -a1, a2, -a2] if per == 5 else [])
    left = list(lines)
    for s in l.shapes:
        for t in offs:
            hit = None
            for q in left:
                p = q[1] - t
                if on_outline(s, p):
                    hit = q
                    break
            if hit is None:
                out.append(f'no outline of {type(s).__name__} shifted by {t}')
                return out
            left = [q for q in left if q is not hit]
            if q[4] != kw.get('color', 'k'):
                out.append(f'colour {q[4]}')
    gx, gy = l.lattice.xy_grid(Nx=2, Ny=2)
    if not (close(ax.get_xlim(), [gx[0], gx[-1]]) and close(ax.get_ylim(), [gy[0], gy[-1]])):
        out.append(f'range {ax.get_xlim()}, {ax.get_ylim()}')
    return out


def on_outline(s, p):
    """A closed line along the border of the shape, all around."""
    n = type(s).__name__
    if n in ('Circle', 'Ellipse'):
        if n == 'Circle':
            rx = ry = float(s.r)
            ph = 0.
        else:
            rx, ry, ph = float(s.rx), float(s.ry), float(s.phi)
        u = p[:, 0] * np.cos(ph) + p[:, 1] * np.sin(ph)
        v = -p[:, 0] * np.sin(ph) + p[:, 1] * np.cos(ph)
        if n == 'Circle':
            u, v = p[:, 0], p[:, 1]
        u, v = (u - float(s.x_cent)) / rx, (v - float(s.y_cent)) / ry
        if np.max(np.abs(np.hypot(u, v) - 1)) > 1e-6:
            return False
        t = np.sort(np.mod(np.arctan2(v, u), 2 * np.pi))
        gap = np.max(np.diff(np.concatenate([t, [t[0] + 2 * np.pi]])))
        return gap < .8
    from .gdsim import match_poly
    x, y = np.asarray(s.x_edges, float), np.asarray(s.y_edges, float)
    v = np.column_stack([x, y])
    if np.allclose(v[0], v[-1]):
        v = v[:-1]
    q = p[:-1] if len(p) > 1 and np.allclose(p[0], p[-1]) else p
    return len(p) > len(v) and match_poly(q, v, 1e-7)


def exp_structure(w, kind, o, kw, main):
    phc = o if kind is None else (o.gme.phc if kind == 'pol' else o.phc)
    lo, hi = phc.get_eps_bounds()
    want = []
    if kw.get('xz'):
        want.append(('xz', 0, kw['Nx'], kw['Nz'], 'xz at y = 0'))
    if kw.get('yz'):
        want.append(('yz', 0, kw['Ny'], kw['Nz'], 'yz at x = 0'))
    if kw.get('xy', True):
        ls = list(phc.layers)
        if kw.get('cladding'):
            ls = [phc.claddings[0]] + ls + [phc.claddings[1]]
        for i, l in enumerate(ls):
            t = f'xy in layer {i}'
            if kw.get('cladding') and i in (0, len(ls) - 1):
                t = 'xy in lower cladding' if i == 0 else 'xy in upper cladding'
            want.append(('xy', (l.z_max + l.z_min) / 2, kw['Nx'], kw['Ny'], t))
    if len(main) != len(want):
        return [f'{len(main)} cross-sections instead of {len(want)}']
    out = []
    for (pl, c, n1, n2, t), (ax, d) in zip(want, main):
        val, g1, g2 = plane(phc, pl, c, n1, n2)
        out += cmp_image(d, val, g1, g2, [lo, hi], t)
        if ax.get_title() != t:
            out.append(f'title {ax.get_title()!r} instead of {t!r}')
    return out


def exp_eps_ft(w, kind, o, kw, main):
    if kind == 'pwe':
        ls = [o.layer]
    else:
        ls = list(o.phc.layers)
        if kw.get('cladding'):
            ls = [o.phc.claddings[0]] + ls + [o.phc.claddings[1]]
    if len(main) != len(ls):
        return [f'{len(main)} cross-sections instead of {len(ls)}']
    out = []
    lo = hi = float(ls[0].eps_b)
    vals = []
    for l in ls:
        e, g1, g2 = o.get_eps_xy(Nx=kw['Nx'], Ny=kw['Ny'], z=l.z_mid)
        e = np.real(e)
        vals.append((e, g1, g2))
        lo, hi = min(lo, e.min()), max(hi, e.max())
    for (e, g1, g2), (ax, d) in zip(vals, main):
        out += cmp_image(d, e, g1, g2, [lo, hi] if hi - lo > 1e-9 else None, 'eps_ft ' + ax.get_title())
    return out


def exp_pot_ft(w, kind, o, kw, main):
    ax, d = one(main)
    e, g1, g2 = o.get_pot_xy(Nx=kw['Nx'], Ny=kw['Ny'])
    out = cmp_image(d, np.real(e), g1, g2, [0, abs(o.V_shapes)] if abs(o.V_shapes) > 1e-9 else None, 'pot_ft')
    # the sum over all differences of two reciprocal vectors
    g = np.asarray(o.gvec, float)
    dg = np.column_stack([g[:, i] - g[:, j] for i in range(g.shape[1]) for j in range(g.shape[1])])
    _, i = np.unique(np.round(dg, 7) + 0., axis=1, return_index=True)
    dg = dg[:, i]
    c = np.asarray(o.layer.compute_exc_ft(dg, o.V_shapes))
    X, Y = np.meshgrid(g1, g2)
    v = sum(c[n] * np.exp(1j * (dg[0, n] * X + dg[1, n] * Y)) for n in range(dg.shape[1]))
    out += cmp_image(d, np.real(v), g1, g2, None, 'pot_ft (sum of all Fourier components)')
    return out


def exp_recip(w, kind, o, kw, main):
    ax, d = one(main)
    g = np.asarray(o.gvec, float)
    got = [x[1] for x in d if x[0] == 'line']
    if len(got) != 1 or not close(pts_sorted(got[0]), pts_sorted(g.T)):
        return ['other reciprocal lattice vectors']
    return []


def exp_field(w, kind, o, kw, main):
    comp = kw.get('component', 'xyz')
    if len(main) != len(comp):
        return [f'{len(main)} components instead of {len(comp)}']
    n1, n2 = kw['N1'], kw['N2']
    f = kw['field']
    if kind == 'pwe':
        fi, g1, g2 = o.get_field_xy(f, kw['kind'], kw['mind'], component=comp, Nx=n1, Ny=n2)
        pl, c = 'xy', 0.
    else:
        pl, c = [(p, kw[q]) for p, q in (('xy', 'z'), ('xz', 'y'), ('yz', 'x')) if kw.get(q) is not None][0]
        if pl == 'xy':
            fi, g1, g2 = o.get_field_xy(f, kw['kind'], kw['mind'], c, component=comp, Nx=n1, Ny=n2)
        elif pl == 'xz':
            fi, g1, g2 = o.get_field_xz(f, kw['kind'], kw['mind'], c, component=comp, Nx=n1, Nz=n2)
        else:
            fi, g1, g2 = o.get_field_yz(f, kw['kind'], kw['mind'], c, component=comp, Ny=n1, Nz=n2)
    k = np.asarray(o.kpoints, float)[:, kw['kind']]
    out = []
    for cm, (ax, d) in zip(comp, main):
        v = np.array(fi[cm])
        if not kw.get('periodic', True):
            for i in range(len(g2)):
                for j in range(len(g1)):
                    x, y = dict(xy=(g1[j], g2[i]), xz=(g1[j], c), yz=(c, g1[j]))[pl]
                    v[i, j] = v[i, j] * np.exp(1j * (k[0] * x + k[1] * y))
        v = dict(re=np.real, im=np.imag, abs=np.abs)[kw.get('val', 're')](v)
        lim = float(np.max(np.abs(v)))
        out += cmp_image(d, v, g1, g2, [0 if kw.get('val') == 'abs' else -lim, lim] if lim > 1e-12 else None, f'{f}_{cm}')
        t = ax.get_title()
        if '$f = %.2f$' % o.freqs[kw['kind'], kw['mind']] not in t:
            out.append(f'title {t!r}')
        if f'at $k_{{{kw["kind"]}}}$' not in t or f'_{{{cm}{kw["mind"]}}}' not in t:
            out.append(f'title {t!r}')
        if kind == 'gme' and len(o.freqs_im) > 0:
            im = o.freqs_im[kw['kind'], kw['mind']]
            q = '$Q = %.2E$' % (o.freqs[kw['kind'], kw['mind']] / 2 / im) if abs(im) > 1e-20 else 'Q = Inf'
            if q not in t:
                out.append(f'title {t!r} without {q}')
        elif 'Q' in t:
            out.append(f'quality factor in {t!r} although the losses are not known')
    return out


def exp_wavef(w, kind, o, kw, main):
    ax, d = one(main)
    v, g1, g2 = o.get_wavef_xy(kw['kind'], kw['mind'], Nx=kw['N1'], Ny=kw['N2'])
    v = dict(re=np.real, im=np.imag, abs2=lambda x: np.abs(x) ** 2)[kw.get('val', 'abs2')](v)
    out = cmp_image(d, v, g1, g2, None, 'wavef')
    e = f"{np.real(o.eners[kw['kind'], kw['mind']]):.2E}"
    if e not in ax.get_title():
        out.append(f'title {ax.get_title()!r} without {e}')
    return out


EXPECT = dict(bands=exp_bands, pol_bands=lambda *a: exp_bands(*a, pol=True), eps=exp_eps, eps_xy=exp_plane('xy', 'z', 'Nx', 'Ny'),
              eps_xz=exp_plane('xz', 'y', 'Nx', 'Nz'), eps_yz=exp_plane('yz', 'x', 'Ny', 'Nz'), shapes=exp_shapes,
              structure=exp_structure, eps_ft=exp_eps_ft, pot_ft=exp_pot_ft, reciprocal=exp_recip, field=exp_field,
              wavef=exp_wavef)
