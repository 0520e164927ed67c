"""Constructing and using single objects with arguments in every accepted
form (lists, arrays, integers, read-only, clockwise); used by C15, which
compares the arguments afterwards."""
import math

FORMS = ('list', 'list', 'array', 'array', 'ints', 'tuple', 'fortran', 'ro')


def form(x, f):
    """x: list (of lists)."""
    import numpy as np
    if f == 'list':
        return [list(a) if isinstance(a, (list, tuple)) else a for a in x]
    if f == 'tuple':
        return tuple(tuple(a) if isinstance(a, (list, tuple)) else a for a in x)
    a = np.array(x, dtype=float)
    if f == 'ints':
        return np.array(np.rint(a * 10), dtype=int)
    if f == 'fortran':
        return np.asfortranarray(a)
    if f == 'ro':
        a.flags.writeable = False
    return a


def gen_ctor(g):
    kind = g.pick('poly', 'poly', 'poly', 'fourier', 'lattice', 'well', 'path', 'points', 'ft', 'utils')
    op = dict(op='ctor', kind=kind, forms=[g.pick(*FORMS) for _ in range(3)])
    if kind == 'poly':
        n = g.pick(3, 4, 5)
        ph = g.num(0., 6.)
        v = [[round(g.num(.1, .3) * math.cos(ph + 2 * math.pi * i / n), 4) for i in range(n)],
             [round(g.num(.1, .3) * math.sin(ph + 2 * math.pi * i / n), 4) for i in range(n)]]
        if g.flip():
            v = [a[::-1] for a in v]
        if g.flip(.3):
            v = [a + a[:1] for a in v]                      # closed
        op.update(xs=v[0], ys=v[1], rot=g.pick(None, .3))
        if g.flip(.6):
            op['forms'] = [op['forms'][0]] * 3
    elif kind == 'fourier':
        op.update(a=[.2] + [g.num(-.02, .02) for _ in range(g.pick(1, 3))], b=[g.num(-.02, .02) for _ in range(g.pick(1, 2))])
    elif kind == 'lattice':
        op.update(a1=[g.num(-1., 1.), g.num(.3, 1.)], a2=[g.num(.3, 1.), g.num(-1., .1)])
    elif kind == 'well':
        op.update(osc=[1e17, 2e17, g.pick(0., 1e16)])
    elif kind == 'path':
        op.update(pts=g.pick(['G', 'M', 'K', 'G'], ['G', [1., .5], 'X'], [[0., 0.], [1., 0.]]), ns=g.pick([3], [2, 4], [1, 1, 2]))
    elif kind in ('points', 'ft'):
        k = g.pick(1, 4)
        op.update(p=[[g.num(-1., 1.) for _ in range(k)] for _ in range(3)])
    return op


def do_ctor(w, op):
    import numpy as np
    L = w.L
    k, f = op['kind'], op['forms']

    def arg(label, x, i):
        return w.arg(label, form(x, f[i]))

    def tryit(fn, *a, **kw):
        try:
            return fn(*a, **kw)
        except (ValueError, TypeError, IndexError, AttributeError, KeyError, NotImplementedError):
            return None                            # refused; the arguments stay the caller's
    if k == 'poly':
        s = tryit(L.Poly, 3., arg('x_edges', op['xs'], 0), arg('y_edges', op['ys'], 1))
        if s is not None and op['rot'] is not None:
            tryit(s.rotate, op['rot'])
    elif k == 'fourier':
        s = tryit(L.FourierShape, 3., .1, .2, arg('f_as', op['a'], 0), arg('f_bs', op['b'], 1))
        lay = tryit(L.phc.ShapesLayer, L.Lattice('square'), 0, 1, 2.)
        if s is not None and lay is not None:
            tryit(lay.add_shape, w.arg('shapes', [s]))
    elif k == 'lattice':
        a1, a2 = arg('a1', op['a1'], 0), arg('a2', op['a2'], 1)
        lat = tryit(L.Lattice, a1, a2)
        if lat is not None:
            tryit(lat.xy_grid, 3, 4, periods=w.arg('periods', [2, 1]))
    elif k == 'well':
        p = L.PhotCryst(L.Lattice('square'))
        p.add_layer(.5, eps_b=12.)
        tryit(p.add_qw, .2, .1, 4e-7, 2e-31, 1.5, 1e-4, arg('osc_str', op['osc'], 0))
        tryit(p.add_shape, w.arg('shapes', [L.Circle(1., 0., 0., .2)]))
    elif k == 'path':
        lat = L.Lattice('hexagonal')
        pts = [form(x, f[i % 3]) if isinstance(x, list) else x for i, x in enumerate(op['pts'])]
        tryit(lat.bz_path, w.arg('pts', pts), w.arg('ns', list(op['ns']) if f[0] != 'tuple' else tuple(op['ns'])),
              symm_g=w.arg('symm_g', [np.pi, 0]))
    elif k in ('points', 'ft'):
        p = L.PhotCryst(L.Lattice('square'))
        p.add_layer(.5, eps_b=12.)
        sh = [L.Circle(1., 0., 0., .2), L.Poly(1., [.2, .4, .3], [.2, .2, .4]), L.Ellipse(2., -.3, -.3, .1, .2, .3)]
        p.add_shape(w.arg('shapes', sh))
        xyz = [arg(n, a, i) for n, a, i in zip('xyz', op['p'], range(3))]
        if k == 'points':
            tryit(p.get_eps, xyz)
            for s in sh:
                tryit(s.is_inside, xyz[0], xyz[1])
        else:
            gv = arg('gvec', op['p'][:2], 0)
            for s in sh:
                tryit(s.compute_ft, gv)
            tryit(p.layers[0].compute_ft, gv)
    elif k == 'utils':
        u = L.utils
        v = arg('array', [3., 1., 2., 5.], 0)
        tryit(u.find_nearest, v, 2.1, 2)
        tryit(u.extend, v, w.arg('inds', [0, 2, 4, 5]), 6)
        tryit(u.grad_num, lambda x: float(np.sum(np.asarray(x)**2)), v)
        M = w.arg('M', np.array([[1., 2.], [2., 5.]]))
        tryit(u.RedhefferStar, M, w.arg('M2', M.T.copy()))
        tryit(u.toeplitz_block, 2, arg('T1', [1., 2., 3., 4.], 1), arg('T2', [1., 2., 3., 4.], 2))
    return None
