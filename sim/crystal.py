"""Crystal building programs and their reference model (property C12).

A step is accepted or rejected by the library; the model applies the accepted
steps to plain lists, and everything observable is compared after every step."""
import copy
import math
import numpy as np
from . import monitor as mon
from .world import mk_lattice, mk_shape, make_exc, enc, SimFault


def lat_vectors(lat):
    if lat[0] == 'square':
        return (1., 0.), (0., 1.)
    if lat[0] == 'hexagonal':
        return (.5, math.sqrt(3) / 2), (.5, -math.sqrt(3) / 2)
    return tuple(lat[1]), tuple(lat[2])


# ------------------------------------------------------------------ the shapes, independently
def verts(s):
    t = s['t']
    if t == 'square':
        h = s['a'] / 2
        return [(s['x'] + u * h, s['y'] + v * h) for u, v in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    if t == 'hexagon':
        return [(s['x'] + s['a'] * math.cos(math.pi / 3 * i), s['y'] + s['a'] * math.sin(math.pi / 3 * i)) for i in range(6)]
    if t == 'poly':
        return list(zip(s['xs'], s['ys']))
    if t == 'fourier':
        out = []
        for i in range(s.get('n', 24)):
            ph = 2 * math.pi * i / s.get('n', 24)
            r = s['as'][0] / 2 + sum(a * math.cos((n + 1) * ph) for n, a in enumerate(s['as'][1:])) + \
                sum(b * math.sin((n + 1) * ph) for n, b in enumerate(s['bs']))
            out.append((s['x'] + r * math.cos(ph), s['y'] + r * math.sin(ph)))
        return out
    return None


def area(s):
    if s['t'] == 'circle':
        return math.pi * s['r'] ** 2
    if s['t'] == 'ellipse':
        return math.pi * s['rx'] * s['ry']
    v = verts(s)
    return sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(v, v[1:] + v[:1])) / 2


def inside(s, x, y):
    """1 inside, 0 outside, None too close to the border to say."""
    t = s['t']
    if t == 'circle':
        d = math.hypot(x - s['x'], y - s['y']) - s['r']
        return None if abs(d) < 1e-6 else int(d < 0)
    if t == 'ellipse':
        c, n = math.cos(s['phi']), math.sin(s['phi'])
        u, v = x * c + y * n, -x * n + y * c
        d = ((u - s['x']) / s['rx']) ** 2 + ((v - s['y']) / s['ry']) ** 2 - 1
        return None if abs(d) < 1e-5 else int(d < 0)
    v = verts(s)
    odd = 0
    for (x0, y0), (x1, y1) in zip(v, v[1:] + v[:1]):
        # distance to the edge
        ex, ey = x1 - x0, y1 - y0
        l2 = ex * ex + ey * ey
        u = 0. if l2 == 0 else max(0., min(1., ((x - x0) * ex + (y - y0) * ey) / l2))
        if math.hypot(x - x0 - u * ex, y - y0 - u * ey) < 1e-6:
            return None
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            odd ^= 1
    return odd


def inside_any(s, x, y, a1, a2, nmax=8):
    """Any periodic copy: those near the point."""
    det = a1[0] * a2[1] - a1[1] * a2[0]
    v = verts(s)
    x0, y0 = v[0] if v else (s['x'], s['y'])
    if s['t'] == 'ellipse':
        c, n = math.cos(s['phi']), math.sin(s['phi'])
        x0, y0 = x0 * c - y0 * n, x0 * n + y0 * c
    f1 = ((x - x0) * a2[1] - (y - y0) * a2[0]) / det
    f2 = (a1[0] * (y - y0) - a1[1] * (x - x0)) / det
    r = 0
    for n1 in range(math.floor(f1) - 2, math.floor(f1) + 4):
        for n2 in range(math.floor(f2) - 2, math.floor(f2) + 4):
            i = inside(s, x - n1 * a1[0] - n2 * a2[0], y - n1 * a1[1] - n2 * a2[1])
            if i is None:
                return None
            r |= i
    return r


SCALE = dict(a=1e7, M=1e31, loss=1e4)      # compared as numbers near one


class Model:
    def __init__(self, sp):
        self.lat = lat_vectors(sp['lat'])
        a1, a2 = self.lat
        self.cell = abs(a1[0] * a2[1] - a1[1] * a2[0])
        self.layers = []
        self.clads = dict(l=dict(eps_b=sp['eps_l'], shapes=[], z=[-1e10, 0.]),
                          u=dict(eps_b=sp['eps_u'], shapes=[], z=[0., 1e10]))
        self.qws = []

    def valid(self, st):
        """What the documentation says: is this step acceptable?"""
        k = st['op']
        if k == 'layer':
            return st.get('bad') is None
        if k == 'shapes':
            if any(s['t'] == 'bad' for s in st['shapes']):
                return False
            if st.get('clad') is not None:
                return st['clad'] in (0, 1, 'l', 'u')
            if 'direct' in st:
                return st['direct'] < len(self.layers)
            return -len(self.layers) <= st.get('layer', -1) < len(self.layers)
        if k == 'qw':
            return 0 < st['qw']['z'] < self.clads['u']['z'][0]

    def apply(self, st):
        k = st['op']
        if k == 'layer':
            z = self.layers[-1]['z'][1] if self.layers else 0.
            self.layers.append(dict(eps_b=st['eps_b'], shapes=[], z=[z, z + st['d']]))
            self.clads['u']['z'][0] = z + st['d']
        elif k == 'shapes':
            if st.get('clad') is not None:
                l = self.clads['l' if st['clad'] in (0, 'l') else 'u']
            elif 'direct' in st:
                l = self.layers[st['direct']]
            else:
                l = self.layers[st.get('layer', -1)]
            l['shapes'] += st['shapes']
        else:
            self.qws.append(st['qw'])

    def desc(self):
        def lay(l):
            avg = l['eps_b'] + sum((s['eps'] - l['eps_b']) * area(s) for s in l['shapes']) / self.cell
            return dict(z=list(l['z']), d=l['z'][1] - l['z'][0], zm=sum(l['z']) / 2, eps_b=l['eps_b'], avg=avg,
                        shapes=[dict(t=s['t'], eps=s['eps'], area=area(s), v=verts(s) and [list(p) for p in verts(s)],
                                     c=[s.get(n) for n in ('x', 'y', 'r', 'rx', 'ry', 'phi')]
                                     if s['t'] in ('circle', 'ellipse') else None) for s in l['shapes']])
        al = [lay(l) for l in self.layers]
        cl = [lay(self.clads[c]) for c in 'lu']
        eps = [l['eps_b'] for l in al + cl] + [s['eps'] for l in al + cl for s in l['shapes']]
        return dict(layers=al, clads=cl, bounds=[min(eps), max(eps)],
                    qws=[[q[n] * SCALE.get(n, 1) for n in ('z', 'V', 'a', 'M', 'E0', 'loss')] +
                         [[x * 1e-18 for x in q['osc']]] for q in self.qws])

    def eps(self, x, y, z):
        for l in self.layers + [self.clads['l'], self.clads['u']]:
            if min(abs(z - l['z'][0]), abs(z - l['z'][1])) < 1e-9:
                return None
            if l['z'][0] <= z < l['z'][1]:
                e = l['eps_b']
                for s in l['shapes']:
                    i = inside_any(s, x, y, *self.lat)
                    if i is None:
                        return None
                    if i:
                        e = s['eps']
                return e
        return None


TYPES = dict(circle='Circle', ellipse='Ellipse', square='Square', hexagon='Hexagon', poly='Poly', fourier='FourierShape')


def observe(phc):
    def shape(s):
        t = {v: k for k, v in TYPES.items()}.get(type(s).__name__, type(s).__name__)
        v = None
        if hasattr(s, 'x_edges'):
            v = [[float(a), float(b)] for a, b in zip(s.x_edges, s.y_edges)]
            while len(v) > 1 and max(abs(v[-1][0] - v[0][0]), abs(v[-1][1] - v[0][1])) < 1e-12:
                v.pop()                   # closing points
        c = None
        if t in ('circle', 'ellipse'):
            c = [float(s.x_cent), float(s.y_cent)] + [(float(getattr(s, n)) if hasattr(s, n) else None)
                                                      for n in ('r', 'rx', 'ry', 'phi')]
        return dict(t=t, eps=float(s.eps), area=float(np.squeeze(s.area)), v=v, c=c)

    def lay(l):
        return dict(z=[float(l.z_min), float(l.z_max)], d=float(l.d), zm=float(l.z_mid), eps_b=float(l.eps_b),
                    avg=float(np.squeeze(l.eps_avg)), shapes=[shape(s) for s in l.shapes])
    return dict(layers=[lay(l) for l in phc.layers], clads=[lay(l) for l in phc.claddings],
                bounds=[float(x) for x in phc.get_eps_bounds()],
                qws=[[float(getattr(q, n)) * SCALE.get(n, 1) for n in ('z', 'V_shapes', 'a', 'M', 'E0', 'loss')] +
                     [[float(x) * 1e-18 for x in q.osc_str]] for q in phc.qws])


def cladfix(d):
    """Thickness and middle of the claddings are not part of the description."""
    for c in d['clads']:
        c.pop('d', None), c.pop('zm', None)
    return d


class CallFault:
    """Raises at the n-th call of a constructor or numerical function."""

    def __init__(self, m, n, exc):
        self.m, self.n, self.exc = m, n, exc
        self.i = 0
        self.fired = None

    def _call(self, code, off, f):
        name = mon.callee_name(f)
        if not name.startswith(('numpy', 'legume', 'scipy', 'autograd')) or '.append' in name or '.extend' in name:
            return
        i = self.i
        self.i = i + 1
        if i == self.n:
            self.fired = f'{code.co_filename[len(self.m.prefix):]}:{mon._line_of(code, off)} -> {name}'
            raise self.exc

    def __enter__(self):
        self.m.start(call=self._call)
        return self

    def __exit__(self, *a):
        self.m.stop()
        return False


def do_step(L, phc, st, pool={}):
    k = st['op']
    if k == 'layer':
        kw = dict(d=st['d'], eps_b=st['eps_b'])
        b = st.get('bad')
        if b == 'type':
            kw['layer_type'] = 'nonsense'
        elif b == 'freeform':
            kw['layer_type'] = 'freeform'
        elif b == 'd':
            kw['d'] = 'thick'
        elif b == 'none':
            kw['d'] = None
        elif b == 'typenum':
            kw['layer_type'] = 3
        elif st.get('lt'):
            kw['layer_type'] = st['lt']
        phc.add_layer(**kw)
    elif k == 'shapes':
        sh = [mk_shape(L, s) for s in st['shapes']]
        if st.get('form') == 'tuple':
            sh = tuple(sh)
        elif st.get('form') == 'single' and len(sh) == 1:
            sh = sh[0]
        elif st.get('form') == 'once':
            sh = iter(sh)
        if st.get('reuse') in pool and st['form'] != 'once':
            sh = pool[st['reuse']]         # the very objects of an earlier step
        elif 'tag' in st:
            pool[st['tag']] = sh
        if 'direct' in st:
            phc.layers[st['direct']].add_shape(sh)
        elif st.get('clad') is not None:
            phc.add_shape(sh, cladding=st['clad'])
        elif 'layer' in st:
            phc.add_shape(sh, layer=st['layer'])
        else:
            phc.add_shape(sh)
    elif k == 'qw':
        q = st['qw']
        phc.add_qw(z=q['z'], V_shapes=q['V'], a=q['a'], M=q['M'], E0=q['E0'], loss=q['loss'], osc_str=list(q['osc']))


def run_crystal(L, prog):
    m = mon.Monitor(L.__path__[0] + '/')
    sps = prog['crystals']
    # optionally one lattice object shared by all the crystals
    lats = {}
    phcs = []
    for sp in sps:
        key = str(sp['lat'])
        if key not in lats or not prog.get('share'):
            lats[key] = mk_lattice(L, sp['lat'])
        phcs.append(L.PhotCryst(lats[key], eps_l=sp['eps_l'], eps_u=sp['eps_u']))
    out = []
    pool = {}
    for st in prog['steps']:
        p = phcs[st.get('c', 0)]
        rec = {}
        try:
            if st.get('fault'):
                cm = CallFault(m, st['fault']['n'], make_exc(st['fault']['exc']))
                try:
                    with cm:
                        do_step(L, p, st, pool)
                finally:
                    rec['fired'] = cm.fired
            elif st['op'] == 'eps':
                pts = [np.array(st['pts'][i]) for i in range(3)]
                if st.get('grid'):
                    pts = [x.reshape(2, -1) for x in pts]
                rec['eps'] = enc(np.asarray(p.get_eps(tuple(pts))).ravel())
            elif st['op'] == 'poke':
                poke(L, p, st)
            else:
                do_step(L, p, st, pool)
            rec['ok'] = True
        except BaseException as e:
            rec['exc'] = [type(e).__name__, str(e)[:200]]
        try:
            rec['desc'] = [observe(x) for x in phcs]
        except Exception as e:
            rec['desc_exc'] = f'{type(e).__name__}: {e}'
        out.append(rec)
    return dict(result=out)


def poke(L, p, st):
    """Things a user does between building steps that are no building steps."""
    w = st['what']
    if w == 'repr':
        repr(p)
    elif w == 'ft':
        for l in p.layers:
            l.compute_ft(np.array([[0., 6.3], [0., 0.]]))
    elif w == 'grid':
        p.lattice.xy_grid(Nx=3, Ny=3), p.z_grid(Nz=3)
    elif w == 'gme':
        g = L.GuidedModeExp(p, gmax=1.2)
        g.run(kpoints=np.array([[.3], [.2]]), numeig=2, verbose=False, gmode_step=5e-2, compute_im=False)
    elif w == 'bounds':
        p.get_eps_bounds()


# ------------------------------------------------------------------ generation
def gen_crystal(g):
    n = g.pick(1, 1, 2)
    lat = g.pick(['square'], ['hexagonal'], ['vec', [1., 0.], [0., 1.3]], ['vec', [1., 0.], [0.3, 0.9]],
                 ['vec', [1., 0.], [.8, .6]])
    cs = []
    for _ in range(n):
        cs.append(dict(lat=lat if g.flip(.7) else g.pick(['square'], ['hexagonal']),
                       eps_l=g.pick(1., 2.1), eps_u=g.pick(1., 3.)))
    steps = []
    nl = [0] * n
    for _ in range(g.r.randint(4, 12)):
        c = g.r.randrange(n)
        u = g.r.random()
        if nl[c] == 0 or u < .2:
            st = dict(op='layer', d=g.pick(.3, .5, .25, 1., .3, .5, 5e-4), eps_b=g.pick(12., 9., 2.))
            if g.flip(.3):
                st['bad'] = g.pick('type', 'freeform', 'd', 'none', 'typenum')
            elif g.flip(.2):
                st['lt'] = g.pick('shapes', 'Shapes')
        elif u < .65:
            st = dict(op='shapes', shapes=[g.shape(small=g.flip(.3)) for _ in range(g.pick(1, 1, 2, 3, 0))],
                      form=g.pick('list', 'single', 'tuple', 'once'))
            if g.flip(.35):
                # across the border of the unit cell, where copies of it overlap
                for s in st['shapes']:
                    g.shift(s, g.pick((.45, 0.), (-.45, .1), (0., .45), (.4, -.45), (.5, .5), (1.3, -.2),
                                      (-.4, 1.6)))
            w = g.r.random()
            if w < .25:
                st['clad'] = g.pick(0, 1, 'l', 'u', 'x', 2, 'low')
            elif w < .6:
                st['layer'] = g.pick(*(list(range(nl[c])) + [-1, -nl[c], nl[c], nl[c] + 1, -nl[c] - 1]))
            elif w < .7:
                st['direct'] = g.r.randrange(nl[c])
            if g.flip(.22):
                st['shapes'].insert(g.r.randint(0, len(st['shapes'])), dict(t='bad', what=g.pick('text', 3., None, [1.])))
        elif u < .78:
            q = dict(z=g.pick(.1, .3, .55, 0., -.2, 5., .25, .5), V=g.pick(0., .1), a=g.pick(4e-7, 4e-7, 3e-7),
                     M=g.pick(2e-31, 2e-31, 1e-31), E0=g.pick(1.5, 1.5, 1.4), loss=g.pick(1e-4, 1e-4, 0.),
                     osc=g.pick([1e17, 2e17, 0.], [1e17, 2e17, 0.], [3e17, 0., 1e17]))
            st = dict(op='qw', qw=q)
        elif u < .9:
            k = 6
            far = g.pick(1., 1., 3., 6.)
            st = dict(op='eps', pts=[[g.num(-far, far) for _ in range(k)], [g.num(-far, far) for _ in range(k)],
                                     [g.num(-.4, 1.6) for _ in range(k)]], grid=g.flip(.3))
        else:
            st = dict(op='poke', what=g.pick('repr', 'ft', 'grid', 'bounds', 'gme'))
        if st['op'] == 'shapes' and st['form'] != 'once' and g.flip(.5):
            st['tag'] = len(steps)
        old = [s for s in steps if 'tag' in s and not any(x['t'] == 'bad' for x in s['shapes'])]
        if old and nl[c] and st['op'] == 'shapes' and g.flip(.5):
            o = g.r.choice(old)
            st.pop('tag', None)
            st.update(shapes=copy.deepcopy(o['shapes']), form=o['form'], reuse=o['tag'])
            if g.flip(.5):
                for k in ('layer', 'clad', 'direct'):
                    st.pop(k, None)
                    if k in o and c == o['c']:
                        st[k] = o[k]
        st['c'] = c
        if st['op'] in ('layer', 'shapes') and g.flip(.15):
            st['fault'] = dict(n=g.r.randrange(g.pick(2, 6, 30)), exc=g.pick('MemoryError', 'KeyboardInterrupt'))
        steps.append(st)
        if st['op'] == 'layer' and not st.get('bad') and not st.get('fault'):
            nl[c] += 1
        bad = st.get('bad') or st.get('fault') or any(s['t'] == 'bad' for s in st.get('shapes', []))
        if bad and g.flip(.6):                  # corrected and retried
            st2 = {k: v for k, v in st.items() if k not in ('bad', 'fault')}
            if 'shapes' in st2:
                st2['shapes'] = [s for s in st2['shapes'] if s['t'] != 'bad']
            steps.append(st2)
            if st2['op'] == 'layer':
                nl[c] += 1
    k = 8
    far = g.pick(1., 3., 6.)
    for c in range(n):
        steps.append(dict(op='eps', c=c, pts=[[g.num(-far, far) for _ in range(k)], [g.num(-far, far) for _ in range(k)],
                                              [g.num(-.4, 1.6) for _ in range(k)]]))
    return dict(crystals=cs, steps=steps, share=g.flip(.5))
