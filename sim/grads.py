"""Differentiated objectives: functions that build a crystal from parameters,
run simulations and combine their results, evaluated plainly, differentiated,
mapped in parallel lists or minimised."""
import functools
import numpy as np
from . import gen as _gen


class Stop(Exception):
    """The user's own exception."""


BOOMS = dict(Stop=Stop, KeyboardInterrupt=KeyboardInterrupt, ValueError=ValueError, MemoryError=MemoryError)


# ------------------------------------------------------------------ generation
def gen_of(g, solver=None, kind=None):
    kind = kind or g.pick('gme', 'gme', 'gme', 'pwe')
    lat = g.pick(*_gen.LATS[2:])
    nl = g.pick(1, 1, 2) if kind == 'gme' else 1
    layers = []
    for i in range(nl):
        s = g.shape(small=False, kinds=['circle', 'circle', 'ellipse', 'poly', 'square', 'hexagon'])
        sh = [s]
        if g.flip(.2) and s['t'] == 'circle':
            s['r'] = .17
            s2 = dict(t='circle', eps=g.pick(2., 5.), x=s['x'], y=s['y'], r=.13)
            _gen.G.shift(s, (-.24, -.2))
            _gen.G.shift(s2, (.23, .24))
            sh.append(s2)
        layers.append(dict(d=g.pick(.23, .31, .5), eps_b=g.pick(12., 9., 7.), shapes=sh))
    sp = dict(lat=lat, eps_l=g.pick(1., 2.), eps_u=1., layers=layers, qws=[])
    names = []
    for i, l in enumerate(layers):
        if kind == 'gme':
            names.append((f'l{i}.d', l['d']))
        for j, s in enumerate(l['shapes']):
            for f in ('x', 'y', 'r', 'a', 'eps'):
                if f in s and s['t'] != 'poly':
                    names.append((f'l{i}.s{j}.{f}', s[f]))
        if all(s['t'] == 'poly' for s in l['shapes']):
            names.append((f'l{i}.s0.eps', l['shapes'][0]['eps']))
    g.r.shuffle(names)
    names = names[:g.pick(1, 1, 2, 3)]
    ne = g.pick(2, 3, 4)
    of = dict(spec=sp, kind=kind, names=[n for n, _ in names], p=[v for _, v in names],
              args=dict(gmax=g.pick(1.2, 1.3)), k=g.karg(g.kpool(2)[:g.pick(1, 1, 2)]))
    of['k'] = [[x if x or y else .4 for x, y in zip(*of['k'])], [y if x or y else .3 for x, y in zip(*of['k'])]]
    if kind == 'gme':
        o = dict(verbose=False, numeig=ne, gmode_inds=g.pick([0], [0, 1], [0, 1, 2], [1, 0]), gmode_step=5e-2,
                 compute_im=False)
        if g.flip(.3):
            o['gradients'] = g.pick('approx', 'exact')
        if g.flip(.2):
            o.update(gmode_compute='interp', gmode_npts=60)
        if g.flip(.15):
            o['eps_eff'] = 'background'
        if solver == 'eigsh' or (solver is None and g.flip(.08)):
            o.update(eig_solver='eigsh', eig_sigma=.13, numeig=2)
            of['solver'] = 'eigsh'
        of['opts'] = o
        of['t'] = g.pick('f', 'f', 'rad', 'im', 'field') if not of.get('solver') else g.pick('f', 'field', 'rad')
        if of['t'] == 'im':
            o['compute_im'] = True
        if of['t'] != 'f':
            # stays away from the threshold behaviour at the light line
            of['args']['gmax'] = 1.2
    else:
        of['opts'] = dict(numeig=ne, pol=g.pick('te', 'tm'))
        of['t'] = g.pick('f', 'f', 'field')
    of['w'] = [g.pick(1., .5, -.3, .7) for _ in range(2)]
    of['m'] = g.r.randrange(min(2, of['opts']['numeig']))
    if g.flip(.25):
        of['inner'] = g.pick('same', 'S0')     # a plain simulation inside
    return of


def vary(g, of):
    """Another objective of the same parameters."""
    import copy
    of = copy.deepcopy(of)
    c = g.r.randrange(6)
    if c >= 4:
        # another structure of the same parameters
        l = g.r.choice(of['spec']['layers'])
        l['eps_b'] = l['eps_b'] + g.pick(1., -.5)
        if c == 5:
            of['spec']['eps_l'] = 2.6 - of['spec']['eps_l']
    elif c == 0:
        of['w'] = [g.num(-1, 1), g.num(.2, 1)]
    elif c == 1:
        of['k'] = [[round(x + .21, 3) for x in of['k'][0]], of['k'][1]]
    elif c == 2 and of['kind'] == 'gme':
        of['opts']['gradients'] = g.pick('approx', 'exact')
    else:
        of['m'] = 1 - of['m'] if of['opts']['numeig'] > 1 else 0
    return of


def gen_grad(g, solver=None, of=None, modes=None):
    of = of or gen_of(g, solver)
    mode = g.pick(*(modes or ('vg', 'vg', 'vg', 'plain', 'plain_ag', 'fmap', 'sum', 'sum', 'min', 'twice')))
    if of.get('solver') and mode in ('fmap', 'sum', 'min'):
        mode = 'vg'
    op = dict(op='grad', of=of, mode=mode)
    if mode in ('fmap', 'sum'):
        op['others'] = [vary(g, of) for _ in range(g.pick(1, 2, 3))]
        op['form'] = g.pick('closure', 'free', 'default', 'partial', 'method')
        op['fw'] = [g.pick(1., -.5, .3, 0.) for _ in range(1 + len(op['others']))]
    if mode == 'min':
        op['N'] = g.pick(2, 3)
        op['method'] = g.pick('adam', 'adam', 'lbfgs')
    return op


# ------------------------------------------------------------------ execution
def as_form(h, form):
    """The same objective, made in another of the ways people make them."""
    if form == 'free':
        return lambda q: h(q)
    if form == 'default':
        return lambda q, h=h: h(q)
    if form == 'partial':
        return functools.partial(call, h)
    if form == 'method':
        return Objective(h).value
    return h


def call(h, q):
    return h(q)


class Objective:
    def __init__(self, h):
        self.h = h

    def value(self, q):
        return self.h(q)


def build_run(world, of, p, log):
    from .world import mk_struct, karr
    L = world.L
    par = {n: p[i] for i, n in enumerate(of['names'])}
    phc = mk_struct(L, of['spec'], par, arg=world.arg)
    yield phc
    if of['kind'] == 'gme':
        o = L.GuidedModeExp(phc, **of['args'])
        opts = {k: (list(v) if isinstance(v, list) else v) for k, v in of['opts'].items()}
    else:
        o = L.PlaneWaveExp(phc.layers[0], **of['args'])
        opts = dict(of['opts'])
    for k, v in opts.items():
        world.arg(k, v)
    o.run(kpoints=world.arg('kpoints', karr(of['k'])), **opts)
    yield o


def objective(world, of, log, boom=None):
    import autograd.numpy as anp
    state = dict(n=0)

    def stop(where):
        if boom and boom['at'] == where and state['n'] == boom['n']:
            raise BOOMS[boom['exc']]('from the objective')

    def f(p):
        state['n'] += 1
        stop('start')
        it = build_run(world, of, p, log)
        next(it)
        stop('built')
        if of.get('inner'):
            inner(world, of, log)
        o = next(it)
        world.last_sim = o
        m, t = of['m'], of['t']
        r = of['w'][0] * o.freqs[0, m] + of['w'][1] * o.freqs[-1, 0] ** 2
        if t == 'rad':
            x = o.compute_rad(0, [m, 0])
            r = r + 10. * anp.sum(anp.square(x[0]))
        elif t == 'im':
            r = r + 10. * anp.sum(anp.square(o.freqs_im[0]))
        elif t == 'field':
            if of['kind'] == 'gme':
                h = o.ft_field_xy('H', 0, m, .12)
            else:
                h = o.ft_field_xy('H', 0, m)
            for x in h:
                r = r + .01 * anp.sum(anp.abs(x * anp.array([1. + .1 * j for j in range(x.size)])) ** 2)
        stop('end')
        return r
    return f


def inner(world, of, log):
    """A plain simulation while an objective is evaluated."""
    from .world import karr, mk_struct, enc, has_box
    L = world.L
    phc = world.structs.get('S0') if of['inner'] == 'S0' else None
    if phc is None:
        phc = mk_struct(L, of['spec'])
    gme = L.GuidedModeExp(phc, gmax=1.2)
    gme.run(kpoints=karr([[.7], [.3]]), gmode_inds=[0, 1], numeig=2, verbose=False, gmode_step=5e-2)
    st = [enc(gme.freqs), enc(gme.freqs_im), enc(gme.eigvecs)]
    log['box'] |= has_box(st)
    if not log.get('inner'):
        log['inner'] = [st[0], st[1]]


def num(x):
    from .optim import val
    return val(x)


def op_grad(world, op):
    from autograd import value_and_grad, grad
    import autograd.numpy as anp
    L = world.L
    back = type(L.backend).__name__
    of, mode, boom = op['of'], op['mode'], op.get('boom')
    log = dict(box=False)
    p = np.array(op.get('p') or of['p'], dtype=float)
    world.arg('params', p)
    try:
        f = objective(world, of, log, boom)
        if mode == 'plain':
            L.set_backend('numpy')
            v = f(p)
            log['box'] |= type(v).__name__.endswith('Box')
            return dict(value=num(v), **log)
        L.set_backend('autograd')
        if mode == 'plain_ag':
            v = f(p)
            log['box'] |= type(v).__name__.endswith('Box')
            return dict(value=num(v), **log)
        if mode in ('vg', 'twice'):
            v, d = value_and_grad(f)(p)
            if mode == 'twice':
                v, d = value_and_grad(f)(p)
            return dict(value=num(v), grad=num(d), **log)
        if mode == 'min':
            mn = L.minimize.Minimize(f)
            # a line search on an objective with kinks can take very long
            kw = dict(step_size=.003) if op['method'] == 'adam' else dict(maxfun=4)
            world.mn = mn
            r = getattr(mn, op['method'])(p, Nepochs=op['N'], **kw)
            world.keep_value(-1, 'minimised', r[0])
            world.keep_value(-1, 'history', r[1])
            return dict(params=num(r[0]), history=num(r[1]), **log)
        fns = [f] + [objective(world, o, log) for o in op['others']]
        fns = [as_form(h, op.get('form')) for h in fns]
        w = np.array(op['fw'])
        if mode == 'fmap':
            val_ = L.primitives.fmap(fns, p)
            if type(val_).__name__.endswith('Box'):
                log['box'] = True
            v, d = value_and_grad(lambda q: anp.dot(w, L.primitives.fmap(fns, q)))(p)
            return dict(values=num(val_), value=num(v), grad=num(d), **log)
        if mode == 'sum':
            # one objective of several simulations
            v, d = value_and_grad(lambda q: sum(a * h(q) for a, h in zip(w, fns)))(p)
            return dict(value=num(v), grad=num(d), **log)
        if mode == 'seq':
            vs, ds = [], []
            for h in fns:
                a, b = value_and_grad(h)(p)
                vs.append(num(a))
                ds.append(num(b))
            return dict(values=np.array(vs), value=np.dot(w, vs), grad=np.dot(w, np.array(ds)), **log)
        raise ValueError(mode)
    finally:
        L.set_backend('numpy' if back == 'NumpyBackend' else 'autograd')
