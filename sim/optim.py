"""Optimizer programs: sequences of optimizations on Minimize objects, with
objectives and callbacks that record everything they see and may fail.

run_opt executes a program on the real library, or (prog['model']) on a small
reference model: the textbook Adam iteration and a direct call of SciPy."""
import copy
import numpy as np
from . import seams


# ------------------------------------------------------------------ objectives
def objective(L, spec):
    """A pure function of (params, *args) usable with autograd."""
    import autograd.numpy as anp
    t = spec['f']
    c = np.array(spec['c'], dtype=float)
    if t == 'quad':
        return lambda p: anp.sum(c * (p - np.array(spec['t'])) ** 2)
    if t == 'lin':
        return lambda p: anp.sum(c * p)
    if t == 'trig':
        return lambda p: anp.sum(anp.sin(3 * p) * c + .1 * p ** 2)
    if t == 'rosen':
        return lambda p: anp.sum((1 - p) ** 2) + (5 * anp.sum((p[1:] - p[:-1] ** 2) ** 2) if len(c) > 1 else 0.)
    if t == 'kink':
        return lambda p: anp.sum(c * anp.abs(p - np.array(spec['t'])))
    if t == 'flat':
        # constant over wide ranges, where its derivative is exactly zero
        return lambda p: anp.sum(anp.where(p > np.array(spec['t']), c * (p - np.array(spec['t'])) ** 2, 0. * p))
    if t == 'pwe':
        def f(p):
            L.set_backend('autograd')
            lay = L.ShapesLayer(L.Lattice('square'), eps_b=4.)
            lay.add_shape(L.Circle(eps=1. + p[0] ** 2, x_cent=.1, r=.2 + .02 * anp.tanh(p[-1])))
            pw = L.PlaneWaveExp(lay, gmax=1.2)
            pw.run(kpoints=np.array([[.4], [.9]]), pol='te', numeig=2)
            return pw.freqs[0, 0] + .3 * pw.freqs[0, 1]
        return f
    raise ValueError(t)


class Boom(Exception):
    pass


EXCS = dict(Boom=Boom, KeyboardInterrupt=KeyboardInterrupt, ValueError=ValueError, MemoryError=MemoryError,
            StopIteration=StopIteration, FloatingPointError=FloatingPointError)


def val(x):
    while hasattr(x, '_value'):
        x = x._value
    return np.array(x, dtype=float, copy=True)


def mk_bounds(b):
    """JSON form -> what the caller gives. {'pair': [l, u]}, {'tup': [l, u]}, {'list': [[l, u], ..]},
    {'bad': name}."""
    if b is None:
        return None
    if 'pair' in b:
        return list(b['pair'])
    if 'tup' in b:
        return tuple(b['tup'])
    if 'list' in b:
        return [tuple(x) for x in b['list']]
    return copy.deepcopy(BAD[b['bad']])


BAD = dict(one=[1.], three=[0., 1., 2.], short=[(0., 1.)], long=[(0., 1.)] * 9, ragged=[(0., 1.), (0.,), (0., 1.)],
           number=5., text='ab c', empty=[], nested=[(0., 1., 2.)] * 2, lists3=[[0., 1.]] * 3,
           lists2=[[0., 1.], [0., 1.]], strs=['a', 'b'], nonpair=[(0., 'x')] * 3, inner=[([0.], [1.])] * 3)


def lim(b, n):
    """Lower and upper limits of n parameters."""
    if b is None or 'bad' in b:
        return [-np.inf] * n, [np.inf] * n
    prs = b['list'] if 'list' in b else [b.get('pair') or b.get('tup')] * n
    return ([-np.inf if x[0] is None else x[0] for x in prs], [np.inf if x[1] is None else x[1] for x in prs])


class Runner:
    def __init__(self, L, prog):
        self.L, self.prog = L, prog
        self.kept = []
        self.argmut = []

    def keep(self, label, x):
        self.kept.append((label, x, copy.deepcopy(x)))

    def run(self):
        from .compare import same
        out = []
        self.opts = {}
        self.blists = {}
        for i, call in enumerate(self.prog['calls']):
            out.append(self.call(i, call))
        bad = [l for l, x, s in self.kept if not same(x, s)]
        return dict(result=out, altered=bad, nkept=len(self.kept), argmut=self.argmut)

    def call(self, i, call):
        f = objective(self.L, call['of'])
        p0 = np.array(call['p0'], dtype=float)
        args = tuple(np.array(a) if isinstance(a, list) else a for a in call.get('args', []))
        if call.get('alist'):
            args = list(args)
        rec = dict(evals=[], cbs=[])
        boom = call.get('boom')
        state = {}
        npass = 1 if call.get('pass_self') else 0

        def fun(p, *a):
            e = dict(p=val(p), a=[val(x) for x in a[:len(a) - npass]])
            if npass:
                o = a[-1] if a else None
                e['self'] = o is state['opt']
                e['it'] = int(getattr(o, 'iteration', -1)) if o is not None else None
            rec['evals'].append(e)
            if boom and boom['at'] == 'of' and len(rec['evals']) == boom['n']:
                raise EXCS[boom['exc']]('from the objective')
            r = f(p)
            for x in a[:len(a) - npass]:
                r = r * (1. + .1 * np.sum(x))
            if npass and call.get('sched') and e['it'] is not None:
                r = r * (1. + .05 * e['it'])
            if npass and call.get('gate') and e['it'] is not None and e['it'] <= call['gate']:
                r = r * 0.                           # switched on later
            if call.get('nan') and len(rec['evals']) == call['nan'][0]:
                r = r * dict(nan=np.nan, inf=np.inf, ninf=-np.inf)[call['nan'][1]]
            e['v'] = float(val(r))
            return r

        def cb(o):
            rec['cbs'].append(dict(self=o is state['opt'], it=int(o.iteration), p=val(o.params),
                                   of=[float(val(x)) for x in o.of_list]))
            if boom and boom['at'] == 'cb' and len(rec['cbs']) == boom['n']:
                raise EXCS[boom['exc']]('from the callback')

        bounds = mk_bounds(call.get('bounds'))
        if call.get('blist') is not None and type(bounds) is list:
            # one list of the caller, who changes it between the calls
            lst = self.blists.setdefault(call['blist'], [])
            lst[:] = bounds
            bounds = lst
        kw = dict(call.get('kw', {}))
        if call.get('bounds') is not None:
            kw['bounds'] = bounds
        if args:
            kw['args'] = args
        if npass:
            kw['pass_self'] = True
        if call.get('callback'):
            kw['callback'] = cb
        snap = (p0.copy(), copy.deepcopy(bounds), copy.deepcopy(args))
        if call.get('clock'):
            seams.clock.mode = call['clock']
        try:
            if self.prog.get('model'):
                opt, r = model(call, fun, f, cb, p0, bounds, args, state, rec)
            else:
                key = call.get('obj', 0)
                if call.get('new') or key not in self.opts:
                    self.opts[key] = self.L.minimize.Minimize(fun)
                opt = self.opts[key]
                opt.objective = fun
                state['opt'] = opt
                r = getattr(opt, call['method'])(p0, **kw)
            rec['ret'] = [val(r[0]), [float(val(x)) for x in r[1]]]
            if len(r) > 2:
                rec['res'] = {k: (val(r[2][k]) if k in ('x', 'fun', 'jac') else r[2][k])
                              for k in ('x', 'fun', 'nit', 'nfev', 'status') if k in r[2]}
            self.keep(f'parameters returned by optimization {i}', r[0])
            self.keep(f'history returned by optimization {i}', r[1])
        except BaseException as e:
            rec['exc'] = [type(e).__name__, str(e)[:200]]
        opt = state.get('opt')
        if opt is not None:
            rec['of_after'] = [float(val(x)) for x in getattr(opt, 'of_list', [])]
            rec['it_after'] = int(getattr(opt, 'iteration', -1))
        from .compare import same
        for l, a, b in (('pstart', p0, snap[0]), ('bounds', bounds, snap[1]), ('args', list(args), list(snap[2]))):
            if not same(a, b):
                self.argmut.append([i, l])
        return rec


def run_opt(L, prog):
    return Runner(L, prog).run()


# ------------------------------------------------------------------ the model
class ModelOpt:
    pass


def model(call, fun, f, cb, p0, bounds, args, state, rec):
    from autograd import value_and_grad
    o = ModelOpt()
    state['opt'] = o
    o.iteration, o.of_list, o.params = 0, [], p0.copy()
    n = p0.size
    b = call.get('bounds')
    if b and 'bad' in b:
        raise ValueError('bounds')
    lb, ub = (np.array(x, dtype=float) for x in lim(b, n))
    kw = call.get('kw', {})
    N = kw.get('Nepochs', 50)
    extra = tuple(args) + ((o,) if call.get('pass_self') else ())
    docb = bool(call.get('callback'))
    if call['method'] == 'adam':
        s, b1, b2 = kw.get('step_size', 1e-2), kw.get('beta1', .9), kw.get('beta2', .999)
        m = np.zeros(n)
        v = np.zeros(n)
        p = p0.copy()
        for t in range(1, N + 1):
            o.iteration = t
            val_, g = value_and_grad(fun)(p, *extra)
            o.of_list.append(float(val_))
            m = b1 * m + (1 - b1) * g
            v = b2 * v + (1 - b2) * g ** 2
            if t < N:
                p = p - s * (m / (1 - b1 ** t)) / (np.sqrt(v / (1 - b2 ** t)) + 1e-8)
            if b:
                p = np.minimum(np.maximum(p, lb), ub)
            o.params = p
            if docb:
                cb(o)
        return o, (p, o.of_list)
    # L-BFGS: SciPy itself
    from scipy.optimize import minimize
    seen = {}

    def value(p):
        r = float(fun(p, *extra))
        return r

    o.of_list.append(value(p0))

    def fg(p, *a):
        q = np.array(p, copy=True)
        r, g = value_and_grad(fun)(p, *extra)
        seen[q.tobytes()] = float(r)
        return float(r), g

    def back(xk):
        o.iteration += 1
        o.of_list.append(seen[np.array(xk, dtype=float).tobytes()])
        o.params = xk
        if docb:
            cb(o)
    bb = None if b is None else [(None if np.isinf(l) else l, None if np.isinf(u) else u) for l, u in zip(lb, ub)]
    r = minimize(fg, p0.copy(), method='L-BFGS-B', jac=True, bounds=bb, callback=back,
                 options=dict(maxcor=10, ftol=1e-8, gtol=1e-5, maxfun=kw.get('maxfun', 15000), maxiter=N, maxls=20))
    return o, ((r.x, o.of_list, r) if kw.get('res') else (r.x, o.of_list))


# ------------------------------------------------------------------ generation
def gen_call(g, method=None, n=None, bad=.08):
    method = method or g.pick('adam', 'adam', 'lbfgs')
    n = n or g.pick(1, 2, 3, 3)
    f = g.pick('quad', 'quad', 'lin', 'trig', 'rosen', 'kink', 'flat')
    b = None
    lo, hi = -1.5, 1.5
    c = g.r.random()
    if c < .3:
        lo, hi = g.num(-2, -.2), g.num(.2, 2)
        b = {g.pick('pair', 'pair', 'tup'): [lo, hi]}
    elif c < .65:
        prs = [[g.num(-2, -.2), g.num(.2, 2)] for _ in range(n)]
        if g.flip(.25):
            prs[g.r.randrange(n)][g.r.randrange(2)] = None
        b = dict(list=prs)
    elif c < .65 + bad:
        b = dict(bad=g.pick(*sorted(BAD)))
    if f == 'lin' and b is None and method == 'lbfgs':
        f = 'quad'
    L_, U_ = lim(b, n)
    p0 = []
    for l, u in zip(L_, U_):
        l, u = max(l, -1.5), min(u, 1.5)
        p0.append(round(min(u, max(l, g.pick(l, u, g.r.uniform(l, u), g.r.uniform(l, u)))), 4))
    if b and 'bad' not in b:
        p0 = [min(u, max(l, p)) for p, l, u in zip(p0, L_, U_)]
    kw = dict(Nepochs=g.pick(1, 2, 3, 5, 8, 15))
    if method == 'adam':
        kw['step_size'] = g.pick(.01, .1, .5, 1.)
        if g.flip(.4):
            kw['beta1'] = g.pick(.5, .8, .9, 0.)
        if g.flip(.4):
            kw['beta2'] = g.pick(.9, .99, .5)
        if g.flip(.1):
            kw['Nepochs'] = 0
        if g.flip(.07) and f in ('quad', 'lin', 'trig'):
            # many epochs
            kw.update(Nepochs=g.pick(50, 70, 130, 300), step_size=g.pick(.01, .05))
            if kw['Nepochs'] == 50:
                del kw['Nepochs']
            if g.flip(.7):
                kw['beta1'] = g.pick(.95, .98, .99, .999)
            if g.flip(.5):
                kw['beta2'] = g.pick(.9999, .99, .9)
    else:
        kw['Nepochs'] = g.pick(1, 2, 5, 15, 40, 2, 5, 15, 0)
        if g.flip(.3):
            kw['maxfun'] = g.pick(1, 3, 6, 200)
        if g.flip(.5):
            kw['res'] = True
    if g.flip(.3):
        kw['disp_p'] = True
    call = dict(method=method, of=dict(f=f, c=[g.num(.3, 2.) * g.pick(1, 1, -1) if f in ('lin', 'trig') else g.num(.3, 2.)
                                               for _ in range(n)],
                                       t=[g.num(-1, 1) for _ in range(n)]),
                p0=p0, bounds=b, kw=kw, callback=g.flip(.8))
    if b and b.get('bad') == 'short' and n == 1:
        call['bounds'] = dict(bad='one')
    if g.flip(.35):
        call['args'] = [g.pick(.5, 2., [.2, .3])] + ([g.num(0, 1)] if g.flip(.3) else [])
    if g.flip(.4):
        call['pass_self'] = True
        call['sched'] = g.flip(.5)
        if g.flip(.15):
            call['gate'] = g.pick(1, 2, 3)
    if call.get('args') and method == 'adam' and g.flip(.3):
        call['alist'] = True
    if method == 'adam' and g.flip(.06):
        # not a number, or infinite, at one of the evaluations
        call['nan'] = [g.pick(1, 2, 3, 4), g.pick('nan', 'inf', 'ninf')]
    if g.flip(.22):
        at = g.pick('of', 'cb')
        call['boom'] = dict(at=at, n=g.pick(1, 2, 3, 4), exc=g.pick(*(['Boom', 'KeyboardInterrupt', 'ValueError', 'MemoryError']
                                                                      + (['StopIteration'] if at == 'cb' else []))))
        call['callback'] = True
    if g.flip(.1):
        call['obj'] = 1
    if g.flip(.1):
        call['new'] = True
    return call


def gen_opt(g, method=None, other=.25):
    calls = []
    n = g.pick(1, 2, 2, 3, 4)
    for _ in range(n):
        m = method if method and not g.flip(other) else None
        if calls and g.flip(.35):
            c = copy.deepcopy(g.r.choice(calls))      # the same again, or with one thing changed
            if g.flip(.5):
                c.pop('boom', None)
            if g.flip(.3) and 'Nepochs' in c['kw']:
                c['kw']['Nepochs'] = c['kw']['Nepochs'] + 2
            b = c.get('bounds')
            if b and ('pair' in b or 'list' in b) and g.flip(.6):
                # the same list object, with other limits now
                for x in calls:
                    x['blist'] = 0
                c['blist'] = 0
                move = lambda l, u: [l if l is None else round(l + g.pick(.1, -.2, .3), 4),
                                     u if u is None else round(u + g.pick(.3, .4, .2), 4)]
                was = c['bounds']
                c['bounds'] = dict(pair=move(*b['pair'])) if 'pair' in b else dict(list=[move(*x) for x in b['list']])
                lo, hi = lim(c['bounds'], len(c['p0']))
                if any(l >= u for l, u in zip(lo, hi)):
                    c['bounds'] = was
                    lo, hi = lim(was, len(c['p0']))
                c['p0'] = [min(u, max(l, p)) for p, l, u in zip(c['p0'], lo, hi)]
        else:
            c = gen_call(g, m)
        calls.append(c)
    if g.flip(.06):
        for c in calls:
            if len(c['p0']) >= 1 and c['kw'].get('Nepochs', 9) <= 8:
                c['of'] = dict(c['of'], f='pwe')
                c.pop('nan', None)
    return dict(calls=calls)
