"""Seeded generation of structures, options and operations.

Pools are small and overlap on purpose: two structures or option sets of one
history usually differ in one field only, which is what stale state needs to go
unnoticed by anything but the comparison."""
import copy

A = 4.0e-7
MEX = 2.0e-31
LATS = [['square'], ['hexagonal'], ['vec', [1., 0.], [0., 1.3]], ['vec', [1., 0.], [0.3, 0.9]],
        ['vec', [1., 0.1], [-0.2, 1.1]]]
PI = 3.141592653589793


class G:
    # without energy of the photon the polariton problem is singular and its
    # results are amplified rounding errors
    pol_gamma = True
    mix = .4        # runs along several mirror lines

    def __init__(self, rng):
        self.r = rng

    def kfor(self, kind, ks):
        if kind == 'pol' and not self.pol_gamma:
            return [k if k != [0., 0.] else [.3, .2] for k in ks]
        return ks

    # ------------------------------------------------------------ basics
    def pick(self, *xs):
        return copy.deepcopy(self.r.choice(xs))

    def flip(self, p=0.5):
        return self.r.random() < p

    def num(self, lo, hi, nd=3):
        return round(self.r.uniform(lo, hi), nd)

    # ------------------------------------------------------------ structures
    def shape(self, small=False, kinds=None):
        t = self.pick(*(kinds or ['circle', 'circle', 'circle', 'poly', 'square', 'hexagon', 'ellipse', 'fourier']))
        s = 0.5 if small else 1.
        v = dict(t=t, eps=self.pick(1., 3., 6.))
        x, y = self.num(-.1, .1), self.num(-.1, .1)
        if t == 'circle':
            v.update(x=x, y=y, r=round(s * self.pick(.2, .25, .3), 4))
        elif t == 'ellipse':
            v.update(x=x, y=y, rx=round(s * self.pick(.2, .3), 4), ry=round(s * .15, 4), phi=self.num(0, 1))
        elif t in ('square', 'hexagon'):
            v.update(x=x, y=y, a=round(s * self.pick(.3, .25), 4))
        elif t == 'poly':
            xs = [-.25 * s, .3 * s, .02]
            ys = [-.2 * s, -.15 * s, .3 * s]
            v.update(xs=[round(a + x, 4) for a in xs], ys=[round(a + y, 4) for a in ys])
        else:
            v.update(x=x, y=y, **{'as': [round(.2 * s, 4), .02], 'bs': [.0, .03]}, n=self.pick(24, 24, 7, 12))
        return v

    def layer(self, nsh=None):
        if nsh is None:
            nsh = self.pick(0, 1, 1, 1, 2)
        sh = [self.shape(small=nsh > 1) for _ in range(nsh)]
        if nsh > 1:
            for i, s in enumerate(sh):
                self.shift(s, (-.25, -.2) if i == 0 else (.22, .25))
        return dict(d=self.pick(.2, .3, .5), eps_b=self.pick(12., 9., 5.), shapes=sh)

    @staticmethod
    def shift(s, dxy):
        if s['t'] == 'poly':
            s['xs'] = [round(a + dxy[0], 4) for a in s['xs']]
            s['ys'] = [round(a + dxy[1], 4) for a in s['ys']]
        else:
            s['x'] = round(s['x'] + dxy[0], 4)
            s['y'] = round(s['y'] + dxy[1], 4)

    def struct(self, qw=False, lat=None, nl=None, generic=False, clad=True):
        nl = nl or self.pick(1, 1, 1, 2)
        sp = dict(lat=lat or self.pick(*(LATS[2:] if generic else LATS)),
                  eps_l=self.pick(1., 2., 1.44), eps_u=self.pick(1., 1., 2.),
                  layers=[self.layer(nsh=1 if (generic and i == 0) else None) for i in range(nl)], qws=[])
        if clad and self.flip(.15):
            sp['clad'] = {self.pick('l', 'u'): [self.shape(small=True)]}
        if self.flip(.4):
            sp['eff'] = [sp['eps_l']] + [round(l['eps_b'] * self.pick(1., .9), 4) for l in sp['layers']] + [sp['eps_u']]
        if qw:
            sp['qws'] = self.qws(sp)
        return sp

    def ztot(self, sp):
        return sum(l['d'] for l in sp['layers'])

    def qw1(self, sp, i=0):
        return dict(z=round(self.ztot(sp) * self.pick(.5, .31, .77), 4), V=self.pick(.05, .1, 0.), a=A,
                    M=self.pick(MEX, 3e-31), E0=round(1.2 + self.pick(.06, .06, .4) * i + self.pick(0., .011), 4),
                    loss=self.pick(0., 1e-4, 2e-4), osc=self.pick([4.8e18, 4.8e18, 0.], [3e18, 3e18, 1e18], [1e19, 1e19, 0.],
                                                                  [6e19, 4e19, 0.]))

    def qws(self, sp):
        return [self.qw1(sp, i) for i in range(self.pick(1, 1, 2))]

    def sym_struct(self):
        """Mirror symmetric structure for kz_symmetry."""
        sh = [dict(t='circle', eps=self.pick(1., 3.), x=0., y=0., r=self.pick(.2, .3))] if self.flip(.9) else []
        return dict(lat=self.pick(['square'], ['hexagonal'], ['vec', [1., 0.], [0., 1.3]]),
                    eps_l=self.pick(1., 2.), eps_u=1.,
                    layers=[dict(d=self.pick(.3, .5), eps_b=self.pick(12., 9.), shapes=sh)], qws=[])

    def mutate_struct(self, sp, keep=0.):
        """A structure that differs in one field."""
        sp = copy.deepcopy(sp)
        l = self.r.choice(sp['layers'])
        if self.flip(.12):
            return self.nearly(sp, l)
        c = self.r.randrange(12)
        if len(sp['layers']) > 1 and self.flip(.4):
            c = self.pick(7, 8)
        if keep and self.flip(keep):
            c = self.pick(7, 7, 8, 9, 10)
        if c > 6:
            # changes that keep sums and averages
            ls = sp['layers']
            if len(ls) > 1 and c < 10:
                f = self.pick('d', 'd', 'eps_b', 'shapes')
                if c == 7 and f != 'shapes':
                    a = .1 if f == 'd' else .5
                    ls[0][f], ls[1][f] = round(ls[0][f] + a, 4), round(ls[1][f] - a, 4)
                else:
                    ls[0][f], ls[1][f] = ls[1][f], ls[0][f]
            elif c == 8:
                sp['eps_l'], sp['eps_u'] = sp['eps_u'], sp['eps_l']
            elif c == 9 and any('x' in s for s in l['shapes']):
                for s in l['shapes']:
                    if 'x' in s:
                        s['x'], s['y'] = s['y'], s['x']
            elif any('r' in s for s in l['shapes']):
                s = [s for s in l['shapes'] if 'r' in s][0]
                s['r'] = round(s['r'] * 1.1, 4)
                s['eps'] = round(l['eps_b'] + (s['eps'] - l['eps_b']) / 1.21, 6)
            else:
                l['d'] = round(l['d'] + .07, 4)
        elif c == 0:
            l['d'] = round(l['d'] + .1, 4)
        elif c == 1:
            l['eps_b'] += 1.
        elif c == 2 and l['shapes']:
            s = self.r.choice(l['shapes'])
            s['eps'] = s['eps'] + 1.
        elif c == 3 and l['shapes']:
            s = self.r.choice(l['shapes'])
            for f in ('r', 'a', 'rx'):
                if f in s:
                    s[f] = round(s[f] * .8, 4)
                    break
            else:
                self.shift(s, (.03, .01))
        elif c == 4 and l['shapes']:
            self.shift(self.r.choice(l['shapes']), (.04, -.03))
        elif c == 5:
            sp['eps_u'] = 3. - sp['eps_u'] if sp['eps_u'] in (1., 2.) else 1.
        else:
            sp['eps_l'] = round(sp['eps_l'] + .5, 4)
        if sp.get('eff'):
            sp['eff'] = [sp['eps_l']] + [x['eps_b'] for x in sp['layers']] + [sp['eps_u']]
        return sp

    def nearly(self, sp, l):
        """Almost the same structure."""
        f = 1 + self.pick(1e-3, -1e-3, 1e-4, 1e-5)
        s = self.r.choice(l['shapes']) if l['shapes'] else None
        c = self.r.randrange(6)
        if c == 0:
            l['d'] *= f
        elif c == 1:
            l['eps_b'] *= f
        elif c == 2 and sp['lat'][0] == 'vec':
            sp['lat'][2][1] *= f
        elif s is None:
            sp['eps_u'] *= f
        elif c == 3:
            s['eps'] *= f
        else:
            n = [n for n in ('x', 'r', 'a', 'rx') if s.get(n)]
            if n:
                s[self.pick(*n)] *= f
            else:
                self.shift(s, (.003, 0.))
        if sp.get('eff'):
            sp['eff'] = [sp['eps_l']] + [x['eps_b'] for x in sp['layers']] + [sp['eps_u']]
        return sp

    # ------------------------------------------------------------ wave vectors
    KX = (0.3, 1.1, 2.0, -0.7, 3.0, 0.9)
    KY = (0.2, -0.8, 1.4, 0.5, 2.2, -0.1)

    def kpool(self, n=4):
        ks = []
        while len(ks) < n:
            k = [self.pick(*self.KX), self.pick(*self.KY)]
            if k not in ks:
                ks.append(k)
        if n > 1 and self.flip(.25):
            # equal length, other direction
            a, b = ks[0]
            ks[1] = self.pick([b, a], [-a, b], [a, -b])
        if n > 1 and self.flip(.15):
            # very close to each other
            d = self.pick(3e-3, 1e-4, 1e-6)
            ks[1] = [ks[0][0] + d, ks[0][1] - self.pick(0., d)]
        if self.flip(.15):
            ks[0] = [0., 0.]
        return ks

    @staticmethod
    def karg(ks):
        return [[k[0] for k in ks], [k[1] for k in ks]]

    # ------------------------------------------------------------ options
    def gme_args(self):
        a = dict(gmax=self.pick(1.2, 1.3, 1.7, self.pick(1.2, 1.38, 1.44)), truncate_g=self.pick('abs', 'abs', 'tbt'))
        if self.flip(.15):
            a.pop('truncate_g')
        return a

    def gme_opts(self, gamma=False):
        o = dict(verbose=False, numeig=self.pick(3, 4, 5),
                 gmode_inds=self.pick([0], [0, 1], [0, 1, 2], [1], [0, 2], [1, 0], [0, 3], self.high()),
                 gmode_step=self.pick(1e-2, 5e-2, 5e-2))
        for _ in range(2):
            self.mutate_gme_opts(o, gamma)
        return o

    def high(self):
        """Guided modes that exist at some wave vectors only."""
        return self.pick([0, 6], [0, 4, 8], [0, 1, 5], [0, 7, 9], [1, 8], [0, 4], [0, 2, 4, 6, 8, 10])

    def mutate_gme_opts(self, o, gamma=False):
        c = self.r.randrange(13)
        if c == 0:
            o['compute_im'] = self.pick(True, False)
        elif c == 1:
            o['numeig'] = self.pick(2, 3, 4, 6)
        elif c == 2:
            o['gmode_inds'] = self.pick([0], [0, 1], [0, 1, 2], [1], [0, 2], [1, 0])
        elif c == 3:
            if o.get('gmode_compute') == 'interp':
                o.pop('gmode_compute'), o.pop('gmode_npts', 0)
            else:
                o.update(gmode_compute='interp', gmode_npts=self.pick(60, 90))
        elif c == 4:
            o['eps_eff'] = self.pick('average', 'background', 'custom')
        elif c == 5:
            o['eig_sigma'] = self.pick(0., .3, .21)
        elif c == 6 and not gamma:
            o['eig_solver'] = self.pick('eigh', 'eigsh')
            if o['eig_solver'] == 'eigsh':
                o.setdefault('eig_sigma', .13)
                if o['eig_sigma'] == 0.:
                    o['eig_sigma'] = .13
                o['numeig'] = min(o.get('numeig', 3), 3)
        elif c == 7:
            o['only_gmodes'] = self.pick(True, False)
        elif c == 8:
            o['gmode_step'] = self.pick(1e-2, 2e-2, 5e-2)
        elif c == 9:
            o['delta_gx'] = self.pick(1e-15, 1e-12, 1e-3)
        elif c == 10:
            o['delta_gabs'] = self.pick(1e-15, 1e-12, 1e-3)
        elif c == 11:
            o['gradients'] = self.pick('exact', 'approx')
        else:
            k = self.r.choice(sorted(o))
            if k not in ('verbose', 'gmode_npts', 'eig_sigma', 'numeig', 'gmode_compute'):
                o.pop(k)
        return o

    def break_gme_opts(self, o):
        c = self.r.randrange(6)
        if c == 0:
            o['eps_eff'] = 'nonsense'
        elif c == 1:
            o['eig_solver'] = 'nonsense'
        elif c == 2:
            o['numeig'] = 4000
        elif c == 3:
            o['no_such_option'] = 1
        elif c == 4:
            o['kz_symmetry'] = 'sideways'
        else:
            o['gmode_inds'] = [40]
        return o

    def sym_opts(self):
        o = dict(verbose=False, numeig=self.pick(2, 3), gmode_inds=self.pick([0, 1], [0, 1], [1, 0], [0, 1, 2]),
                 gmode_step=5e-2, kz_symmetry=self.pick('both', 'odd', 'even', 'Both', None),
                 use_sparse=self.flip(), compute_im=self.flip(.7))
        return o

    def sym_k(self, lat, n=2):
        """k-points along a mirror line with their angles."""
        al = {'square': [0., 45., 90.], 'hexagonal': [0., 30., 60., 90.]}.get(lat[0], [0., 90.])
        ang = [self.pick(*al)] * n
        if n > 1 and self.flip(self.mix):
            ang = [self.pick(*al) for _ in range(n)]
        import math
        ks = [self.pick(.3, .8, 1.3, 1.9, 2.4) for _ in range(n)]
        if self.flip(.2):
            ang = [a - 180. for a in ang]             # the opposite direction
        if self.flip(.2):
            ang = [a + 3e-11 for a in ang]            # as computed from the k-points
        return [[k * math.cos(math.radians(a)) for k, a in zip(ks, ang)],
                [k * math.sin(math.radians(a)) for k, a in zip(ks, ang)]], ang

    def pwe_opts(self):
        o = dict(numeig=self.pick(2, 3, 5, self.pick(3, 60)), pol=self.pick('te', 'tm', 'TE'))
        if self.flip(.2):
            o.pop('pol')
        return o

    def exc_opts(self):
        return dict(numeig_ex=self.pick(1, 2, 3), verbose_ex=False)

    def pol_opts(self):
        g = dict(gmode_inds=self.pick([0], [0, 1]), numeig=self.pick(2, 3), verbose=False, gmode_step=5e-2)
        if self.flip(.4):
            g.update(gmode_compute='interp', gmode_npts=60)
        if self.flip(.15):
            g['compute_im'] = False
        x = dict(numeig_ex=self.pick(1, 2), verbose_ex=False)
        if self.flip(.12):
            g.pop('numeig')
        if self.flip(.12):
            x.pop('numeig_ex')
        return dict(gme_options=g, exc_options=x, opts=dict(verbose=False))

    def kinds(self):
        return self.pick('gme', 'gme', 'gme', 'gme', 'pwe', 'exc', 'pol')

    def mk(self, e, s, kind, sp):
        op = dict(op='mk', id=e, s=s, kind=kind)
        if kind == 'gme':
            op['args'] = self.gme_args()
        elif kind == 'pwe':
            op['args'] = dict(gmax=self.pick(1.2, 1.7))
            op['layer'] = self.r.randrange(len(sp['layers']))
        elif kind == 'exc':
            op['args'] = dict(gmax=self.pick(1.2, 1.4), truncate_g=self.pick('abs', 'tbt'))
            op['qw'] = self.qw1(sp)
        else:
            op['args'] = dict(gmax=self.pick(1.2, 1.4), truncate_g=self.pick('abs', 'tbt'))
        return op

    def run(self, e, kind, ks, sym=None, n=None):
        """ks: pool of k points."""
        if sym:
            k, ang = self.sym_k(sym, self.pick(1, 2, 2))
            return dict(op='run', e=e, k=k, ang=ang, opts=self.sym_opts())
        n = n or self.pick(1, 1, 2, 3)
        ks = self.kfor(kind, ks)
        sel = [self.pick(*ks) for _ in range(n)]
        gamma = [0., 0.] in sel
        op = dict(op='run', e=e, k=self.karg(sel))
        if kind == 'gme':
            op['opts'] = self.gme_opts(gamma)
        elif kind == 'pwe':
            op['opts'] = self.pwe_opts()
        elif kind == 'exc':
            op['opts'] = self.exc_opts()
        else:
            op.update(self.pol_opts())
        return op

    def mutate_run(self, op, kind, ks):
        op = copy.deepcopy(op)
        op.pop('fault', None)
        ks = self.kfor(kind, ks)
        if self.flip(.35) and not op.get('ang'):
            sel = [self.pick(*ks) for _ in range(self.pick(1, 2))]
            op['k'] = self.karg(sel)
        if kind == 'gme':
            if op.get('ang'):
                op['opts'] = dict(op['opts'], kz_symmetry=self.pick('both', 'odd', 'even', None), use_sparse=self.flip())
            else:
                self.mutate_gme_opts(op['opts'], gamma=0. in op['k'][0])
        elif kind == 'pwe':
            op['opts'] = self.pwe_opts()
        elif kind == 'exc':
            op['opts'] = self.exc_opts()
        else:
            n = self.pol_opts()
            op[self.pick('gme_options', 'exc_options')] = None
            for k in ('gme_options', 'exc_options'):
                if op[k] is None:
                    op[k] = n[k]
        return op

    # ------------------------------------------------------------ queries
    def query(self, e, kind, viz=True, run=None):
        z = self.pick(.1, .25, -.2, 1.4)
        nk, ne = 1, 2
        if run:
            nk = len(run['k'][0])
            ne = run.get('opts', {}).get('numeig', run.get('opts', {}).get('numeig_ex', 2))
            ne = ne if ne < 100 else 2
        ki = self.r.randrange(nk)
        m = self.r.randrange(ne)
        if self.flip(.03):
            ki, m = self.pick((ki, 50), (9, m))
        if kind == 'gme':
            q = self.pick('rad', 'rad_sp', 'ft_field', 'field', 'field', 'eps_xy', 'im', 'repr', 'rad_default')
            op = dict(op='q', e=e, q=q, kind=ki, mind=m, minds=[m] if self.flip() else [m, 0], z=z,
                      field=self.pick('h', 'd', 'e', 'E', 'H'), comp=self.pick('xyz', 'x', 'yz'),
                      plane=self.pick('xy', 'xz', 'yz'))
            if self.flip(.3):
                op['grid'] = self.pick(1, 1, 2, 3, 4)
            if viz and self.flip(.12):
                op['q'] = self.pick('viz_bands', 'viz_field', 'viz_eps', 'viz_recip')
                op['val'] = 'abs'
                op['comp'] = 'x'
            if op['q'] == 'ft_field':
                op['field'] = self.pick('H', 'D', 'E')
        elif kind == 'pwe':
            op = dict(op='q', e=e, q=self.pick('ft_field', 'field', 'eps_xy', 'repr'), kind=ki, mind=m,
                      field=self.pick('h', 'd', 'e'))
            if viz and self.flip(.15):
                op['q'] = self.pick('viz_bands', 'viz_eps', 'viz_field', 'viz_recip')
                op['val'] = 'abs'
                op['comp'] = 'z'
        elif kind == 'exc':
            op = dict(op='q', e=e, q=self.pick('ft_field', 'field', 'eps_xy', 'repr'), kind=ki, mind=m, field=None)
        else:
            op = dict(op='q', e=e, q=self.pick('repr', 'state', 'viz_bands' if viz else 'repr'))
        if op['q'] == 'viz_bands':
            op.update(Q=self.flip(.4), ku=self.flip())
        return op

    def squery(self, s):
        q = dict(op='sq', s=s, q=self.pick('eps', 'bounds', 'ft', 'avg', 'desc', 'repr', 'grid', 'path', 'inside', 'viz'),
                 which=self.r.randrange(5), z=self.pick(.1, -.2))
        if q['q'] == 'ft' and self.flip(.4):
            q['gv'] = self.pick(1, 2)
        return q
