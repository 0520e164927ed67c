"""Plots; settings of the caller."""
import copy
from .checks import Check, register, Info, V, broke, clean, opsig, RNG, C02


# ======================================================================= C24
@register
class C24(Check):
    id = 'C24'
    n = dict(quick=400, thorough=12000)
    rule = ('a program counts if at least one plot was compared with the objects and the figures before it; distinct by the '
            'operations, the targets of the plots, options and faults')
    stub = Check.stub + ('figures of the caller (pyplot and object-oriented, any of them current)',)

    def gen(self, g):
        g.pol_gamma = False
        sym = g.flip(.15)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        if sym:
            sp['qws'] = []
        ops = [dict(op='struct', id='S0', spec=sp)]
        kp = g.kpool(4)
        eng = {}
        for e in range(g.pick(1, 1, 2)):
            e = f'E{e}'
            k = 'gme' if sym else g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'pol')
            m = g.mk(e, 'S0', k, sp)
            if sym:
                m['args'] = dict(gmax=g.pick(1.2, 1.3), truncate_g='abs')
            r = self.grun(g, e, k, kp, sp['lat'] if sym else None)
            ops += [m, r]
            eng[e] = (k, r)
        figs = []
        for f in range(g.pick(0, 1, 2, 3)):
            figs.append(f'F{f}')
            ops.append(dict(op='fig', id=f'F{f}', n=g.pick(1, 2, 3), oo=g.flip(.3), old=g.flip(.6)))
        n = 0
        for _ in range(g.r.randint(2, 5)):
            c = g.r.random()
            if c < .12 and figs:
                ops.append(dict(op='sel', f=g.pick(*figs), a=g.r.randrange(3)))
            elif c < .17 and figs:
                ops.append(dict(op='shut', f=g.pick(*figs)))
            elif c < .27:
                e = g.pick(*eng)
                k, r = eng[e]
                r = g.mutate_run(r, k, kp) if not sym else self.grun(g, e, k, kp, sp['lat'])
                self.sane(r)
                eng[e] = (k, r)
                ops.append(r)
            p = self.plot(g, sp, eng)
            if figs and p['fn'] not in ('reciprocal', 'field', 'wavef') and g.flip(.6):
                p['on'] = [g.pick(*figs), g.r.randrange(3)]
            else:
                n += 1
                p['id'] = f'N{n}'
                if g.flip(.5):
                    figs.append(p['id'])
            if g.flip(.12):
                p['fault'] = C02.fault(g)
            elif g.flip(.12) and 'mind' in p.get('kw', {}):
                p['kw'][g.pick('mind', 'mind', 'kind')] = 77
                p['invalid'] = True
            ops.append(p)
            if p.get('s') and g.flip(.3):
                # the same plot of a crystal that is almost the same
                near = copy.deepcopy(sp)
                near = g.nearly(near, g.r.choice(near['layers']))
                again = dict(clean(copy.deepcopy(p)), s='S2')
                again.pop('on', None)
                n += 1
                ops += [dict(op='struct', id='S2', spec=near), dict(again, id=f'N{n}')]
            elif p.get('e') and not p.get('invalid') and not sym and g.flip(.12):
                # of a simulation that is almost the same
                near = copy.deepcopy(sp)
                near = g.nearly(near, g.r.choice(near['layers']))
                again = dict(clean(copy.deepcopy(p)), e='E9')
                again.pop('on', None)
                n += 1
                m = next(o for o in ops if o['op'] == 'mk' and o['id'] == p['e'])
                ops += [dict(op='struct', id='S2', spec=near), dict(copy.deepcopy(m), id='E9', s='S2'),
                        dict(copy.deepcopy(eng[p['e']][1]), e='E9'), dict(again, id=f'N{n}')]
            if p.get('s') and p['fn'] != 'structure' and g.flip(.3):
                # the same plot of a crystal, before and after it is added to
                again = dict(clean(copy.deepcopy(p)), s='S1')
                again.pop('on', None)
                n += 2
                ops += [dict(op='struct', id='S1', spec=sp), dict(again, id=f'N{n - 1}'),
                        dict(op='grow', s='S1', step='clad', clad=g.pick('l', 'u'), shape=g.shape(small=True))
                        if g.flip(.4) else
                        dict(op='grow', s='S1', step='shape', layer=g.r.randrange(len(sp['layers'])),
                             shape=g.shape(small=True)),
                        dict(copy.deepcopy(again), id=f'N{n}')]
        return dict(ops=ops, env=RNG)

    def grun(self, g, e, k, kp, sym):
        r = g.run(e, k, kp, sym=sym, n=g.pick(2, 3, 1))
        self.sane(r)
        return r

    def sane(self, r):
        # wave vectors all different, so that the path has a length
        seen, ang = [], []
        for i, p in enumerate(zip(*r['k'])):
            if list(p) not in seen:
                seen.append(list(p))
                if r.get('ang'):
                    ang.append(r['ang'][i])
        r['k'] = [[p[0] for p in seen], [p[1] for p in seen]]
        if r.get('ang'):
            r['ang'] = ang

    def plot(self, g, sp, eng):
        nx, ny = g.pick(4, 5), g.pick(4, 6)
        e = g.pick(*eng)
        k, r = eng[e]
        cb = g.flip(.4)
        if g.flip(.35):
            fn = g.pick('eps', 'eps_xy', 'eps_xz', 'eps_yz', 'shapes', 'structure')
            p = dict(op='plot', s='S0', fn=fn)
            if fn == 'eps':
                p['kw'] = dict(layer=g.r.randrange(3), Nx=nx, Ny=ny, cbar=cb)
            elif fn == 'shapes':
                p['kw'] = dict(layer=g.r.randrange(3))
                if g.flip(.3):
                    p['kw']['pad'] = False
                if g.flip(.3):
                    p['kw'].update(color='r', lw=2)
            elif fn == 'structure':
                p['kw'] = dict(Nx=nx, Ny=ny, Nz=g.pick(4, 5), cladding=g.flip(), cbar=cb, xz=g.flip(.4), yz=g.flip(.4))
                if g.flip(.15):
                    p['kw'].update(xy=False, xz=True)
            else:
                a, b, c = dict(eps_xy=('Nx', 'Ny', 'z'), eps_xz=('Nx', 'Nz', 'y'), eps_yz=('Ny', 'Nz', 'x'))[fn]
                p['kw'] = {a: nx, b: ny, 'cbar': cb, c: g.pick(.1, -.2, .3)}
            if fn in ('eps', 'eps_xy', 'eps_xz', 'eps_yz') and g.flip(.3):
                p['kw']['clim'] = [1., g.pick(5., 13.)]
            return p
        ki = g.r.randrange(len(r['k'][0]))
        p = dict(op='plot', e=e)
        if k == 'gme':
            fn = g.pick('bands', 'bands', 'bands', 'field', 'field', 'eps_ft', 'reciprocal', 'structure')
        elif k == 'pwe':
            fn = g.pick('bands', 'field', 'eps_ft', 'reciprocal')
        elif k == 'exc':
            fn = g.pick('pot_ft', 'wavef', 'wavef', 'reciprocal')
        else:
            fn = g.pick('pol_bands', 'pol_bands', 'structure')
        p['fn'] = fn
        if fn in ('bands', 'field', 'wavef', 'pol_bands'):
            p['need'] = 'eners' if k in ('exc', 'pol') else 'freqs'
        if fn == 'bands':
            kw = dict(k_units=g.flip())
            if k == 'gme':
                kw.update(Q=g.flip(.45), cone=g.flip(.7))
                if g.flip(.3):
                    kw['Q_clip'] = g.pick(1e3, 1e5)
                if g.flip(.3):
                    kw['show_symmetry'] = False
            if g.flip(.25):
                kw.update(eV=True, a=g.pick(4e-7, 5.5e-7))
            if g.flip(.2):
                kw['markersize'] = 3
        elif fn == 'pol_bands':
            kw = dict(k_units=g.flip(), Q=g.flip(.6), fraction=g.flip(.4), cone=g.flip(.7))
            if g.flip(.3):
                kw.update(Q_min=g.pick(10., 300.), Q_max=g.pick(1e3, 1e6))
        elif fn == 'field':
            kw = dict(field=g.pick('h', 'd', 'e', 'E', 'H'), kind=ki, mind=g.r.randrange(2), N1=nx, N2=ny, cbar=cb,
                      component=g.pick('xyz', 'x', 'zy', 'z'), val=g.pick('re', 'im', 'abs'), eps=g.flip(), periodic=g.flip(.6))
            if k == 'gme':
                kw[g.pick('x', 'y', 'z', 'z')] = g.pick(.1, .25, -.2)
        elif fn == 'wavef':
            kw = dict(kind=ki, mind=0, N1=nx, N2=ny, cbar=cb, val=g.pick('re', 'im', 'abs2'))
        elif fn in ('eps_ft', 'pot_ft'):
            kw = dict(Nx=nx, Ny=ny, cbar=cb)
            if k == 'gme' and g.flip(.4):
                kw['cladding'] = True
        elif fn == 'structure':
            kw = dict(Nx=nx, Ny=ny, Nz=4, cbar=cb, xz=g.flip())
        else:
            kw = {}
        p['kw'] = kw
        return p

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        ok = {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            w = f'operation {i} ({psig(op)}{", fault at " + str(ob["fired"]) if ob.get("fired") else ""})'
            info['sig'].append(psig(clean(op)) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if op['op'] == 'run':
                ok[op['e']] = 'exc' not in ob
            if op['op'] != 'plot' or 'skip' in ob:
                if op['op'] in ('fig', 'sel', 'shut') and 'exc' in ob:
                    raise RuntimeError(ob)
                continue
            info.probe('plot ' + op['fn'])
            if op.get('e') and not ok.get(op['e']) and op.get('need'):
                continue
            info['nontrivial'] = True
            info['compared'] += 1
            if 'exc' in ob:
                if not ob.get('fired') and not self.invalid(op, ops):
                    out.append(V('plot-fails', w + f': {ob["exc"]}'))
                continue
            for cls, msg in ob['v']['bad']:
                out.append(V(cls, w + f': {msg}'))
        return out, info

    def invalid(self, op, ops):
        return bool(op.get('invalid'))


def psig(op):
    if op['op'] == 'plot':
        return f"plot:{op['fn']}({op.get('e') or op.get('s')}) on {op.get('on')} " + \
            ','.join(f'{k}={v}' for k, v in sorted(op.get('kw', {}).items()))
    if op['op'] in ('fig', 'sel', 'shut'):
        return str(sorted(op.items()))
    return opsig(op)
