"""Checks of optimizers, building, export and gradients."""
import copy
from .checks import register, Check, Info, V, broke, same, first_diff, opsig, reference, clean, RNG, C02, scenario, \
    diff_obs, diff_grad, closure
from .compare import diff_state
import numpy as np


# =============================================================== optimizers
def osig(c):
    return f"{c['method']}/{c['of']['f']}/{len(c['p0'])}/{sorted((c.get('bounds') or {}).items())}/{sorted(c['kw'].items())}" \
           f"/{c.get('args')}/{c.get('pass_self')}/{c.get('boom')}"


def opt_pair(h, eng, info):
    a = eng.exec(dict(h, kind='opt', env={}))
    if broke(a):
        return None, None
    b = eng.exec(dict(h, kind='opt', env={}, model=True))
    info['sig'] = [osig(c) for c in h['calls']]
    for c, ra in zip(h['calls'], a['result']):
        if c.get('boom') and 'exc' in ra and ra['exc'][1].startswith('from the'):
            info.fire(f"{c['boom']['exc']} in the {'objective' if c['boom']['at'] == 'of' else 'callback'}")
        if c.get('bounds') and 'bad' in c['bounds']:
            info.fire('ill-formed bounds')
        if c.get('clock'):
            info.fire('clock ' + c['clock'])
    return a, b


def evals_diff(c, a, b, what):
    """a: library, b: model."""
    if len(a) != len(b):
        return f'{len(a)} {what} instead of {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
        for k in sorted(set(x) | set(y)):
            if not same(x.get(k), y.get(k), rt=1e-7, at=1e-8):
                return f'{what} {i + 1}: {k} is {x.get(k)} instead of {y.get(k)}'
    return None


def compare_opt(h, a, b, method, info):
    out = []
    for i, (c, ra, rb) in enumerate(zip(h['calls'], a['result'], b['result'])):
        if c['method'] != method:
            continue
        info['compared'] += 1
        info['nontrivial'] = True
        w = f'optimization {i} ({c["method"]}): '
        d = evals_diff(c, ra['evals'], rb['evals'], 'evaluations')
        if d:
            out.append(V('evaluations', w + d))
            continue
        d = evals_diff(c, ra['cbs'], rb['cbs'], 'callback calls')
        if d:
            out.append(V('callback', w + d))
            continue
        if ('exc' in ra) != ('exc' in rb) or ('exc' in ra and ra['exc'][0] != rb['exc'][0]):
            out.append(V('outcome', w + f'{ra.get("exc", "returned normally")} instead of {rb.get("exc", "returning normally")}'))
            continue
        bad = c.get('bounds') and 'bad' in c['bounds']
        if not bad and not same(ra.get('of_after'), rb.get('of_after'), rt=1e-7, at=1e-8):
            out.append(V('history', w + f'of_list is {ra.get("of_after")} instead of {rb.get("of_after")}'))
        if 'ret' in rb:
            if not same(ra['ret'], rb['ret'], rt=1e-7, at=1e-8):
                out.append(V('return', w + f'returned {ra["ret"]} instead of {rb["ret"]}'))
            if 'res' in rb and not same(ra.get('res'), rb['res'], rt=1e-7, at=1e-8):
                out.append(V('return', w + f'SciPy result {ra.get("res")} instead of {rb["res"]}'))
            info.probe('completed')
        else:
            info.probe('stopped by an exception')
    return out


@register
class C09(Check):
    id = 'C09'
    n = dict(quick=6000, thorough=60000)
    rule = ('a program counts if at least one Adam optimization was compared with the textbook iteration; distinct by '
            'objectives, options, bounds, faults and their sequence')
    stub = ('system clock', 'standard output', 'objectives and callbacks (recording, failing on schedule)')

    def gen(self, g):
        from .optim import gen_opt
        h = gen_opt(g, 'adam')
        for c in h['calls']:
            if g.flip(.1):
                c['clock'] = g.pick('frozen', 'mad', 'backward')
        return h

    def evaluate(self, h, eng):
        info = Info()
        a, b = opt_pair(h, eng, info)
        if a is None:
            return [V('hang', 'the optimization did not finish or crashed')], info
        return compare_opt(h, a, b, 'adam', info), info


@register
class C10(Check):
    id = 'C10'
    n = dict(quick=8000, thorough=60000)
    rule = ('a program counts if an optimization with bounds, or with data of the caller compared before and after, was '
            'executed; distinct by objectives, options, bounds, faults and their sequence')
    stub = C09.stub

    def gen(self, g):
        from .optim import gen_opt
        return gen_opt(g)

    def evaluate(self, h, eng):
        from .optim import lim
        info = Info()
        a = eng.exec(dict(h, kind='opt', env={}))
        if broke(a):
            return [broke(a)], info
        info['sig'] = [osig(c) for c in h['calls']]
        out = []
        for i, (c, r) in enumerate(zip(h['calls'], a['result'])):
            w = f'optimization {i} ({c["method"]}): '
            info['compared'] += 1
            info['nontrivial'] = True
            bd = c.get('bounds')
            if c.get('boom') and 'exc' in r and r['exc'][1].startswith('from the'):
                info.fire(f"{c['boom']['exc']} in the {'objective' if c['boom']['at'] == 'of' else 'callback'}")
            n = len(c['p0'])
            if bd and 'bad' in bd:
                info.fire('ill-formed bounds')
                if 'exc' not in r:
                    out.append(V('bad-bounds-accepted', w + f'bounds {bd["bad"]} accepted'))
                if r['evals']:
                    out.append(V('bad-bounds-late', w + f'bounds {bd["bad"]}: objective evaluated {len(r["evals"])} times'))
                continue
            if 'exc' in r and not r['exc'][1].startswith('from the'):
                out.append(V('fails', w + f'raised {r["exc"]}'))
            if bd:
                info.probe('bounded: ' + sorted(bd)[0])
                lo, hi = (np.array(x, dtype=float) for x in lim(bd, n))
                pts = [('evaluation', e['p']) for e in r['evals']] + [('callback', e['p']) for e in r['cbs']]
                if 'ret' in r:
                    pts.append(('result', r['ret'][0]))
                for what, p in pts:
                    if np.shape(p) != (n,):
                        out.append(V('bounds', w + f'{what} has parameters of shape {np.shape(p)}'))
                        break
                    if np.any(p < lo - 1e-12) or np.any(p > hi + 1e-12):
                        out.append(V('bounds', w + f'{what} at {p} outside of {bd}'))
                        break
                    if np.any(p == lo) or np.any(p == hi):
                        info.probe('a bound was active')
        out += [V('argument-modified', f'optimization {i} modified {l}') for i, l in a['argmut'][:3]]
        out += [V('result-altered', x + ' was altered later') for x in a['altered'][:3]]
        return out, info


@register
class C11(Check):
    id = 'C11'
    n = dict(quick=5000, thorough=60000)
    rule = ('a program counts if at least one L-BFGS optimization was compared with a direct call of SciPy; distinct by '
            'objectives, options, bounds, faults and their sequence')
    stub = C09.stub

    def gen(self, g):
        from .optim import gen_opt
        return gen_opt(g, 'lbfgs')

    def evaluate(self, h, eng):
        info = Info()
        a, b = opt_pair(h, eng, info)
        if a is None:
            return [V('hang', 'the optimization did not finish or crashed')], info
        return compare_opt(h, a, b, 'lbfgs', info), info


# =============================================================== building
@register
class C12(Check):
    id = 'C12'
    n = dict(quick=2700, thorough=50000)
    rule = ('a program counts if at least one building step was rejected (invalid, or stopped by an injected failure) '
            'and the crystals were compared with the model after every step; distinct by the steps and faults')
    stub = ('failures of constructors and numerical functions', 'invalid steps')

    def gen(self, g):
        from .crystal import gen_crystal
        return gen_crystal(g)

    def evaluate(self, h, eng):
        from .crystal import Model, cladfix
        info = Info()
        r = eng.exec(dict(h, kind='crystal', env={}))
        if broke(r):
            return [broke(r)], info
        ms = [Model(sp) for sp in h['crystals']]
        out = []
        for i, (st, rec) in enumerate(zip(h['steps'], r['result'])):
            m = ms[st.get('c', 0)]
            w = f'step {i} ({ {k: v for k, v in st.items() if k not in ("pts",)} }): '[:400]
            info['sig'].append(w + str(rec.get('fired')))
            if st['op'] in ('layer', 'shapes', 'qw'):
                ok = m.valid(st)
                if rec.get('fired'):
                    info.fire(st['fault']['exc'], rec['fired'])
                    info['nontrivial'] = True
                    if 'exc' not in rec:
                        m.apply(st)          # absorbed
                elif ok:
                    if 'exc' in rec:
                        out.append(V('step-rejected', w + f'{rec["exc"]}'))
                    else:
                        m.apply(st)
                else:
                    info.fire('invalid step')
                    info['nontrivial'] = True
                    if 'exc' not in rec:
                        out.append(V('step-accepted', w + 'is invalid but was accepted'))
                        break
            elif st['op'] == 'eps':
                if 'exc' in rec:
                    out.append(V('query-fails', w + str(rec['exc'])))
                else:
                    for n in range(len(st['pts'][0])):
                        e = m.eps(*(st['pts'][j][n] for j in range(3)))
                        if e is None:
                            continue
                        info['compared'] += 1
                        if abs(rec['eps'][n] - e) > 1e-9 * (1 + abs(e)):
                            out.append(V('permittivity', w + f'{rec["eps"][n]} instead of {e} at '
                                         f'{[st["pts"][j][n] for j in range(3)]}'))
                            break
            elif 'exc' in rec and st['what'] != 'gme' and not (st['what'] == 'grid' and not m.layers):
                out.append(V('query-fails', w + str(rec['exc'])))
            if 'desc_exc' in rec:
                out.append(V('crystal-differs', w + 'the crystal cannot be described: ' + rec['desc_exc']))
                break
            for j, mm in enumerate(ms):
                info['compared'] += 1
                a, b = cladfix(rec['desc'][j]), cladfix(mm.desc())
                if not same(a, b, rt=1e-6, at=1e-7):
                    out.append(V('crystal-differs', w + f'crystal {j}: {first_diff(a, b)}'))
            if out:
                break
        return out, info


# =============================================================== export
@register
class C13(Check):
    id = 'C13'
    n = dict(quick=7000, thorough=50000)
    rule = ('a program counts if at least one file was exported and read back, or a storage fault fired; distinct by the '
            'crystals, rasters, options and storage faults')
    real = ('legume (all modules), numpy, gdspy, scikit-image',)
    stub = ('storage (open, write, flush, close; full disk, short writes, I/O errors)', 'system clock')

    def gen(self, g):
        from .gdsim import gen_gds
        return gen_gds(g)

    def evaluate(self, h, eng):
        from .gdsim import check_step
        info = Info()
        r = eng.exec(dict(h, kind='gds', env={}))
        if broke(r):
            return [broke(r)], info
        out = []
        for i, (st, rec) in enumerate(zip(h['steps'], r['result'])):
            info['sig'].append(str(st)[:1500] + str(rec['fired']))
            for k, n in rec['fired'].items():
                info.fire('disk ' + k)
            info['compared'] += 1
            info['nontrivial'] = True
            info.probe('export raised' if 'exc' in rec else 'export completed')
            for cls, msg in check_step(st, rec):
                out.append(V(cls, f'export {i} ({st["op"]} {st.get("kw")} {st.get("disk")}): {msg}'))
        return out, info


# =============================================================== gradients
def plain_of(op):
    """The same objective, evaluated plainly at the same parameters."""
    return dict(op='grad', of=op['of'], mode='plain', **({'p': op['p']} if 'p' in op else {}))


@register
class C18(Check):
    id = 'C18'
    n = dict(quick=170, thorough=8000)
    rule = ('a program counts if a gradient was computed in a process that had differentiated, run or failed before; '
            'distinct by the objectives, modes, runs, faults and exceptions')
    stub = Check.stub + ('exceptions of the objective',)

    def gen(self, g):
        from .grads import gen_of, gen_grad
        ops = []
        g.pol_gamma = False
        sp = g.struct(qw=True, generic=True)
        ops.append(dict(op='struct', id='S0', spec=sp))
        ofs = [gen_of(g)]
        if g.flip(.5):
            from .grads import vary
            ofs.append(vary(g, ofs[0]) if g.flip(.6) else gen_of(g))
        kp = g.kpool(2)
        eng = {}
        for _ in range(g.r.randint(3, 6)):
            c = g.r.random()
            if c < .62:
                o = gen_grad(g, of=g.pick(*ofs))
                if g.flip(.3):
                    o['p'] = [round(x * g.pick(.96, 1.03), 4) for x in o['of']['p']]
                if g.flip(.2):
                    o['boom'] = dict(at=g.pick('start', 'built', 'end'), n=g.pick(1, 1, 1, 2),
                                     exc=g.pick('Stop', 'KeyboardInterrupt', 'ValueError', 'MemoryError'))
                elif g.flip(.25):
                    o['fault'] = C02.fault(g)
                ops.append(o)
            elif c < .85:
                k = g.pick('gme', 'gme', 'pwe', 'exc', 'pol')
                e = f'E{len(eng)}'
                if eng and g.flip(.4):
                    e = g.pick(*eng)
                    k = eng[e]
                else:
                    ops.append(g.mk(e, 'S0', k, sp))
                    eng[e] = k
                r = g.run(e, k, kp, n=1)
                if g.flip(.1):
                    r['fault'] = C02.fault(g)
                ops.append(r)
                if g.flip(.5) and k != 'pol':
                    q = g.query(e, k, viz=False, run=r)
                    if q['q'] != 'repr':
                        ops.append(q)
            elif c < .93:
                ops.append(g.squery('S0'))
            else:
                ops.append(dict(op='backend', name=g.pick('numpy', 'autograd')))
        ops.append(gen_grad(g, of=ofs[0]))
        return dict(ops=ops, env=RNG)

    def evaluate(self, h, eng):
        from .sites import concretise
        from .world import has_box
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        ok_run, before = {}, 0
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            w = f'operation {i} ({gsig(op)}): '
            info['sig'].append(gsig(op) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if 'skip' in ob:
                continue
            if op['op'] == 'grad':
                info['nontrivial'] |= before > 0
                before += 1
                st = [o for o in ops[:i] if o['op'] == 'struct']
                base = {k: v for k, v in clean(op).items() if k != 'boom'}
                stopped = 'exc' in ob and (ob.get('fired') or op.get('boom'))
                if op.get('boom') and 'exc' in ob:
                    info.fire('exception of the objective: ' + op['boom']['exc'])
                    if ob['exc'] != [op['boom']['exc'], 'from the objective']:
                        out.append(V('wrong-error', w + f'raised {ob["exc"]} instead of {op["boom"]}'))
                if stopped:
                    info.probe('gradient stopped')
                    continue
                ref = eng.exec(dict(kind='world', env=h['env'], ops=st + [base]), memo=True)
                if broke(ref):
                    continue
                ref = ref['obs'][-1]
                tol = 1e-3 if op['of'].get('solver') else 1e-7
                info['compared'] += 1
                info.probe('mode ' + op['mode'] + (': raised' if 'exc' in ref else ''))
                d = diff_grad(ob, ref, tol)
                if d:
                    out.append(V('gradient-differs', w + d + ' (alone in a fresh process)'))
                    continue
                if 'exc' in ob:
                    continue
                if ob['v'].get('box'):
                    out.append(V('traced-result', w + 'a plain result is a traced value'))
                if 'value' in ob['v'] and op['mode'] in ('vg', 'twice', 'plain_ag'):
                    pl = eng.exec(dict(kind='world', env=h['env'], ops=st + [plain_of(op)]), memo=True)['obs'][-1]
                    info['compared'] += 1
                    if 'exc' in pl or not same(ob['v']['value'], pl['v']['value'],
                                               rt=1e-5 if op['of'].get('solver') else 1e-8, at=1e-9):
                        out.append(V('value-differs', w + f'value {ob["v"]["value"]}, plainly {pl.get("v", pl)}'))
                if op['mode'] in ('fmap', 'sum'):
                    sq = eng.exec(dict(kind='world', env=h['env'], ops=st + [dict(base, mode='seq')]), memo=True)['obs'][-1]
                    info['compared'] += 1
                    d = diff_grad(ob, sq, 1e-7, ('value', 'grad') if op['mode'] == 'sum' else None)
                    if d:
                        out.append(V(op['mode'] + '-differs', w + d + ' (functions one after the other)'))
                continue
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            if op['op'] not in ('run', 'q', 'sq', 'mk'):
                continue
            before += 1
            if has_box(ob.get('v')) or has_box(ob.get('state')):
                out.append(V('traced-result', w + 'a result of a plain operation is a traced value'))
            if ob.get('fired') or (op['op'] == 'q' and not ok_run.get(op['e'])):
                continue
            ref = reference(eng, ops, i, h['env'])
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                tol = 1e-6 if op.get('opts', {}).get('eig_solver') == 'eigsh' else 1e-9
                d = diff_state(ob['state'], ref['state'], gauge=True, tol=tol)
            if d and op['op'] == 'q' and 'exc' not in ob and 'exc' not in ref and 'state' in ref and \
                    not same(ob['state']['eigvecs'], ref['state']['eigvecs']):
                d = None
            if d:
                out.append(V('plain-result-differs', w + d))
        return out, info


def gsig(op):
    if op['op'] != 'grad':
        return opsig(op)
    of = op['of']
    return f"grad:{op['mode']}/{of['kind']}/{of['t']}/{of['names']}/{sorted(of['opts'].items(), key=str)}/{op.get('p')}" \
           f"/{op.get('boom')}/{of.get('inner')}/{op.get('method')}/{of['w']}"
