"""The properties as simulated checks: a workload generator and an oracle each.

A history is a JSON object; evaluate(history, engine) is a pure function of it
and of the code under test, and returns (violations, info)."""
import copy
import random
from .gen import G, PI
from . import compare
from .compare import same, diff_state, empty

CHECKS = {}


def register(c):
    CHECKS[c.id] = c()
    return c


class Check:
    id = ''
    n = dict(quick=100, thorough=2000)
    rule = ''
    real = ('legume (all modules), numpy, scipy, autograd',)
    stub = ('system clock', 'standard output', 'random number seeds')

    def gen(self, g):
        raise NotImplementedError

    def evaluate(self, h, eng):
        raise NotImplementedError


class Info(dict):
    """Counters of one history, merged into the evidence."""

    def __init__(self):
        super().__init__(fired={}, sites=[], sig=[], compared=0, probes={}, nontrivial=False)

    def fire(self, kind, site=None):
        self['fired'][kind] = self['fired'].get(kind, 0) + 1
        if site:
            self['sites'].append(site)

    def probe(self, k, n=1):
        self['probes'][k] = self['probes'].get(k, 0) + n


def V(cls, msg):
    return dict(cls=cls, msg=msg)


def broke(r):
    """Violation for a child that hung or crashed, or None."""
    if r.get('hang'):
        return V('hang', 'the run did not finish (deadlock or endless loop)')
    if r.get('crash'):
        return V('crash', f'the process died with signal {r["crash"]}')
    return None


def closure(ops, i):
    """Indices of the operations a fresh process needs for operation i (run,
    query, mk, sq)."""
    op = ops[i]
    need = []

    def last(pred, before):
        for j in range(before - 1, -1, -1):
            if pred(ops[j]):
                return j
        return None

    def struct_of(s, before):
        return last(lambda o: o['op'] == 'struct' and o['id'] == s, before)

    if op['op'] in ('q', 'run'):
        e = op['e']
        m = last(lambda o: o['op'] in ('mk', 'drop') and o.get('id', o.get('e')) == e, i)
        if m is None or ops[m]['op'] == 'drop':
            return None
        st = struct_of(ops[m]['s'], m)
        if st is None:
            return None
        need += [st, m]
        gr = [j for j in range(st, i) if ops[j]['op'] == 'grow' and ops[j]['s'] == ops[m]['s']
              and struct_of(ops[m]['s'], j) == st]
        if any(j > m for j in gr):
            return None         # the crystal was edited after the object was built
        need += gr
        r = i
        if op['op'] == 'q':
            r = last(lambda o: o['op'] == 'run' and o['e'] == e, i)
            if r is not None and r < m:
                r = None
            if r is not None:
                need.append(r)
        if r is not None:
            s = ops[m]['s']
            ef = last(lambda o: o['op'] == 'eff' and o['s'] == s, r)
            # an assignment counts only if it concerns the same crystal object
            if ef is not None and ef > st:
                if struct_of(s, r) == st:
                    need.append(ef)
                else:
                    nx = [j for j in range(st + 1, r) if ops[j]['op'] == 'struct' and ops[j]['id'] == s][0]
                    ef = last(lambda o: o['op'] == 'eff' and o['s'] == s, nx)
                    if ef is not None and ef > st:
                        need.append(ef)
    elif op['op'] in ('mk', 'gds'):
        st = struct_of(op['s'], i)
        if st is None:
            return None
        need += [st] + [j for j in range(st, i) if ops[j]['op'] == 'grow' and ops[j]['s'] == op['s']]
    elif op['op'] == 'sq':
        st = struct_of(op['s'], i)
        if st is None:
            return None
        need += [st] + [j for j in range(st, i) if ops[j]['op'] == 'grow' and ops[j]['s'] == op['s']]
        ef = last(lambda o: o['op'] == 'eff' and o['s'] == op['s'], i)
        if ef is not None and ef > st:
            need.append(ef)
    return sorted(set(need)) + [i]


STRIP = ('fault', 'console', 'clock', 'cfg')


def clean(op):
    return {k: v for k, v in op.items() if k not in STRIP}


def reference(eng, ops, i, env, override=None):
    """Observation of operation i executed in a fresh process with fresh
    objects after only what it depends on. None if it depends on nothing."""
    c = closure(ops, i)
    if c is None:
        return None
    prog = dict(kind='world', env=env, ops=[clean((override or {}).get(j, ops[j])) for j in c])
    r = eng.exec(prog, memo=True)
    b = broke(r)
    if b:
        return b
    return r['obs'][-1]


def diff_obs(a, b, op, gauge=False, tol=1e-9, states=True):
    """a: observed, b: reference."""
    if 'exc' in a or 'exc' in b:
        if ('exc' in a) != ('exc' in b):
            return f"{_short(a)} instead of {_short(b)}"
        if a['exc'][0] != b['exc'][0]:
            return f"raised {a['exc']} instead of {b['exc']}"
        return None
    if 'skip' in a or 'skip' in b:
        return None if ('skip' in a) == ('skip' in b) else 'harness skip'
    if op['op'] == 'run' and states:
        return diff_state(a['state'], b['state'], tol=tol, gauge=gauge)
    if op['op'] in ('q', 'sq', 'grad', 'gds'):
        if not same(a['v'], b['v']):
            return f"query {op.get('q')} returned another value{compare._how(a['v'], b['v']) if hasattr(a['v'], 'shape') else ''}"
    return None


def _short(o):
    return f"raised {o['exc']}" if 'exc' in o else 'returned normally'


def opsig(op):
    """Short description for distinctness."""
    f = op.get('fault')
    s = op['op']
    if s == 'run':
        o = op.get('opts') or op.get('gme_options') or {}
        s += ':' + ','.join(f'{k}={v}' for k, v in sorted(o.items(), key=str) if k not in ('verbose',)) + f"/{len(op['k'][0])}"
    elif s in ('q', 'sq'):
        s += ':' + op['q']
    elif s == 'mk':
        s += ':' + op['kind'] + str(sorted(op.get('args', {}).items()))
    if f:
        s += f"!{f.get('ev')}{f.get('n')}{f.get('exc')}"
    if op.get('clock'):
        s += '@' + op['clock']
    if op.get('console'):
        s += '#' + op['console']['mode']
    return s


RNG = dict(rng_each=4711)


def scenario(g, nops=(5, 9), kinds=None, queries=.5, viz=True, break_p=.08, structs=2, drop_p=.12, eff_p=.2, sym_p=.18, grow_p=0.):
    """A random program over a few near-identical structures and engines."""
    ops = []
    sym = g.flip(sym_p)
    base = g.sym_struct() if sym else g.struct(qw=True)
    if sym:
        base['qws'] = []
    specs = {'S0': base}
    ops.append(dict(op='struct', id='S0', spec=base))
    for i in range(1, structs):
        if g.flip(.7):
            sp = g.mutate_struct(base) if not sym else g.sym_struct()
            specs[f'S{i}'] = sp
            ops.append(dict(op='struct', id=f'S{i}', spec=sp))
    kp = g.kpool(3)
    eng, last = {}, {}
    n = g.r.randint(*nops)
    while n > 0:
        n -= 1
        c = g.r.random()
        if not eng or (len(eng) < 3 and c < .22):
            e = f'E{len(eng)}'
            s = g.pick(*specs)
            k = g.pick(*(kinds or (['gme'] if sym else ['gme', 'gme', 'gme', 'pwe', 'exc', 'pol'])))
            twin = [x for x in eng.values() if x[0] == k]
            m = g.mk(e, s, k, specs[s])
            if twin and g.flip(.6):        # same kind, same arguments, other structure
                m = dict(copy.deepcopy(g.r.choice(twin)[2]), id=e, s=s)
                if 'layer' in m:
                    m['layer'] = 0
            if sym:
                m['args'] = dict(gmax=g.pick(1.2, 1.3), truncate_g='abs')
            eng[e] = (k, s, m)
            ops.append(m)
            c = .5
        e = g.pick(*eng)
        k, s, m = eng[e]
        if c > 1 - drop_p:
            ops.append(dict(op='drop', e=e))
            if g.flip():
                ops.append(dict(op='gc'))
            s2 = g.pick(*specs)
            if grow_p and not sym and g.flip(.35):
                # another crystal in its place (and possibly at its address)
                others = [x for x in eng if x != e and eng[x][1] == s2]
                if g.flip(.6):
                    ops.extend(dict(op='drop', e=x) for x in others)
                    for x in others:
                        del eng[x]
                        last.pop(x, None)
                specs[s2] = g.mutate_struct(specs[s2], keep=.3)
                ops.append(dict(op='struct', id=s2, spec=specs[s2]))
            m2 = dict(copy.deepcopy(m), s=s2)
            if 'layer' in m2:
                m2['layer'] = 0
            eng[e] = (k, s2, m2)
            ops.append(m2)
            m = m2
        if grow_p and not sym and g.flip(grow_p):
            # built further; the objects made from it before are not used any more
            grow_step(g, ops, specs, s)
            for x in [x for x in eng if eng[x][1] == s]:
                m = eng[x][2]
                if x == e or g.flip(.4):
                    m = dict(copy.deepcopy(m), id=x)
                    ops.append(m)
                    eng[x] = (eng[x][0], s, m)
                    if x in last and g.flip(.7):
                        ops.append(copy.deepcopy(last[x]))
                        ops.append(g.query(x, eng[x][0], viz=False, run=last[x]))
                else:
                    ops.append(dict(op='drop', e=x))
                    del eng[x]
                    last.pop(x, None)
        custom = False
        if c > 1 - drop_p - eff_p and specs[s].get('eff') and k == 'gme':
            sp = specs[s]
            custom = g.flip(.8)
            if custom and g.flip(.7):
                # the same options before and after the assignment
                r = copy.deepcopy(last[e]) if e in last else g.run(e, k, kp, sym=base['lat'] if sym else None)
                r['opts']['eps_eff'] = 'custom'
                last[e] = r
                ops.append(r)
            ops.append(dict(op='eff', s=s, eff=[sp['eps_l']] + [round(l['eps_b'] * g.pick(.8, .9, 1.), 4)
                                                               for l in sp['layers']] + [sp['eps_u']]))
        if e in last and custom and g.flip(.5):
            r = copy.deepcopy(last[e])
        elif e in last and g.flip(.75):
            r = g.mutate_run(last[e], k, kp)
        elif e not in last and g.flip(.5) and any(eng[x][0] == k for x in last):
            # exactly what another object ran
            r = copy.deepcopy(last[g.pick(*(x for x in sorted(last) if eng[x][0] == k))])
            r['e'] = e
        else:
            r = g.run(e, k, kp, sym=base['lat'] if sym else None)
        if custom:
            r['opts']['eps_eff'] = 'custom'
        if k == 'gme' and g.flip(break_p):
            b = copy.deepcopy(r)
            g.break_gme_opts(b['opts'])
            ops.append(b)
        else:
            last[e] = r
            ops.append(r)
        while g.flip(queries):
            if g.flip(.8):
                ops.append(g.query(e, k, viz=viz, run=last.get(e)))
            else:
                ops.append(g.squery(g.pick(*specs)))
    return ops


def grow_step(g, ops, specs, s):
    """One more building step of a crystal."""
    sp = specs[s] = copy.deepcopy(specs[s])
    c = g.r.random()
    if c < .5:
        i = g.r.randrange(len(sp['layers']))
        o = dict(step='shape', layer=i, shape=g.shape(small=True))
        sp['layers'][i]['shapes'].append(o['shape'])
    elif c < .65:
        o = dict(step='clad', clad=g.pick('l', 'u'), shape=g.shape(small=True))
    elif c < .85:
        o = dict(step='layer', layer=g.layer(0))
        sp['layers'].append(copy.deepcopy(o['layer']))
        # assigned again before any run that needs it
        sp['eff'] = None
    else:
        o = dict(step='qw', qw=g.qw1(sp))
        sp.setdefault('qws', []).append(o['qw'])
    ops.append(dict(o, op='grow', s=s))


def twins(g):
    """The same work on a few crystals that differ in one detail each (among
    them details that keep every sum and average), one after the other."""
    base = g.struct(qw=True, nl=g.pick(1, 2, 2, 2, 3))
    kp = g.kpool(3)
    k = g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'exc', 'pol')
    m = g.mk('E0', 'S0', k, base)
    r = g.run('E0', k, kp)
    q = g.query('E0', k, viz=False, run=r)
    specs = [base]
    for _ in range(g.pick(1, 2, 3)):
        specs.append(g.mutate_struct(g.pick(base, base, specs[-1]), keep=.6))
    if len(specs) < 4 and g.flip(.3):
        specs.append(copy.deepcopy(base))
    ops = []
    if g.flip(.45):
        # one gone before the next one comes, possibly at its address
        for i, sp in enumerate(specs):
            if i:
                ops.append(dict(op='drop', e='E0'))
            ops += [dict(op='struct', id='S0', spec=sp), copy.deepcopy(m), copy.deepcopy(r), copy.deepcopy(q)]
        return ops
    late = g.flip(.5)       # all objects at first, or one after the other
    for i, sp in enumerate(specs):
        ops.append(dict(op='struct', id=f'S{i}', spec=sp))
        mm = dict(copy.deepcopy(m), id=f'E{i}', s=f'S{i}')
        if i and g.flip(.15) and 'gmax' in mm.get('args', {}):
            mm['args']['gmax'] = round(mm['args']['gmax'] + g.pick(.001, .2, -.2), 4)
        ops.append(mm)
        if not late:
            ops += [dict(copy.deepcopy(r), e=f'E{i}'), dict(copy.deepcopy(q), e=f'E{i}')]
    order = list(range(len(specs)))
    for _ in range(1 + late):
        g.r.shuffle(order)
        if _:
            r = g.mutate_run(r, k, kp)
        for i in order:
            ops.append(dict(copy.deepcopy(r), e=f'E{i}'))
            if g.flip(.5):
                ops.append(dict(copy.deepcopy(q), e=f'E{i}'))
    return ops


# ======================================================================= C01
@register
class C01(Check):
    id = 'C01'
    n = dict(quick=260, thorough=6000)
    rule = ('a program counts if it runs at least two simulations in one process, so that state of one '
            'could reach the other; distinct by the sequence of operations with their options')

    def gen(self, g):
        if g.flip(.3):
            return dict(ops=twins(g), env=dict(RNG, share=g.flip(.4)))
        out = []
        for o in scenario(g, kinds=None, grow_p=.12, drop_p=.15):
            out.append(o)
            if o['op'] == 'run' and o.get('ang') and g.flip(.25):
                # options that are missing now
                o = copy.deepcopy(o)
                o.pop('ang')
                out.append(o)
                if g.flip():
                    o['opts'].pop('kz_symmetry', None)
        return dict(ops=out, env=dict(RNG, share=g.flip(.4)))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        ok_run = {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(op))
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            if op['op'] not in ('run', 'q', 'sq', 'mk') or 'skip' in ob:
                continue
            if op['op'] == 'q' and not ok_run.get(op['e']):
                continue
            ref = reference(eng, ops, i, h['env'])
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            info.probe('errors compared' if 'exc' in ref else 'values compared')
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True)
            if d:
                out.append(V(f'{op["op"]}-differs', f'operation {i} ({opsig(op)}): {d}'))
        info['nontrivial'] = sum(o['op'] == 'run' for o in ops) >= 2
        return out, info


# ======================================================================= C02
RES = {'gme': ('kpoints', 'freqs', 'freqs_im', 'eigvecs', 'rad_coup', 'rad_gvec', 'unbalance_sp', 'kz_symms'),
       'pwe': ('kpoints', 'freqs', 'eigvecs'),
       'exc': ('kpoints', 'eners', 'eigvecs'),
       'pol': ('kpoints', 'eners', 'eners_im', 'eigvecs', 'fractions_ex', 'fractions_ph')}


def exposed_matches(st, cand):
    """None if everything exposed in st is empty or equal to the candidate."""
    for n in RES[st['kind']]:
        x = st.get(n)
        if empty(x):
            continue
        if n == 'kpoints' and not any(not empty(st.get(m)) for m in RES[st['kind']][1:]):
            continue
        if cand is None or not same(x, cand.get(n)):
            return n
    return None


def full_run(op):
    """The run of op with all losses, as candidate for what may be exposed."""
    op = copy.deepcopy(op)
    op.get('opts', {}).pop('compute_im', None)
    op.get('gme_options', {}).pop('compute_im', None)
    return op


@register
class C02(Check):
    id = 'C02'
    n = dict(quick=320, thorough=8000)
    rule = ('a program counts if an injected fault fired inside a run, a loss computation or a constructor; '
            'distinct by operations, options and the source site where the fault fired')

    def gen(self, g):
        sym = g.flip(.12)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        ops = [dict(op='struct', id='S0', spec=sp)]
        kind = 'gme' if sym else g.pick('gme', 'gme', 'gme', 'pol', 'exc', 'pwe')
        m = g.mk('E0', 'S0', kind, sp)
        if sym:
            m['args'] = dict(gmax=g.pick(1.2, 1.3), truncate_g='abs')
        if g.flip(.08):
            ops.append(dict(m, fault=self.fault(g)))
        ops.append(m)
        kp = g.kpool(3)
        a = g.run('E0', kind, kp, sym=sp['lat'] if sym else None)
        other = g.flip(.3)
        if other:
            ops.append(dict(m, id='E1'))
        if g.flip(.75):
            ops.append(a)
        b = g.mutate_run(a, kind, kp) if g.flip(.8) else g.run('E0', kind, kp, sym=sp['lat'] if sym else None)
        for _ in range(g.pick(1, 1, 1, 2)):
            bb = copy.deepcopy(b)
            if kind == 'gme' and g.flip(.25):
                # losses computed afterwards, disturbed
                bb['opts']['compute_im'] = False
                ops.append(bb)
                ops.append(dict(op='q', e='E0', q=g.pick('im', 'im', 'rad'), kind=0, minds=[0], mind=0,
                                fault=self.fault(g)))
            else:
                bb['fault'] = self.fault(g)
                if g.flip(.15):
                    del bb['fault']
                    self.verbose(bb)
                    bb['console'] = dict(mode=g.pick('broken', 'fail_at', 'flush', 'closed', 'ascii', 'once', 'once_flush'),
                                         at=g.r.randrange(6))
                elif g.flip(.15):
                    self.verbose(bb)
                ops.append(bb)
            if g.flip(.6 if kind == 'pol' else .25):
                # again, exactly the same or only in part
                again = clean(copy.deepcopy(bb))
                if kind == 'pol' and g.flip(.3):
                    again['exc_options'] = g.pol_opts()['exc_options']
                ops.append(again)
            if g.flip(.7):
                q = g.query('E0', kind, viz=False, run=b)
                if q['q'] != 'repr':
                    ops.append(q)
            b = g.mutate_run(b, kind, kp)
        c = g.pick(a, b)
        ops.append(copy.deepcopy(c))
        if kind == 'gme' and not sym and g.flip(.3):
            ops.append(dict(op='q', e='E0', q='rad', kind=0, minds=[0, 1], mind=0))
        if other:
            ops.append(dict(copy.deepcopy(c), e='E1'))
        return dict(ops=ops, env=RNG)

    @staticmethod
    def fault(g):
        from .sites import abstract
        return abstract(g)

    @staticmethod
    def verbose(op):
        for k in ('opts', 'gme_options'):
            if k in op:
                op[k]['verbose'] = True
        if 'exc_options' in op:
            op['exc_options']['verbose_ex'] = True
        if 'numeig_ex' in op.get('opts', {}):
            op['opts']['verbose_ex'] = True
        if 'pol' in op.get('opts', {}) or set(op.get('opts', {})) == {'numeig', 'verbose'}:
            op['opts'].pop('verbose')

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        prev, cur = {}, {}       # engine -> index of last completed / last attempted run
        tried = {}               # engine -> all runs attempted
        dirty = {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            e = op.get('e')
            disturbed = 'fault' in op or 'console' in op
            fired = ob.get('fired') or ob.get('confired')
            info['sig'].append(opsig(clean(op)) + (f"!{ob['fired']}{op['fault']['exc']}" if ob.get('fired') else ''))
            if fired:
                info['nontrivial'] = True
                if 'fault' in op:
                    info.fire(op['fault']['exc'], ob['fired'])
                else:
                    info.fire('console-' + op['console']['mode'])
                info.probe('fault absorbed' if 'exc' not in ob else 'fault raised')
            if 'skip' in ob:
                continue
            if op['op'] == 'mk':
                prev.pop(op['id'], None), cur.pop(op['id'], None), tried.pop(op['id'], None)
                dirty[op['id']] = False
                continue
            if op['op'] == 'run':
                ref = self.ref(eng, ops, i, h['env'])
                cur[e] = i
                tried.setdefault(e, []).append(i)
                if 'exc' in ob and fired:
                    dirty[e] = True
                    out += self.check_state(eng, ops, i, ob, prev.get(e), i, tried[e], h['env'], info)
                else:
                    if ref is None or 'cls' in ref:
                        continue
                    info['compared'] += 1
                    d = diff_obs(ob, ref, op)
                    if d and 'exc' not in ob and 'exc' not in ref:
                        d = diff_state(ob['state'], ref['state'], gauge=True)
                    if d:
                        cls = 'absorbed-fault-wrong-result' if fired else 'run-after-fault-differs'
                        out.append(V(cls, f'operation {i} ({opsig(op)}), fault at {fired}: {d}'))
                    dirty[e] = 'exc' in ob
                if 'exc' not in ob:
                    prev[e] = i
                continue
            if op['op'] == 'q':
                if 'state' in ob and (dirty.get(e) or fired):
                    out += self.check_state(eng, ops, i, ob, prev.get(e), cur.get(e), tried.get(e, []),
                                            h['env'], info)
                    if 'exc' not in ob and op['q'] not in ('im', 'state', 'repr'):
                        out += self.check_query(eng, ops, i, ob, op, prev.get(e), cur.get(e), h['env'], info)
                    if fired:
                        dirty[e] = True
                elif 'exc' not in ob and cur.get(e) is not None:
                    ref = reference(eng, ops, i, h['env'])
                    if ref and 'cls' not in ref:
                        info['compared'] += 1
                        d = diff_obs(ob, ref, op)
                        if d:
                            out.append(V('query-differs', f'operation {i} ({opsig(op)}): {d}'))
        return out, info

    def ref(self, eng, ops, i, env):
        return reference(eng, ops, i, env)

    def cands(self, eng, ops, idxs, env, failed=False):
        out = []
        for j in idxs:
            if j is None:
                continue
            # as asked, then with the losses that may have been added later
            for o in (ops[j], full_run(ops[j])):
                r = reference(eng, ops, j, env, override={j: o})
                if r and 'cls' not in r and (failed or 'exc' not in r):
                    out.append((j, r['state']))
        return out

    def check_state(self, eng, ops, i, ob, prev, cur, tried, env, info):
        st = ob['state']
        cs = self.cands(eng, ops, (prev, cur), env)
        info['compared'] += 1
        bad = []
        subs = [(st, [c for _, c in cs], '')]
        if 'sub' in st:
            # the simulations inside complete at different points of the runs
            cs = self.cands(eng, ops, tried, env, failed=True)
        for n, s in enumerate(st.get('sub', [])):
            subs.append((s, [c['sub'][n] for _, c in cs], f'inside ({n}): '))
        for s, cc, where in subs:
            res = [exposed_matches(s, c) for c in (cc or [None])]
            if all(x is not None for x in res):
                bad.append(f'{where}exposed {s["kind"]} results match no single run: {res}')
            shown = [n for n in RES[s['kind']][1:] if not empty(s.get(n))]
            info.probe('after fault: ' + ('nothing exposed' if not shown else 'something exposed'))
        return [V('mixed-results', f'after operation {i} ({opsig(ops[i])}, fault at '
                  f'{ob.get("fired") or ob.get("confired")}): {b}') for b in bad]

    def check_query(self, eng, ops, i, ob, op, prev, cur, env, info):
        vals = []
        for j in (prev, cur):
            if j is None:
                continue
            c = closure(ops, j)
            if c is None:
                continue
            r = eng.exec(dict(kind='world', env=env, ops=[clean(ops[x]) for x in c] + [clean(op)]), memo=True)
            if broke(r) or 'exc' in r['obs'][-1]:
                continue
            vals.append(r['obs'][-1]['v'])
        if prev is None and cur is None:
            return []
        info.probe('query answered after a fault')
        if vals and not any(same(ob['v'], v) for v in vals):
            return [V('query-after-fault-wrong', f'operation {i} ({opsig(op)}) after a fault returned a value '
                      'that belongs to no completed run')]
        if not vals:
            return [V('query-after-fault-wrong', f'operation {i} ({opsig(op)}) returned a value although it fails '
                      'after a completed run')]
        return []


def gds_op(g, s):
    """An export whose file is read back."""
    o = dict(op='gds', s=s, file='out.gds', kw=dict(unit=g.pick(1e-6, 1e-6, 5e-7)))
    if g.flip(.4):
        n = g.r.randint(5, 12)
        o['ras'] = dict(n=[n, g.r.randint(5, 12)], blobs=[[g.num(-.5, .5), g.num(-.5, .5), g.num(.3, .7)]])
        o['kw']['levels'] = g.pick([.5], [.3, .6])
    return o


# ======================================================================= C03
@register
class C03(Check):
    id = 'C03'
    n = dict(quick=450, thorough=5000)
    rule = ('a program counts if at least one control switch happened between two threads that were both inside '
            'library code; distinct by the operations of the lanes and the sequence of switch points')
    stub = Check.stub + ('thread scheduler (exactly one thread runs, switches at library source lines)',)

    def gen(self, g):
        sym = g.flip(.12)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        sp.pop('eff', None)
        if g.flip(.5):
            sp['eff'] = [sp['eps_l']] + [l['eps_b'] for l in sp['layers']] + [sp['eps_u']]
        ops = [dict(op='struct', id='S0', spec=sp)]
        specs = {'S0': sp}
        if g.flip(.5):
            sp2 = g.mutate_struct(sp) if not sym else g.sym_struct()
            ops.append(dict(op='struct', id='S1', spec=sp2))
            specs['S1'] = sp2
        kp = g.kpool(3)
        lanes = []
        tw = None
        exports = g.flip(.08)
        # threads that only read results of engines that are solved already
        hot = not exports and g.flip(.18)
        for t in range(g.pick(2, 2, 2, 3, 3, 4)):
            s = g.pick(*specs)
            if exports and t < 3:
                lanes.append([gds_op(g, s) for _ in range(g.pick(1, 2))])
                continue
            kind = 'gme' if sym or hot and g.flip(.8) else g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'pol')
            e = f'E{t}'
            if tw and g.flip(.6):
                kind = tw[0]
                m = dict(copy.deepcopy(tw[1]), id=e, s=s)
                if 'layer' in m:
                    m['layer'] = 0
                r = g.mutate_run(dict(copy.deepcopy(tw[2]), e=e), kind, kp)
            else:
                m = g.mk(e, s, kind, specs[s])
                if sym:
                    m['args'] = dict(gmax=1.3, truncate_g='abs')
                r = g.run(e, kind, kp, sym=sp['lat'] if sym else None, n=g.pick(1, 1, 2))
            tw = (kind, m, r)
            lane = [m, r]
            if hot:
                ops += lane
                for o in lane:
                    o.get('opts', {}).pop('eig_solver', None)
                qs = [g.query(e, kind, viz=False, run=r) for _ in range(12)]
                best = [q for q in qs if q['q'] in ('ft_field', 'field', 'rad', 'rad_sp')]
                lanes.append((best + [q for q in qs if q not in best])[:g.pick(2, 3, 4)])
                continue
            for _ in range(g.pick(0, 1, 1, 2)):
                c = g.r.random()
                if c < .35:
                    lane.append(g.mutate_run(r, kind, kp))
                    r = lane[-1]
                elif c < .75:
                    lane.append(g.query(e, kind, viz=False, run=r))
                else:
                    q = g.squery(s)
                    if q['q'] != 'viz':
                        lane.append(q)
            if g.flip(.2):
                lane.insert(g.r.randint(1, len(lane)), gds_op(g, s))
            for o in lane:
                if o['op'] == 'run':
                    o.get('opts', {}).pop('eig_solver', None)
            lanes.append(lane)
        pre = not hot and g.flip(.5)          # engines built before the threads start
        if pre:
            for l in lanes:
                if l[0]['op'] == 'mk':
                    ops.append(l.pop(0))
        scale = g.pick(3, 12) if exports else g.pick(2, 4, 10) if hot else g.pick(3, 12, 60, 300, 1500)
        plan = [[1 + int(g.r.expovariate(1. / scale)), g.r.randrange(4)]
                for _ in range(g.pick(150, 400) if hot else g.pick(5, 40, 150))]
        ops.append(dict(op='threads', lanes=lanes, plan=plan))
        return dict(ops=ops, env=dict(RNG, share=g.flip(.4)))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        for j, op in enumerate(ops):
            if op['op'] != 'threads' or 'exc' in r['obs'][j]:
                if op['op'] == 'threads':
                    raise RuntimeError(r['obs'][j])
                continue
            v = r['obs'][j]['v']
            if v['harness']:
                raise RuntimeError(v['harness'])
            info['nontrivial'] |= v['switches'] > 0
            info.fire('thread switch')
            info['fired']['thread switch'] += max(0, v['switches'] - 1)
            info['sig'] += [str([opsig(o) for o in l]) for l in op['lanes']] + [str(v['trace'])]
            info['sites'] += [t[1] for t in v['trace']]
            for n, (lane, obs) in enumerate(zip(op['lanes'], v['lanes'])):
                alone = ops[:j] + lane
                for i, (o, ob) in enumerate(zip(lane, obs)):
                    if 'skip' in ob or o['op'] not in ('run', 'q', 'sq', 'mk', 'gds'):
                        continue
                    if o['op'] == 'q' and o['q'] == 'repr' or (o['op'] == 'q' and o['q'] == 'state'):
                        continue
                    ref = reference(eng, alone, j + i, h['env'])
                    if ref is None or 'cls' in ref:
                        continue
                    info['compared'] += 1
                    d = diff_obs(ob, ref, o)
                    if d and o['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                        d = diff_state(ob['state'], ref['state'], gauge=True)
                    if d:
                        out.append(V('thread-result-differs', f'thread {n} operation {i} ({opsig(o)}): {d}'))
        return out, info


# ======================================================================= C04
@register
class C04(Check):
    id = 'C04'
    n = dict(quick=500, thorough=6000)
    rule = ('a program counts if a sweep of at least two k-points was split, repeated or retried over several runs; '
            'distinct by the runs with their k-points, options and faults')
    stub = Check.stub + ('worker processes (one fork each) and their failures',)

    def gen(self, g):
        sym = g.flip(.22)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        kind = 'gme' if sym else g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'pol')
        m = g.mk('E0', 'S0', kind, sp)
        ks = [[k, None] for k in g.kpool(g.pick(3, 4, 5))]
        proto = g.run('E0', kind, [k for k, _ in ks], sym=sp['lat'] if sym else None)
        if sym:
            m['args'] = dict(gmax=g.pick(1.2, 1.3), truncate_g='abs')
            ks = []
            for _ in range(g.pick(2, 3)):
                kk, an = g.sym_k(sp['lat'], 2)
                ks += [[[kk[0][i], kk[1][i]], an[i]] for i in range(2)]
        if kind == 'gme':
            proto['opts'].pop('gmode_compute', None)
            proto['opts'].pop('gmode_npts', None)
            if [0., 0.] in [k for k, _ in ks]:
                proto['opts'].pop('eig_solver', None)
        if kind == 'pol':
            proto['gme_options'].pop('gmode_compute', None)
            proto['gme_options'].pop('gmode_npts', None)
            proto['gme_options'].pop('compute_im', None)
        if kind == 'gme' and not sym and g.flip(.2):
            proto['opts']['gmode_inds'] = g.high()
            m['args'] = dict(gmax=g.pick(1.2, 1.5), truncate_g='abs')
        # pieces: every k-point at least once, some twice
        idx = list(range(len(ks)))
        g.r.shuffle(idx)
        idx += [g.r.randrange(len(ks)) for _ in range(g.pick(0, 1, 2))]
        pieces, i = [], 0
        while i < len(idx):
            n = g.pick(1, 2, 3, len(idx))
            pieces.append(idx[i:i + n])
            i += n
        if g.flip(.3):
            g.r.shuffle(pieces)
        procs = [[]]
        for p in pieces:
            if procs[-1] and g.flip(.3):
                procs.append([])
            procs[-1].append(p)
        programs = []
        for pr in procs:
            ops = [dict(op='struct', id='S0', spec=sp), m]
            for p in pr:
                r = copy.deepcopy(proto)
                r['k'] = g.karg([ks[i][0] for i in p])
                r.pop('ang', None)
                if sym:
                    r['ang'] = [ks[i][1] for i in p]
                if g.flip(.2):
                    ops.append(dict(copy.deepcopy(r), fault=C02.fault(g)))     # failed, retried
                if g.flip(.15):
                    ops.append(m)                                             # on a new object
                ops.append(r)
            programs.append(ops)
        return dict(sweep=programs, env=RNG)

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        out = []
        npieces = 0
        for w, ops in enumerate(h['sweep']):
            ops = concretise(eng, ops, h['env'])
            h['sweep'][w] = ops
            r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
            if broke(r):
                return [broke(r)], info
            for i, (op, ob) in enumerate(zip(ops, r['obs'])):
                info['sig'].append(opsig(clean(op)) + str(op.get('k')) + str(ob.get('fired')))
                if ob.get('fired'):
                    info.fire(op['fault']['exc'], ob['fired'])
                if op['op'] != 'run' or 'skip' in ob or ob.get('fired'):
                    continue
                npieces += 1
                for n in range(len(op['k'][0])):
                    one = clean(op)
                    one['k'] = [[op['k'][0][n]], [op['k'][1][n]]]
                    if op.get('ang'):
                        one['ang'] = [op['ang'][n]]
                    ref = reference(eng, ops, i, h['env'], override={i: one})
                    if ref is None or 'cls' in ref:
                        continue
                    info['compared'] += 1
                    if 'exc' in ob:
                        # the whole run may fail because another k-point does
                        info.probe('run failed')
                        if 'exc' in ref:
                            break
                        continue
                    if 'exc' in ref:
                        out.append(V('sweep-hides-error', f'k-point {n} of operation {i} alone raises {ref["exc"]}, '
                                     'the sweep does not'))
                        continue
                    info.probe('k-points compared')
                    tol = 1e-6 if op.get('opts', {}).get('eig_solver') == 'eigsh' else 1e-9
                    try:
                        d = diff_state(ob['state'], ref['state'], tol=tol, gauge=True, kmap=[(n, 0)])
                        if d is None and not same(ob['state']['kpoints'][:, [n]], ref['state']['kpoints']):
                            d = 'k-point reported differs'
                        if d is None and op.get('opts', {}).get('eig_solver') != 'eigsh':
                            d = self.shape_check(ob['state'], len(op['k'][0]))
                    except (IndexError, KeyError, TypeError) as e:
                        d = f'results cannot be indexed by k-point: {e!r}'
                    if d:
                        out.append(V('sweep-differs', f'worker {w} operation {i} ({opsig(op)}) k-point {n}: {d}'))
                else:
                    if 'exc' in ob:
                        allok = True
                        for n in range(len(op['k'][0])):
                            one = clean(op)
                            one['k'] = [[op['k'][0][n]], [op['k'][1][n]]]
                            if op.get('ang'):
                                one['ang'] = [op['ang'][n]]
                            ref = reference(eng, ops, i, h['env'], override={i: one})
                            allok &= ref is not None and 'cls' not in ref and 'exc' not in ref
                        if allok:
                            out.append(V('sweep-fails', f'worker {w} operation {i} ({opsig(op)}) raises {ob["exc"]} '
                                         'although every k-point alone succeeds'))
        info['nontrivial'] = npieces >= 2
        return out, info

    @staticmethod
    def shape_check(st, nk):
        names = dict(gme=('freqs', 'freqs_im', 'unbalance_sp', 'kz_symms', 'eigvecs'), pwe=('freqs', 'eigvecs'),
                     exc=('eners', 'eigvecs'), pol=('eners', 'eners_im', 'eigvecs', 'fractions_ex', 'fractions_ph'))
        for n in names[st['kind']]:
            if not empty(st[n]) and len(st[n]) != nk:
                return f'{n} has {len(st[n])} entries for {nk} k-points'
        return None


# ======================================================================= C05
@register
class C05(Check):
    id = 'C05'
    n = dict(quick=550, thorough=6000)
    rule = ('a program counts if at least one loss request was answered after a run without losses; distinct by the '
            'run options and the sequence of requests and faults')

    def gen(self, g):
        sym = g.flip(.15)
        sp = g.sym_struct() if sym else g.struct()
        kp = g.kpool(3)
        m = g.mk('E0', 'S0', 'gme', sp)
        r = g.run('E0', 'gme', kp, sym=sp['lat'] if sym else None, n=g.pick(1, 2, 2, 3))
        if sym:
            m['args'] = dict(gmax=1.3, truncate_g='abs')
        ops = [dict(op='struct', id='S0', spec=sp), m]
        other = g.flip(.25)
        if g.flip(.15):
            ops.append(self.req(g, 'E0', r))
        if g.flip(.3):
            ops.append(g.mutate_run(r, 'gme', kp))
        if other:
            ops.append(dict(m, id='E1'))
        r = copy.deepcopy(r)
        r['opts']['compute_im'] = False if g.flip(.85) else True
        ops.append(r)
        if other:
            ops.append(dict(g.mutate_run(r, 'gme', kp), e='E1'))
        for _ in range(g.r.randint(2, 6)):
            c = g.r.random()
            if c < .62:
                q = self.req(g, 'E0', r)
                if g.flip(.12):
                    q['fault'] = C02.fault(g)
                ops.append(q)
            elif c < .8:
                q = dict(op='q', e='E0', q='im')
                if g.flip(.3):
                    q['fault'] = C02.fault(g)
                ops.append(q)
            elif c < .9:
                ops.append(g.query('E0', 'gme', run=r))
            elif other:
                ops.append(self.req(g, 'E1', r))
        return dict(ops=ops, env=RNG)

    @staticmethod
    def req(g, e, r):
        nk, ne = len(r['k'][0]), r['opts'].get('numeig', 10)
        minds = [g.r.randrange(ne) for _ in range(g.pick(1, 1, 2, 3, 4))]
        if g.flip(.2):
            minds = list(range(ne))[::-1]
        k = g.r.randrange(nk)
        if g.flip(.1):
            minds[g.r.randrange(len(minds))] = ne + g.pick(0, 0, 1, 5)
        if g.flip(.05):
            k = nk + g.pick(0, 1)
        return dict(op='q', e=e, q=g.pick('rad', 'rad_sp', 'rad_nd', 'rad_default'), kind=k, minds=minds, mind=0)

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        runi, before, ok = {}, {}, {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            e = op.get('e')
            info['sig'].append(opsig(clean(op)) + str([op.get('kind'), op.get('minds')]) + str(ob.get('fired')))
            if 'skip' in ob:
                continue
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if op['op'] == 'mk':
                runi.pop(op['id'], None)
                continue
            if op['op'] == 'run':
                runi[e] = i
                ok[e] = 'exc' not in ob
                before[e] = ob.get('state')
                if ok[e]:
                    ref = self.full(eng, ops, i, h['env'])
                    if ref and 'exc' not in ref and 'cls' not in ref:
                        st = dict(ob['state'])
                        for n in ('freqs', 'eigvecs', 'kz_symms', 'kpoints'):
                            if not same(st[n], ref['state'][n]):
                                out.append(V('modes-differ', f'operation {i}: {n} depend on computing the losses'))
                        out += self.im_state(i, op, ob['state'], ref, need=op['opts'].get('compute_im', True))
                continue
            if op['op'] != 'q' or 'state' not in ob:
                continue
            st = ob['state']
            if e not in runi:
                if op['q'] in ('rad', 'rad_sp', 'rad_nd', 'rad_default', 'im') and 'exc' not in ob:
                    out.append(V('no-error', f'operation {i}: losses requested before any run, no error raised'))
                continue
            if not ok[e]:
                continue
            b = before[e]
            for n in ('freqs', 'eigvecs', 'kpoints', 'kz_symms'):
                if not same(st[n], b[n]):
                    out.append(V('modes-changed', f'operation {i} ({opsig(op)}) changed {n}'))
            im = ('freqs_im', 'unbalance_sp', 'rad_coup', 'rad_gvec')
            if op['q'] not in ('im', 'viz_bands'):
                for n in im:
                    if not same(st[n], b[n]):
                        out.append(V('losses-changed', f'operation {i} ({opsig(op)}) changed the stored {n}'))
            ref = self.full(eng, ops, runi[e], h['env'])
            before[e] = st
            if not ref or 'cls' in ref or 'exc' in ref:
                continue
            R = ref['state']
            if op['q'] == 'im':
                if 'exc' in ob and not ob.get('fired'):
                    out.append(V('im-fails', f'operation {i}: run_im raised {ob["exc"]}, the full run does not'))
                out += self.im_state(i, op, st, ref, need='exc' not in ob)
            if op['q'] in ('rad', 'rad_sp', 'rad_nd', 'rad_default'):
                minds = [0] if op['q'] == 'rad_default' else op['minds']
                nk, ne = len(R['freqs']), len(R['freqs'][0])
                valid = op['kind'] < nk and max(minds) < ne
                if not valid:
                    info.probe('invalid request')
                    if 'exc' not in ob:
                        out.append(V('no-error', f'operation {i}: losses of modes {minds} at k index {op["kind"]} requested, '
                                     f'{ne} modes at {nk} k-points stored, no error raised'))
                    continue
                if 'exc' in ob:
                    if not ob.get('fired'):
                        out.append(V('request-fails', f'operation {i} ({opsig(op)}): {ob["exc"]}'))
                    continue
                info['compared'] += 1
                info['nontrivial'] = True
                info.probe('request answered')
                v = ob['v']
                k = op['kind']
                fi, coup, gv = v[0], v[-2], v[-1]
                if not same(_arr(fi), _arr(R['freqs_im'])[k][minds]):
                    out.append(V('losses-differ', f'operation {i} ({opsig(op)}) modes {minds}: {fi} instead of '
                                 f'{_arr(R["freqs_im"])[k][minds]}'))
                for key, lst in R['rad_coup'].items():
                    if not same([_arr(x) for x in coup.get(key, [])], [_arr(lst[k][m]) for m in minds]):
                        out.append(V('couplings-differ', f'operation {i} ({opsig(op)}) modes {minds}: {key}'))
                for key, lst in R['rad_gvec'].items():
                    if not same([_arr(x) for x in gv.get(key, [])], [_arr(lst[k][m]) for m in minds]):
                        out.append(V('orders-differ', f'operation {i} ({opsig(op)}) modes {minds}: {key}'))
                if op['q'] == 'rad_sp':
                    te, tm = _arr(v[1]), _arr(v[2])
                    unb = te / (te + tm + 1e-15)
                    unb[abs(_arr(fi)) < 1e-15] = .5
                    if not same(unb, _arr(R['unbalance_sp'])[k][minds], rt=1e-7, at=1e-7):
                        out.append(V('sp-differ', f'operation {i} ({opsig(op)}) modes {minds}: s/p contributions'))
        return out, info

    @staticmethod
    def full(eng, ops, i, env):
        return reference(eng, ops, i, env, override={i: full_run(clean(ops[i]))})

    @staticmethod
    def im_state(i, op, st, ref, need):
        out = []
        for n in ('freqs_im', 'unbalance_sp', 'rad_coup', 'rad_gvec'):
            if empty(st[n]) and not need:
                continue
            if not same(st[n], ref['state'][n]):
                out.append(V('stored-losses-differ', f'operation {i} ({opsig(op)}): stored {n} differ from the full run'))
        return out


def _arr(x):
    import numpy as np
    return np.array(x)


# ======================================================================= C06
PHASE = ('ft_field', 'field', 'rad', 'rad_sp', 'rad_default', 'viz_field')


@register
class C06(Check):
    id = 'C06'
    n = dict(quick=350, thorough=5000)
    rule = ('a program counts if the backend was switched between two operations whose results were compared; distinct '
            'by the operations and the places of the switches')

    def gen(self, g):
        g.pol_gamma = False
        ops = scenario(g, nops=(3, 6), queries=.4, break_p=.03, drop_p=.06)
        out = []
        for o in ops:
            if g.flip(.45):
                out.append(dict(op='backend', name=g.pick('numpy', 'autograd', 'autograd', 'torch', 'NUMPY', '')))
            out.append(o)
        return dict(ops=out, env=dict(RNG))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        ok_run = {}
        back, switched = None, 0
        pure = [o for o in ops]
        lastrun = {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(op) + str(op.get('name', '')))
            if op['op'] == 'backend':
                good = op['name'] in ('numpy', 'autograd')
                if good and 'exc' in ob:
                    out.append(V('backend-switch-fails', f'operation {i}: {ob["exc"]}'))
                if not good:
                    info.fire('unknown backend requested')
                    if 'exc' not in ob:
                        out.append(V('unknown-backend-accepted', f'operation {i}: {op["name"]!r}'))
                    if ob.get('backend') is not None and back is not None and ob['backend'] != back:
                        out.append(V('unknown-backend-changes', f'operation {i}: backend {back} became {ob["backend"]}'))
                else:
                    back = ob.get('backend')
                    info.fire('switch to ' + op['name'])
                switched += 1
                continue
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
                lastrun[op['e']] = (i, ob)
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            if op['op'] not in ('run', 'q', 'sq', 'mk') or 'skip' in ob:
                continue
            if op['op'] == 'q' and (not ok_run.get(op['e']) or op['q'] in ('repr', 'state')):
                continue
            ref = reference(eng, ops, i, h['env'])
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            info['nontrivial'] |= switched > 0
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                tol = 1e-6 if op.get('opts', {}).get('eig_solver') == 'eigsh' else 1e-9
                d = diff_state(ob['state'], ref['state'], gauge=True, tol=tol)
            if d and op['op'] == 'q' and op['q'] in PHASE and 'exc' not in ob and 'exc' not in ref and 'state' in ref:
                if not same(ob['state']['eigvecs'], ref['state']['eigvecs']):
                    info.probe('phase-dependent query not comparable')
                    d = None
            if d:
                out.append(V('backend-changes-result', f'operation {i} ({opsig(op)}): {d}'))
        return out, info


# ======================================================================= C07
@register
class C07(Check):
    id = 'C07'
    n = dict(quick=650, thorough=5000)
    rule = ('a program counts if the library read a clock that stood still, jumped or was coarse during an operation '
            'whose result was compared; distinct by the operations, clock modes, print backends and verbosity')

    def gen(self, g):
        from .seams import Clock
        modes = [m for m in Clock.MODES if m != 'steady']
        c = g.r.random()
        if c < .12:
            from .optim import gen_opt
            h = gen_opt(g)
            return dict(opt=h, clock=g.pick(*modes))
        if c < .17:
            from .gdsim import gen_gds
            return dict(gds=gen_gds(g, faults=False), clock=g.pick(*modes))
        ops = scenario(g, nops=(2, 4), queries=.25, break_p=.02, drop_p=.05)
        out = []
        mode = None
        for o in ops:
            if g.flip(.15):
                out.append(dict(op='print', name=g.pick('rich', 'base')))
            o = copy.deepcopy(o)
            if o['op'] == 'run':
                o['clock'] = g.pick(*modes)
                if g.flip(.6):
                    C02.verbose(o)
            out.append(o)
        return dict(ops=out, env=dict(RNG, clock=g.pick('steady', *modes)))

    def evaluate(self, h, eng):
        info = Info()
        if 'ops' not in h:
            return self.other(h, eng, info)
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        quiet = [quieten(o) for o in ops]
        ok_run = {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(op))
            if op.get('clock'):
                info.fire('clock ' + op['clock'])
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
            if op['op'] not in ('run', 'q', 'mk') or 'skip' in ob:
                continue
            if op['op'] == 'q' and not ok_run.get(op['e']) or op.get('q') == 'repr':
                continue
            ref = reference(eng, quiet, i, dict(RNG))
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            info['nontrivial'] = True
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True)
            if d:
                out.append(V('clock-changes-outcome', f'operation {i} ({opsig(op)}): {d}'))
        return out, info

    def other(self, h, eng, info):
        if 'opt' in h:
            kind, prog = 'opt', h['opt']
        else:
            kind, prog = 'gds', h['gds']
        a = eng.exec(dict(prog, kind=kind, env=dict(prog.get('env', {}), clock=h['clock'])))
        b = eng.exec(dict(prog, kind=kind, env=dict(prog.get('env', {}), clock='steady')), memo=True)
        if broke(a):
            return [broke(a)], info
        info.fire(f'clock {h["clock"]} ({kind})')
        info['nontrivial'] = True
        info['compared'] += 1
        info['sig'] = [str(prog), h['clock']]
        if not same(a['result'], b['result']):
            return [V('clock-changes-outcome', f'{kind}: {first_diff(a["result"], b["result"])}')], info
        return [], info


def first_diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f'{path}/{k} in one only'
            if not same(a[k], b[k]):
                return first_diff(a[k], b[k], f'{path}/{k}')
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} entries instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, f'{path}[{i}]')
    return f'{path}: {str(a)[:200]} instead of {str(b)[:200]}'


def quieten(op):
    """The same operation without console output, on a good clock."""
    op = clean(copy.deepcopy(op))
    for k in ('opts', 'gme_options'):
        if 'verbose' in op.get(k, {}):
            op[k]['verbose'] = False
    for k in ('opts', 'exc_options'):
        if 'verbose_ex' in op.get(k, {}):
            op[k]['verbose_ex'] = False
    return op


# ======================================================================= C08
@register
class C08(Check):
    id = 'C08'
    n = dict(quick=520, thorough=6000)
    rule = ('a program counts if a run was executed with a failing console, or with output the reference does not '
            'have; distinct by the operations, console faults, print backends and verbosity')

    def gen(self, g):
        ops = scenario(g, nops=(3, 6), queries=.1, break_p=.02, drop_p=.05, viz=False)
        out = []
        for o in ops:
            if g.flip(.2):
                out.append(dict(op='print', name=g.pick('rich', 'base', 'base', 'nonsense')))
            o = copy.deepcopy(o)
            if o['op'] == 'run':
                c = g.r.random()
                if c < .55:
                    C02.verbose(o)
                if g.flip(.6):
                    o['console'] = dict(mode=g.pick('broken', 'fail_at', 'fail_at', 'flush', 'closed', 'ascii',
                                                    'once', 'once', 'once_flush', 'noenc', 'bare', 'tty', 'void'),
                                        at=g.r.randrange(g.pick(3, 12)))
            elif o['op'] == 'q' and o['q'] in ('im', 'rad', 'rad_sp') and g.flip(.3):
                o['console'] = dict(mode=g.pick('broken', 'closed'))
            out.append(o)
        return dict(ops=out, env=dict(RNG, print=g.pick('rich', 'base')))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        quiet = [quieten(o) for o in ops]
        ok_run, talk = {}, {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(op) + str(op.get('opts', {}).get('verbose')))
            if op['op'] == 'print' and op['name'] == 'nonsense' and 'exc' not in ob:
                out.append(V('unknown-print-backend-accepted', f'operation {i}'))
            if op['op'] not in ('run', 'q') or 'skip' in ob:
                continue
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
                talk[op['e']] = verbose(op)
            elif not ok_run.get(op['e']):
                continue
            v = talk[op['e']]
            info['nontrivial'] |= 'console' in op or v
            if ob.get('confired'):
                info.fire('console-' + op['console']['mode'])
            info.probe(('verbose' if v else 'quiet') + (' run, failing console' if 'console' in op else ' run'))
            if not v and ob['bytes']:
                out.append(V('quiet-run-writes', f'operation {i} ({opsig(op)}) wrote {ob["bytes"]} characters: '
                             f'{ob.get("context", "")[:100]!r}'))
            ref = reference(eng, quiet, i, dict(RNG))
            if ref is None or 'cls' in ref:
                continue
            if op.get('q') == 'repr':
                continue
            info['compared'] += 1
            if ob.get('confired') and 'exc' in ob:
                if not v and 'exc' not in ref:
                    out.append(V('quiet-run-fails', f'operation {i} ({opsig(op)}): raised {ob["exc"]} although nothing is '
                                 'to be printed'))
                if not console_error(ob['exc']) and 'exc' not in ref:
                    out.append(V('wrong-error', f'operation {i} ({opsig(op)}): raised {ob["exc"]}'))
                if op['op'] == 'run' and 'exc' not in ref:
                    x = exposed_matches(ob['state'], reference(eng, quiet, i, dict(RNG), override={i: full_run(quiet[i])})['state'])
                    if x:
                        out.append(V('wrong-after-console-error', f'operation {i} ({opsig(op)}): {x}'))
                continue
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True)
            if d:
                out.append(V('console-changes-outcome', f'operation {i} ({opsig(op)}, console fired '
                             f'{ob.get("confired")}): {d}'))
        return out, info


def verbose(op):
    return bool(op.get('opts', {}).get('verbose') or op.get('opts', {}).get('verbose_ex') or
                op.get('gme_options', {}).get('verbose') or op.get('exc_options', {}).get('verbose_ex'))


def console_error(exc):
    return exc[0] in ('ConsoleError', 'UnicodeEncodeError') or 'closed file' in exc[1] or 'simulated' in exc[1]


# ======================================================================= C14
@register
class C14(Check):
    id = 'C14'
    n = dict(quick=400, thorough=5000)
    rule = ('a program counts if a run or gradient was executed under a random state other than that of the reference; '
            'distinct by the operations and seeds')

    def gen(self, g):
        if g.flip(.12):
            from .grads import gen_grad
            gr = gen_grad(g, solver='eigsh' if g.flip(.6) else None, modes=('vg', 'vg', 'twice', 'min', 'fmap', 'plain'))
            if gr['of'].get('solver') and g.flip(.6):
                gr['of']['args']['gmax'] = g.pick(2.1, 2.6, 3.1)
            ops = []
            for _ in range(g.pick(1, 2)):
                ops.append(dict(op='rng', seed=g.r.randrange(10 ** 6), burn=g.r.randrange(5)))
                ops.append(gr)
            return dict(ops=ops, env={})
        g.pol_gamma = False
        ops = scenario(g, nops=(3, 5), queries=.2, break_p=0., drop_p=0., viz=False)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] in ('run', 'mk', 'struct', 'q') and g.flip(.7):
                out.append(dict(op='rng', seed=g.r.randrange(10 ** 6), burn=g.r.randrange(5)))
            if o['op'] == 'run' and not o.get('ang') and 'gmode_inds' in o.get('opts', {}) and g.flip(.4) \
                    and 0. not in o['k'][0]:
                o['opts'].update(eig_solver='eigsh', eig_sigma=g.pick(.13, .21), numeig=g.pick(2, 3))
            out.append(o)
            if o['op'] == 'run' and g.flip(.3):
                out.append(copy.deepcopy(o))
        return dict(ops=out, env={})

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=dict(h['env'], rng=99)))
        if broke(r):
            return [broke(r)], info
        out = []
        ok_run, iterative = {}, {}
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(op) + str(op.get('seed', '')))
            if op['op'] == 'rng':
                info.fire('generator state changed')
            if op['op'] == 'grad':
                ref = eng.exec(dict(kind='world', ops=[op], env=dict(rng=1)), memo=True)['obs'][0]
                info['compared'] += 1
                info['nontrivial'] = True
                it = op['of'].get('solver') == 'eigsh'
                d = diff_grad(ob, ref, 1e-3 if it else 1e-7)
                if d:
                    out.append(V('rng-changes-gradient', f'operation {i}: {d}'))
                continue
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
                iterative[op['e']] = op.get('opts', {}).get('eig_solver') == 'eigsh'
            if op['op'] not in ('run', 'q', 'mk') or 'skip' in ob:
                continue
            if op['op'] == 'q' and (not ok_run.get(op['e']) or iterative[op['e']] or op['q'] == 'repr'):
                continue
            ref = reference(eng, ops, i, dict(rng=1))
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            info['nontrivial'] = True
            if op['op'] == 'run' and iterative[op['e']]:
                info.probe('iterative solver compared')
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True, tol=1e-6 if iterative[op['e']] else 1e-9)
            if d:
                out.append(V('rng-changes-result', f'operation {i} ({opsig(op)}): {d}'))
        return out, info


def diff_grad(a, b, tol, names=None):
    if ('exc' in a) != ('exc' in b):
        return f'{_short(a)} instead of {_short(b)}'
    if 'exc' in a:
        return None if a['exc'][0] == b['exc'][0] else f"raised {a['exc']} instead of {b['exc']}"
    import numpy as np
    for n in names or a['v']:
        if n in ('box', 'note'):
            continue
        x, y = np.asarray(a['v'][n]), np.asarray(b['v'][n])
        if x.shape != y.shape:
            return f'{n}: shape {x.shape} instead of {y.shape}'
        nan = np.isnan(x) & np.isnan(y)
        x, y = np.where(nan, 0., x), np.where(nan, 0., y)
        if not np.all(np.abs(x - y) <= tol * (1e-3 + np.max(np.abs(y), initial=0.))):
            return f'{n}: {x} instead of {y}'
    return None


# ======================================================================= C15
@register
class C15(Check):
    id = 'C15'
    n = dict(quick=500, thorough=6000)
    rule = ('a program counts if arguments of at least one run, query, export or optimization were compared before and '
            'after; distinct by the operations, options and faults')

    def gen(self, g):
        from .ctor import gen_ctor
        c = g.r.random()
        if c < .1:
            from .gdsim import gen_gds
            return dict(gds=gen_gds(g, faults=g.flip()))
        if c < .15:
            from .grads import gen_grad
            return dict(ops=[gen_grad(g), gen_grad(g)], env=dict(RNG, watch_args=True))
        ops = scenario(g, nops=(2, 5), queries=.6, break_p=.1, drop_p=.05)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] in ('run', 'q', 'mk') and g.flip(.12):
                o['fault'] = C02.fault(g)
            if o['op'] == 'run' and 'gmode_inds' in o.get('opts', {}) and g.flip(.3):
                gm = g.pick(o['opts']['gmode_inds'], [1, 0], [2, 0, 1], [1, 0, 3])
                o['opts']['gmode_inds'] = {'__nd__': gm} if g.flip(.7) else gm
            if g.flip(.08):
                out.append(dict(op='backend', name=g.pick('numpy', 'autograd')))
            if g.flip(.25):
                out.append(gen_ctor(g))
            out.append(o)
        return dict(ops=out, env=dict(RNG, watch_args=True))

    def evaluate(self, h, eng):
        info = Info()
        if 'gds' in h:
            a = eng.exec(dict(h['gds'], kind='gds', env={}))
            if broke(a):
                return [broke(a)], info
            info['sig'] = [str(h['gds'])]
            info['nontrivial'] = True
            info['compared'] += 1
            return [V('argument-modified', f'gds export: {x}') for x in a['argmut'][:3]], info
        from .sites import concretise
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        for op, ob in zip(ops, r['obs']):
            info['sig'].append(opsig(clean(op)) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            info.probe('raised' if 'exc' in ob else 'returned')
        info['compared'] += r['stats'].get('args compared', 0)
        info['nontrivial'] = r['stats'].get('args compared', 0) > 0
        return [V('argument-modified', f'operation {i} ({opsig(ops[i])}) modified {l}') for i, l in r['argmut'][:4]], info


# ======================================================================= C16
def interleave(g, spec):
    """Random order of independent building steps; layers stay in order."""
    nl = len(spec['layers'])
    seqs = []
    for i, l in enumerate(spec['layers']):
        idx = list(range(len(l['shapes'])))
        g.r.shuffle(idx)
        while idx:
            n = g.pick(1, 1, 2)
            seqs.append((i, ['shapes', i, idx[:n]]))
            idx = idx[n:]
    for c, lst in spec.get('clad', {}).items():
        idx = list(range(len(lst)))
        g.r.shuffle(idx)
        seqs += [(-1, ['clad', c, [j]]) for j in idx]
    qi = list(range(len(spec['qws'])))
    g.r.shuffle(qi)
    g.r.shuffle(seqs)
    steps = []
    avail = []
    for i in range(nl):
        steps.append(['layer', i])
        k = [s for s in seqs if s[0] <= i and g.flip(.5)]
        for s in k:
            steps.append(s[1])
            seqs.remove(s)
    steps += [s[1] for s in seqs]
    # quantum wells once the layers are there: anywhere after the last layer
    last = max(j for j, s in enumerate(steps) if s[0] == 'layer')
    for q in qi:
        steps.insert(g.r.randint(last + 1, len(steps)), ['qw', q])
    return steps


def canonical_steps(spec):
    st = []
    for i, l in enumerate(spec['layers']):
        st.append(['layer', i])
        st += [['shapes', i, [j]] for j in range(len(l['shapes']))]
    for c, lst in sorted(spec.get('clad', {}).items()):
        st += [['clad', c, [j]] for j in range(len(lst))]
    return st + [['qw', j] for j in range(len(spec['qws']))]


@register
class C16(Check):
    id = 'C16'
    n = dict(quick=500, thorough=5000)
    rule = ('a program counts if its building steps or constructions are in another order than the reference; distinct '
            'by the steps and the operations')
    real = Check.real

    def gen(self, g):
        g.pol_gamma = False
        sp = g.struct(qw=True, generic=True, nl=g.pick(1, 2, 2, 3))
        pos = [(-.27, -.24), (.26, .22), (-.2, .27), (.24, -.25)]
        for l in sp['layers']:
            n = g.pick(1, 2, 2, 3, 4)
            l['shapes'] = []
            for j in range(n):
                s = g.shape(small=True, kinds=['circle', 'circle', 'square', 'poly', 'hexagon', 'ellipse'])
                if j and g.flip(.35):
                    s = copy.deepcopy(l['shapes'][-1])      # the same shape somewhere else
                    if s['t'] == 'poly' or 'x' not in s:
                        G.shift(s, [-p for p in pos[j - 1]])
                elif j and g.flip(.15):
                    s['eps'] = l['eps_b']
                if s['t'] != 'poly':
                    s['x'], s['y'] = 0., 0.
                G.shift(s, pos[j])
                l['shapes'].append(s)
        if g.flip(.3):
            sp['clad'] = {'u': [g.shape(small=True), ]}
        qz = []
        sp['qws'] = [g.qw1(sp, i) for i in range(g.pick(1, 2, 2))]
        for q in sp['qws']:
            if g.flip(.8):
                q['V'] = .08
        if g.flip(.3):
            # another well of the same kind, or in the same plane
            q = dict(sp['qws'][0])
            q.update(g.pick(dict(E0=q['E0'] + .013), dict(E0=q['E0'] + .013), dict(z=round(q['z'] * .8, 4)), {}))
            sp['qws'].append(q)
        kp = g.kpool(3)
        kinds = [g.pick('gme', 'gme', 'pwe', 'exc', 'pol', 'pol') for _ in range(g.pick(1, 2))]
        eng = []
        for i, k in enumerate(kinds):
            m = g.mk(f'E{i}', 'S0', k, sp)
            r = g.run(f'E{i}', k, kp, n=g.pick(1, 2))
            r.get('opts', {}).pop('eig_solver', None)
            eng.append((m, r))
        ms = [m for m, _ in eng]
        g.r.shuffle(ms)
        rs = [r for _, r in eng]
        g.r.shuffle(rs)
        ops = [dict(op='build', id='S0', spec=sp, steps=interleave(g, sp))]
        if g.flip(.3):
            # another crystal built in between
            ops.insert(g.pick(0, 1), dict(op='struct', id='S9', spec=g.mutate_struct(sp)))
        ops += ms + rs
        ops += [dict(op='sq', s='S0', q=q) for q in ('ft', 'bounds', 'eps', 'avg')]
        return dict(ops=ops, env=dict(RNG))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        canon = []
        for o in ops:
            if o['op'] == 'build':
                cs = canonical_steps(o['spec'])
                info['nontrivial'] |= cs != o['steps']
                if sorted(map(str, flat(cs))) != sorted(map(str, flat(o['steps']))):
                    return [], info          # a shrunk, different crystal
                o = dict(o, steps=cs)
            canon.append(o)
            info['sig'].append(opsig(o) + str(o.get('steps', '')))
        info['sig'].append(str([o.get('steps') for o in ops]))
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            if op['op'] not in ('run', 'sq', 'build', 'mk') or 'skip' in ob:
                continue
            if op['op'] == 'build':
                if 'exc' in ob:
                    out.append(V('order-changes-outcome', f'building raised {ob["exc"]}'))
                continue
            c = [dict(o, op='struct') if o['op'] == 'build' else o for o in canon]
            cl = closure(c, i)
            if cl is None:
                continue
            ref = eng.exec(dict(kind='world', env=h['env'], ops=[canon[j] for j in cl]), memo=True)
            if broke(ref):
                continue
            ref = ref['obs'][-1]
            info['compared'] += 1
            d = diff_obs(ob, ref, op, states=False)
            if not d and op['op'] == 'run' and 'exc' not in ob:
                a, b = dict(ob['state']), dict(ref['state'])
                a.pop('sub', None), b.pop('sub', None)
                # root finding amplifies the rounding of the permittivities
                d = diff_state(a, b, gauge=True, tol=1e-6)
                info.probe('results compared: ' + a['kind'])
            if d:
                out.append(V('order-changes-outcome', f'operation {i} ({opsig(op)}): {d}'))
        return out, info


def flat(steps):
    out = []
    for s in steps:
        if s[0] in ('shapes', 'clad'):
            out += [[s[0], s[1], j] for j in s[2]]
        else:
            out.append(s)
    return out


# ======================================================================= C17
@register
class C17(Check):
    id = 'C17'
    n = dict(quick=170, thorough=5000)
    rule = ('a program counts if it makes a query after a run, with the complete state of all objects compared before '
            'and after; distinct by the operations and faults')

    def gen(self, g):
        ops = scenario(g, nops=(1, 3), queries=.85, break_p=.03, drop_p=.03)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] in ('q', 'sq'):
                if o['op'] == 'q' and g.flip(.25):
                    o['q'] = g.pick('viz_bands', 'viz_field', 'viz_eps', 'viz_recip') if 'field' in o else o['q']
                    if o['q'].startswith('viz'):
                        o.update(val='abs', comp='x', Q=g.flip(.4), ku=g.flip())
                if g.flip(.1):
                    o['fault'] = C02.fault(g)
                out.append(o)
                if g.flip(.3):
                    out.append(clean(copy.deepcopy(o)))
            else:
                out.append(o)
        return dict(ops=out, env=dict(RNG, snap_all=True))

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        prev = None
        ok_run = {}
        env = dict(RNG)
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(opsig(clean(op)) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if op['op'] in ('q', 'sq') and 'skip' not in ob:
                info['nontrivial'] = True
                info.probe('query raised' if 'exc' in ob else 'query answered')
                if not same(ob['structs'], prev['structs']):
                    out.append(V('query-changes-structure', f'operation {i} ({opsig(op)}): '
                                 f'{first_diff(ob["structs"], prev["structs"])}'))
                for e in prev['all']:
                    a, b = ob['all'][e], prev['all'][e]
                    if op['op'] == 'q' and op['e'] == e and op['q'] in ('im', 'viz_bands'):
                        drop = ('freqs_im', 'unbalance_sp', 'rad_coup', 'rad_gvec')
                        if all(empty(b.get(n)) for n in drop):
                            a = {k: v for k, v in a.items() if k not in drop}
                            b = {k: v for k, v in b.items() if k not in drop}
                    info['compared'] += 1
                    if not same(a, b):
                        out.append(V('query-changes-results', f'operation {i} ({opsig(op)}) changed {e}: '
                                     f'{first_diff(a, b)}'))
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            prev = ob
            if op['op'] not in ('run', 'q', 'sq') or 'skip' in ob or ob.get('fired'):
                continue
            if op['op'] == 'q' and not ok_run.get(op['e']):
                continue
            ref = reference(eng, ops, i, env)
            if ref is None or 'cls' in ref:
                continue
            info['compared'] += 1
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True)
            if d:
                out.append(V('query-changes-later-answers', f'operation {i} ({opsig(op)}): {d}'))
        return out, info


# ======================================================================= C19
@register
class C19(Check):
    id = 'C19'
    n = dict(quick=550, thorough=6000)
    rule = ('a program counts if results obtained from an object were still held while it was used again; distinct by '
            'the operations, options and faults')

    def gen(self, g):
        c = g.r.random()
        if c < .15:
            from .optim import gen_opt
            return dict(opt=gen_opt(g))
        ops = scenario(g, nops=(3, 6), queries=.6, break_p=.08, drop_p=.12)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] in ('run', 'q') and g.flip(.1):
                o['fault'] = C02.fault(g)
            if g.flip(.06):
                out.append(dict(op='backend', name=g.pick('numpy', 'autograd')))
            out.append(o)
        return dict(ops=out, env=dict(RNG, keep_results=True))

    def evaluate(self, h, eng):
        info = Info()
        if 'opt' in h:
            a = eng.exec(dict(h['opt'], kind='opt', env={}))
            if broke(a):
                return [broke(a)], info
            info['sig'] = [str(h['opt'])]
            info['nontrivial'] = True
            info['compared'] += a['nkept']
            return [V('result-altered', f'optimizer: {x}') for x in a['altered'][:3]], info
        from .sites import concretise
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        for op, ob in zip(ops, r['obs']):
            info['sig'].append(opsig(clean(op)) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
        info['compared'] += r['nkept']
        info['nontrivial'] = sum(o['op'] in ('run', 'q') for o in ops) >= 2 and r['nkept'] > 0
        return [V('result-altered', f'{l} obtained at operation {i} ({opsig(ops[i]) if i >= 0 else ""}) was altered later')
                for i, l in r['altered'][:4]], info
