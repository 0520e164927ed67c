"""Checkpoints and restarts; state that accumulates."""
import copy
from .checks import Check, register, Info, V, broke, clean, diff_obs, opsig, RNG, C02
from .compare import same, diff_state


# ======================================================================= C20
class Node:
    """A crystal: its specification and what was done to it since."""

    def __init__(self, op):
        self.op, self.hist = op, []

    def prog(self, hist=None):
        return [dict(self.op, id='S')] + [dict(o, s='S') for o in (self.hist if hist is None else hist)]


class Sim:
    """A simulation object: crystal, constructor, last run (with what had been
    done to the crystal by then), state as last seen. dead: the crystal has
    been built further since it was made (at: what had been done to it by then);
    used: something was asked of it already."""

    def __init__(self, node, mk):
        self.node, self.mk, self.run, self.hist, self.state = node, mk, None, None, None
        self.dead = self.used = False
        self.at = len(node.hist)


@register
class C20(Check):
    id = 'C20'
    n = dict(quick=260, thorough=8000)
    rule = ('a program counts if an object was restored from a checkpoint (or copied) and used afterwards; distinct by the '
            'operations, options and the places of checkpoints, restarts and faults')
    stub = Check.stub + ('processes (the program goes on in a new process that holds nothing but the checkpoints)',
                         'storage of the checkpoints')

    def gen(self, g):
        sym = g.flip(.1)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        if sym:
            sp['qws'] = []
        ops = [dict(op='struct', id='S0', spec=sp)]
        specs = {'S0': sp}
        if g.flip(.4) and not sym:
            specs['S1'] = g.mutate_struct(sp)
            ops.append(dict(op='struct', id='S1', spec=specs['S1']))
        kp = g.kpool(3)
        eng, last = {}, {}
        nslot, ncopy = 0, 0
        saved = []
        for _ in range(g.r.randint(5, 9)):
            c = g.r.random()
            if not eng or (len(eng) < 3 and c < .15):
                e = f'E{len(eng)}x{len(ops)}'
                k = 'gme' if sym else g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'pol')
                s = g.pick(*specs)
                m = g.mk(e, s, k, specs[s])
                if sym:
                    m['args'] = dict(gmax=1.3, truncate_g='abs')
                ops.append(m)
                eng[e] = (k, s)
                if not sym and g.flip(.4 if k == 'exc' else .08):
                    # the crystal is built further before the engine is copied and solved
                    self.grow(g, ops, specs, eng, last, kp, s)
                    ncopy += 1
                    e2 = f'{e}c{ncopy}'
                    ops.append(dict(op='clone', what=[e], suffix=f'c{ncopy}', how=g.pick('deepcopy', 'pickle')))
                    eng[e2] = (k, s + f'c{ncopy}')
                    last[e] = g.run(e, k, kp)
                    last[e2] = dict(copy.deepcopy(last[e]), e=e2)
                    ops += [copy.deepcopy(last[x]) for x in g.pick([e, e2], [e2, e], [e2])]
                elif g.flip(.7):
                    c = .5
            e = g.pick(*eng)
            k, s = eng[e]
            if c < .25:
                what = g.pick('all', 'all', [e], [s] if s in specs else 'all')
                o = dict(op='save', slot=f'P{nslot}', what=what, proto=g.pick(2, 4, 5))
                if g.flip(.15):
                    o['fail_at'] = g.r.randrange(4)
                else:
                    saved.append((o['slot'], what))
                    nslot += 1
                ops.append(o)
            elif c < .38 and saved:
                slot, what = g.pick(*saved)
                ops.append(dict(op='crash', backend=g.pick('numpy', 'numpy', 'autograd')))
                ops.append(dict(op='load', slot=slot, suffix=''))
                # the objects that exist now are known only by execution: the
                # interpreter below skips what was not restored
                if isinstance(what, list) and g.flip(.6):
                    e = what[0] if what[0] in eng else e
                    k, s = eng[e]
                if g.flip(.4):
                    ops.append(g.query(e, k, viz=False, run=last.get(e)))
                if e in last:
                    ops.append(g.mutate_run(last[e], k, kp) if g.flip(.6) else copy.deepcopy(last[e]))
                    last[e] = ops[-1]
            elif c < .46:
                ncopy += 1
                ops.append(dict(op='clone', what=g.pick([e], 'all'), suffix=f'c{ncopy}', how=g.pick('deepcopy', 'pickle')))
                e2 = f'{e}c{ncopy}'
                eng[e2] = (k, s + f'c{ncopy}')
                if ops[-1]['what'] == 'all':
                    for t in list(specs):
                        specs[t + f'c{ncopy}'] = copy.deepcopy(specs[t])
                    if g.flip(.5) and not sym:
                        self.grow(g, ops, specs, eng, last, kp, g.pick(s, s + f'c{ncopy}') if s in specs else g.pick(*specs))
                if e in last:
                    last[e2] = dict(copy.deepcopy(last[e]), e=e2)
                    ops.append(g.mutate_run(last[e2], k, kp))
                    last[e2] = ops[-1]
                    if g.flip(.5):
                        ops.append(g.query(e, k, viz=False, run=last.get(e)))
            elif c < .52 and specs.get(s, {}).get('eff') and k == 'gme':
                sp_ = specs[s]
                cl = [t for t in specs if t != s and t.startswith(s)]
                ops.append(dict(op='eff', s=g.pick(s, *cl), eff=[sp_['eps_l']] + [round(l['eps_b'] * g.pick(.8, .9, 1.), 4)
                                                                    for l in sp_['layers']] + [sp_['eps_u']]))
            elif c < .56 and not sym:
                self.grow(g, ops, specs, eng, last, kp, g.pick(*specs))
            elif c < .6:
                ops.append(g.squery(g.pick(*specs)))
                if ops[-1]['q'] == 'viz':
                    ops[-1]['q'] = 'ft'
            elif c < .8 or e not in last:
                if e in last and g.flip(.6):
                    r = g.mutate_run(last[e], k, kp)
                else:
                    r = g.run(e, k, kp, sym=sp['lat'] if sym else None)
                if k == 'gme' and g.flip(.2):
                    r['opts']['eps_eff'] = 'custom'
                last[e] = copy.deepcopy(r)
                if g.flip(.12):
                    r['fault'] = C02.fault(g)
                ops.append(r)
            else:
                ops.append(g.query(e, k, viz=False, run=last.get(e)))
        if not saved:
            ops.append(dict(op='save', slot='P0', what='all', proto=4))
            saved.append(('P0', 'all'))
        if not any(o['op'] == 'load' for o in ops):
            e = g.pick(*eng)
            ops.append(dict(op='crash', backend='numpy'))
            ops.append(dict(op='load', slot=g.pick(*saved)[0], suffix=''))
            if g.flip(.5):
                ops.append(g.query(e, eng[e][0], viz=False, run=last.get(e)))
            r = copy.deepcopy(last.get(e)) or g.run(e, eng[e][0], kp, sym=sp['lat'] if sym else None)
            ops.append(r)
            ops.append(g.query(e, eng[e][0], viz=False, run=r))
        return dict(ops=ops, env=dict(RNG, snap_all=True))

    @staticmethod
    def grow(g, ops, specs, eng, last, kp, s):
        """Build a crystal further, then simulate it and what it was copied
        from."""
        sp = specs[s]
        c = g.r.random()
        poly = any(s['t'] not in ('circle', 'ellipse') for l in sp['layers'] for s in l['shapes'])
        if poly and g.flip(.4):
            o = dict(step='rotate', j=g.r.randrange(6), angle=g.pick(.3, .5, -.7))
        elif c < .5:
            i = g.r.randrange(len(sp['layers']))
            o = dict(step='shape', layer=i, shape=g.shape(small=True))
            sp['layers'][i]['shapes'].append(o['shape'])
        elif c < .65:
            o = dict(step='clad', clad=g.pick('l', 'u'), shape=g.shape(small=True))
        elif c < .8 and not sp.get('qws'):
            o = dict(step='layer', layer=g.layer(0))
            sp['layers'].append(copy.deepcopy(o['layer']))
        else:
            o = dict(step='qw', qw=g.qw1(sp))
            sp.setdefault('qws', []).append(o['qw'])
        ops.append(dict(o, op='grow', s=s))
        for t in [s] + [t for t in specs if t != s and (t.startswith(s) or s.startswith(t))][:2]:
            if g.flip(.7):
                e = f'G{len(ops)}'
                k = g.pick('gme', 'gme', 'pwe', 'pol' if specs[t].get('qws') else 'exc')
                ops.append(g.mk(e, t, k, specs[t]))
                eng[e] = (k, t)
                ops.append(g.run(e, k, kp))
                last[e] = copy.deepcopy(ops[-1])

    # ------------------------------------------------------------ execution
    def execute(self, eng, ops, env):
        """The program over its processes; observations in order, or the
        failure of a process."""
        from .sites import abstract  # noqa: F401
        obs, store = [], {}
        seg = []
        k = 0
        while k <= len(ops):
            if k == len(ops) or ops[k]['op'] == 'crash':
                if seg:
                    r = eng.exec(dict(kind='world', ops=[ops[j] for j in seg], env=env, store=store))
                    if broke(r):
                        return r
                    obs += r['obs']
                    store = r.get('store', {})
                seg = []
                if k < len(ops):
                    # the new process
                    obs.append(dict(ok=True, v=None))
                    if ops[k]['backend'] != 'numpy':
                        env = dict(env, backend=ops[k]['backend'])
                    else:
                        env = {a: b for a, b in env.items() if a != 'backend'}
            else:
                seg.append(k)
            k += 1
        return dict(obs=obs)

    def place_faults(self, eng, ops, env):
        """Faults at events of the operation as it runs alone after what it
        depends on."""
        from .sites import place
        from .checks import reference  # noqa: F401
        ops = list(ops)
        for i, op in enumerate(ops):
            f = op.get('fault')
            if not f or 'u' not in f:
                continue
            base = clean(op)
            mk = [o for o in ops[:i] if o['op'] == 'mk' and o['id'] == op['e'].split('c')[0]]
            st = [o for o in ops[:i] if o['op'] == 'struct' and mk and o['id'] == mk[-1]['s']]
            if not mk or not st:
                ops[i] = base
                continue
            p = eng.exec(dict(kind='world', env=RNG, ops=[st[-1], mk[-1], dict(base, e=mk[-1]['id'])]), profile=2)
            if broke(p) or 'profile' not in p['obs'][-1]:
                ops[i] = base
                continue
            c = place(p['obs'][-1]['profile'], f)
            ops[i] = dict(base, fault=c) if c else base
        return ops

    def ref(self, eng, s, op):
        """The same operation in a fresh process with fresh objects."""
        run = op if op['op'] == 'run' else s.run
        prog = s.node.prog(None if op['op'] == 'run' else s.hist)
        prog.append(dict(s.mk, id='E', s='S'))
        if run is not None:
            prog.append(dict(clean(run), e='E'))
        if op['op'] == 'q':
            prog.append(dict(clean(op), e='E'))
        r = eng.exec(dict(kind='world', env=RNG, ops=prog), memo=True)
        return None if broke(r) else r['obs'][-1]

    def evaluate(self, h, eng):
        info = Info()
        ops = self.place_faults(eng, h['ops'], h['env'])
        h['concrete'] = ops
        r = self.execute(eng, ops, h['env'])
        if broke(r):
            return [broke(r)], info
        out = []
        S, E, slots, seen = {}, {}, {}, {}
        restored = False
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            o = op['op']
            w = f'operation {i} ({csig(op)}): '
            info['sig'].append(csig(op) + str(ob.get('fired')))
            if 'skip' in ob:
                continue
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if o == 'struct' and 'exc' not in ob:
                S[op['id']] = Node(op)
            elif o == 'eff' and op['s'] in S:
                S[op['s']].hist = S[op['s']].hist + [op]
            elif o == 'grow' and op['s'] in S:
                if 'exc' in ob:
                    out.append(V('cannot-be-built-further', w + f'{ob["exc"]}'))
                    break
                S[op['s']].hist = S[op['s']].hist + [op]
                info.probe('crystals built further')
                for v in E.values():
                    v.dead |= v.node is S[op['s']]
            elif o == 'mk' and 'exc' not in ob:
                E[op['id']] = Sim(S[op['s']], op)
            elif o == 'crash':
                S, E = {}, {}
                info.fire('restart')
            elif o == 'save':
                if op.get('fail_at') is not None and 'exc' in ob and ob['exc'][0] == 'OSError':
                    info.fire('checkpoint write error')
                elif 'exc' in ob:
                    out.append(V('cannot-be-saved', w + f'{ob["exc"]}'))
                else:
                    m = dict(S={k: v for k, v in S.items() if k in ob['v']['S']},
                             E={k: v for k, v in E.items() if k in ob['v']['E']})
                    for k, st in ob['v']['E'].items():
                        if k in E:
                            E[k].state = st
                    slots[op['slot']] = copy.deepcopy(m)
                    info.probe('checkpoints')
            elif o in ('load', 'clone'):
                if 'exc' in ob:
                    out.append(V('cannot-be-restored', w + f'{ob["exc"]}'))
                    break
                if o == 'load':
                    m = copy.deepcopy(slots[op['slot']])
                else:
                    for k, st in ob['v']['before'].items():
                        if k in E:
                            E[k].state = st
                    m = copy.deepcopy(dict(S={k: v for k, v in S.items() if k in ob['v']['names']},
                                           E={k: v for k, v in E.items() if k in ob['v']['names']}))
                restored = True
                info.probe('objects restored' if o == 'load' else 'objects copied', len(m['E']) + len(m['S']))
                for k, v in m['E'].items():
                    E[k + op['suffix']] = v
                    st = ob['v']['E'].get(k + op['suffix'])
                    info['compared'] += 1
                    if st is None or (v.state is not None and not same(st, v.state)):
                        bad = [n for n in (st or {}) if not same(st[n], v.state.get(n))]
                        out.append(V('restored-state-differs', w + f'{k}: {bad} differ from what was saved'))
                for k, v in m['S'].items():
                    S[k + op['suffix']] = v
                    want = self.desc(eng, v)
                    info['compared'] += 1
                    if want is not None and not same(ob['v']['S'].get(k + op['suffix']), want):
                        out.append(V('restored-structure-differs', w + f'{k} differs from the crystal that was saved'))
            elif o in ('run', 'q') and op['e'] in E and E[op['e']].dead:
                # the first run of a simulation of a crystal that was built further
                s = E[op['e']]
                if o == 'run' and not s.used and not ob.get('fired'):
                    p = s.node.prog()
                    p.insert(1 + s.at, dict(s.mk, id='E', s='S'))
                    ref = eng.exec(dict(kind='world', env=RNG, ops=p + [dict(clean(op), e='E')]), memo=True)
                    if not broke(ref) and 'skip' not in ref['obs'][-1]:
                        ref = ref['obs'][-1]
                        info['compared'] += 1
                        info['nontrivial'] |= restored
                        info.probe('simulations made before the crystal was built further')
                        d = diff_obs(ob, ref, op, states=False)
                        if not d and 'exc' not in ob:
                            d = diff_state(ob['state'], ref['state'], gauge=True)
                        if d:
                            out.append(V('run-after-restart-differs' if restored else 'run-differs', w + d))
                            break
                s.used = True
            elif o in ('run', 'q') and op['e'] in E:
                s = E[op['e']]
                s.used = True
                if ob.get('fired'):
                    s.run = None
                elif o == 'run' or s.run is not None:
                    ref = self.ref(eng, s, op)
                    if ref is not None:
                        info['compared'] += 1
                        info['nontrivial'] |= restored
                        d = diff_obs(ob, ref, op, states=False)
                        if not d and o == 'run' and 'exc' not in ob:
                            d = diff_state(ob['state'], ref['state'], gauge=True)
                        if not d and o == 'run' and 'exc' in ob:
                            s.run = None
                        elif not d and o == 'run':
                            s.run, s.hist = op, s.node.hist
                        if d and o == 'q' and not self.gauge_same(eng, s):
                            d = None
                        if d:
                            out.append(V(f'{o}-after-restart-differs' if restored else f'{o}-differs', w + d))
                            break
            elif o == 'sq' and op['s'] in S:
                n = S[op['s']]
                p = n.prog() + [dict(op, s='S')]
                ref = eng.exec(dict(kind='world', env=RNG, ops=p), memo=True)
                if not broke(ref):
                    info['compared'] += 1
                    d = diff_obs(ob, ref['obs'][-1], op)
                    if d:
                        out.append(V('structure-query-differs', w + d))
            # nothing but the object concerned has changed
            for k, s in E.items():
                st = ob.get('all', {}).get(k)
                if st is None:
                    continue
                if s.state is not None and k != op.get('e') and o not in ('load', 'clone') and not same(st, s.state):
                    out.append(V('copy-not-independent', w + f'changed {k}: '
                                 f'{[n for n in st if not same(st[n], s.state.get(n))]}'))
                s.state = st
            for k, n in S.items():
                st = ob.get('structs', {}).get(k)
                if st is None:
                    continue
                if k in seen and seen[k][0] is n and k != op.get('s') and not same(st, seen[k][1]):
                    out.append(V('copy-not-independent', w + f'changed the crystal {k}'))
                seen[k] = n, st
        return out, info

    def gauge_same(self, eng, s):
        """Whether the eigenvectors are those of the reference, so that
        queries of fields may be compared."""
        p = s.node.prog(s.hist) + \
            [dict(s.mk, id='E', s='S'), dict(clean(s.run), e='E')]
        r = eng.exec(dict(kind='world', env=RNG, ops=p), memo=True)
        return not broke(r) and 'state' in r['obs'][-1] and same(r['obs'][-1]['state']['eigvecs'], s.state['eigvecs'])

    def desc(self, eng, n):
        p = n.prog() + [dict(op='sq', s='S', q='desc')]
        r = eng.exec(dict(kind='world', env=RNG, ops=p), memo=True)
        return None if broke(r) else r['obs'][-1].get('v')


def csig(op):
    if op['op'] in ('save', 'load', 'clone', 'crash'):
        return op['op'] + ':' + ','.join(str(op.get(k)) for k in ('slot', 'what', 'suffix', 'fail_at', 'backend', 'how', 'proto'))
    if op['op'] == 'grow':
        return 'grow:' + op['step'] + str(op.get('layer', '')) + str(op.get('clad', ''))
    return opsig(op)


# ======================================================================= C21
@register
class C21(Check):
    id = 'C21'
    n = dict(quick=200, thorough=6000)
    rule = ('a program counts if a cycle with at least one simulation was repeated and its memory measured after each '
            'repetition; distinct by the operations of the cycle, their options and faults')
    stub = Check.stub + ('memory measured by walking the objects reachable from the library',)

    def gen(self, g):
        from .grads import gen_grad
        g.pol_gamma = False
        sym = g.flip(.08)
        sp = g.sym_struct() if sym else g.struct(qw=True)
        if sym:
            sp['qws'] = []
        pre = []
        build = [dict(op='struct', id='S0', spec=sp)]
        kp = g.kpool(2)
        k = 'gme' if sym else g.pick('gme', 'gme', 'gme', 'pwe', 'exc', 'pol')
        m = g.mk('E0', 'S0', k, sp)
        if sym:
            m['args'] = dict(gmax=1.2, truncate_g='abs')
        build.append(m)
        r = g.run('E0', k, kp, sym=sp['lat'] if sym else None, n=1)
        body = [r]
        for _ in range(g.pick(0, 1, 2)):
            body.append(g.query('E0', k, viz=g.flip(.5), run=r))
        if g.flip(.4):
            r2 = g.mutate_run(r, k, kp)
            body.append(r2)
            if g.flip(.5):
                body.append(g.query('E0', k, viz=False, run=r2))
        if g.flip(.2):
            b = copy.deepcopy(r)
            if k == 'gme' and not sym:
                g.break_gme_opts(b['opts'])
            body.append(b)
        if g.flip(.35):
            b = copy.deepcopy(g.pick(*[o for o in body if o['op'] == 'run']))
            b['fault'] = C02.fault(g)
            body.append(b)
        if g.flip(.3):
            q = g.squery('S0')
            body.append(q)
        if g.flip(.2):
            body.append(gen_grad(g, modes=('vg', 'vg', 'plain', 'fmap', 'min')))
        if g.flip(.15):
            body.append(dict(op='backend', name='autograd'))
            body.append(copy.deepcopy(r))
            body.append(dict(op='backend', name='numpy'))
        if g.flip(.15):
            body.append(dict(op='gds', s='S0', file='out.gds', disk=g.pick(None, None, dict(kind='nospc', at=40), dict(kind='open', at=0), dict(kind='eio', at=0))))
        keep = g.flip(.5)      # the same objects all the time
        if keep and g.flip(.45):
            # a crystal that lives on, and simulations of it that come and go
            pre, cyc = build[:1], build[1:] + body + [dict(op='drop', e='E0')]
        elif keep:
            pre, cyc = build, body
        else:
            cyc = build + body
        return dict(ops=pre + cyc, npre=len(pre), n=g.pick(8, 10, 12), vary=not keep and g.flip(.4), env=RNG)

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        ops = concretise(eng, h['ops'], h['env'])
        h['concrete'] = ops
        pre, cyc = ops[:h['npre']], ops[h['npre']:]
        prog = pre + [dict(op='cycle', ops=cyc, n=h['n'], vary=h['vary'], fresh=h['npre'] == 0)]
        r = eng.exec(dict(kind='world', ops=prog, env=h['env']))
        if broke(r):
            return [broke(r)], info
        ob = r['obs'][-1]
        info['sig'] = [csig(o) for o in ops] + [h['npre'], h['vary'], h['n']]
        if 'exc' in ob:
            raise RuntimeError(ob)
        v = ob['v']
        for x in v['fired']:  # kind, site, times
            info.fire(x[0], x[1])
            info['fired'][x[0]] += x[2] - 1
        info['nontrivial'] = any(o['op'] == 'run' for o in cyc)
        info['compared'] += len(v['size'])
        info.probe('cycles', len(v['size']))
        info.probe('objects discarded', v['made'])
        out = []
        if v['alive']:
            out.append(V('discarded-object-alive', f'still referenced by the library: {v["alive"][:4]}'))
        for name in ('size', 'objects', 'files', 'threads'):
            if grows(v[name]):
                if h['vary'] or name == 'objects':
                    # a table of limited size fills up first
                    n2 = 150 if h['vary'] else 40
                    long = dict(prog[-1], n=n2)
                    r2 = eng.exec(dict(kind='world', ops=pre + [long], env=h['env']))
                    if broke(r2) or not grows(r2['obs'][-1]['v'][name], 20):
                        info.probe('growth that stops')
                        continue
                out.append(V('grows-' + name, f'{name} after each repetition of the same work: {v[name]}'))
        for c, o in enumerate(v['odd']):
            out.append(V('repetition-differs', f'{o}'))
            break
        return out, info


# ======================================================================= C22
@register
class C22(Check):
    id = 'C22'
    n = dict(quick=420, thorough=10000)
    rule = ('a program counts if the settings were compared before and after at least one run, query, export or gradient; '
            'distinct by the operations, options and faults')

    def gen(self, g):
        from .grads import gen_grad
        from .checks import scenario, gds_op
        ops = scenario(g, nops=(1, 3), queries=.6, break_p=.1, drop_p=.03)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] in ('run', 'q', 'mk', 'sq') and g.flip(.25):
                o['fault'] = C02.fault(g)
            if o['op'] == 'run' and g.flip(.15):
                C02.verbose(o)
            if o['op'] == 'run' and 'fault' not in o and g.flip(.06):
                o['console'] = dict(mode=g.pick('broken', 'fail_at', 'flush', 'once'), at=g.r.randrange(4))
            if g.flip(.06):
                out.append(dict(op='backend', name=g.pick('numpy', 'autograd')))
            if g.flip(.04):
                out.append(dict(op='print', name=g.pick('base', 'rich')))
            out.append(o)
            if g.flip(.12):
                if g.flip(.4):
                    out.append(gds_op(g, 'S0'))
                else:
                    out.append(dict(op='gds', s='S0', file='out.gds', disk=g.pick(
                        None, dict(kind='nospc', at=40), dict(kind='open', at=0), dict(kind='eio', at=0))))
            if g.flip(.08):
                if g.flip(.25):
                    o = gen_grad(g, solver='eigsh', modes=('vg',))
                    o['of']['t'] = g.pick('field', 'field', 'rad')
                else:
                    o = gen_grad(g, modes=('vg', 'vg', 'fmap', 'min'))
                if g.flip(.4):
                    o['fault'] = C02.fault(g)
                elif g.flip(.3):
                    o['boom'] = dict(at=g.pick('start', 'built', 'end'), n=1,
                                     exc=g.pick('Stop', 'KeyboardInterrupt', 'ValueError'))
                out.append(o)
        return dict(ops=out, env=dict(settings=g.r.randrange(6), rng=g.r.randrange(1000)))

    def evaluate(self, h, eng):
        from .sites import concretise
        info = Info()
        plain = dict(RNG)
        ops = concretise(eng, h['ops'], plain)
        h['concrete'] = ops
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        out = []
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(csig(clean(op)) + str(ob.get('fired')))
            if ob.get('fired'):
                info.fire(op['fault']['exc'], ob['fired'])
            if ob.get('confired'):
                info.fire('console-' + op['console']['mode'])
            info['compared'] += 1
            info.probe('raised' if 'exc' in ob else 'returned')
            if op['op'] in ('run', 'q', 'sq', 'gds', 'grad'):
                info['nontrivial'] = True
            bad = ob['settings']
            if op['op'] in ('backend', 'print'):
                bad = [b for b in bad if b not in ('numerical backend', 'print backend')]
            if op['op'] == 'grad':
                # the workload switches the backend; autograd does not count
                # its levels down again when an exception passes through
                bad = [b for b in bad if b not in ('numerical backend', 'active differentiation')]
            if bad:
                out.append(V('setting-changed', f'operation {i} ({csig(op)}{", fault at " + str(ob["fired"]) if ob.get("fired") else ""}) '
                             f'{"which raised " + str(ob["exc"]) if "exc" in ob else ""} changed: {bad}'))
        # another state of the generators at the beginning: another one at the end
        r2 = eng.exec(dict(kind='world', ops=ops, env=dict(h['env'], rng=h['env']['rng'] + 1)))
        if not broke(r2):
            info['compared'] += 1
            if any(a == b for a, b in zip(r['rng'], r2['rng'])):
                out.append(V('generators-reseeded', 'the random generators end in the same state whatever their state was before'))
        return out, info


def grows(x, last=5):
    """Every one of the last repetitions added something."""
    x = x[-last:]
    return len(x) >= 4 and all(b > a for a, b in zip(x, x[1:]))
