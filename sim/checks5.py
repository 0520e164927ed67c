"""Other processes: settings of the caller, hash seeds, memory layouts, missing packages."""
import copy
from .checks import (Check, register, Info, V, broke, clean, opsig, RNG, C02, PHASE, reference, diff_obs, diff_grad,
                     scenario, gds_op)
from .compare import same, diff_state

PROCS = [dict(hash=1), dict(hash=4242, flags=['-O']), dict(hash=77, flags=['-X', 'utf8=0'], environ=dict(LC_ALL='C'))]
ENVS = ('TERM=dumb', 'COLUMNS=20', 'NO_COLOR=1', 'FORCE_COLOR=1', 'LANG=tr_TR.UTF-8', 'TZ=Asia/Kolkata', 'OMP_NUM_THREADS=7',
        'LEGUME_BACKEND=autograd', 'PYTHONHASHSEED=99', 'HOME=/nonexistent')


def csig(op):
    return opsig(clean(op)) + '/' + ','.join(op.get('cfg', ()))


def variation(g):
    c = []
    if g.flip(.3):
        c.append('fp:' + g.pick('raise', 'raise', 'warn', 'call', 'print', 'ignore'))
    if g.flip(.25):
        c.append('warn:' + g.pick('error', 'always', 'ignore'))
    if g.flip(.35):
        c.append(f'print:{g.r.randrange(5)}')
    if g.flip(.1):
        c.append(f'rc:{g.r.randrange(5)}')
    if g.flip(.15):
        c.append('env:' + g.pick(*ENVS))
    if g.flip(.12):
        c.append('cwd')
    if g.flip(.1):
        c.append('locale:' + g.pick('C', 'C.utf8', 'de_DE.UTF-8'))
    if g.flip(.12):
        c.append('gc:' + g.pick('off', 'often'))
    if g.flip(.08):
        c.append('decimal')
    if g.flip(.05):
        c.append('umask')
    if g.flip(.15):
        c.append('thread')
    if g.flip(.12):
        c.append(f"libwarn:{g.r.randrange(g.pick(10, 300, 5000))}:{g.pick(1, 50, 300, 10**9)}:"
                 f"{g.pick('RuntimeWarning', 'RuntimeWarning', 'DeprecationWarning', 'UserWarning')}")
        c = [x for x in c if x[:5] != 'warn:'] + g.pick(['warn:error'], ['warn:error'], ['warn:error'], ['warn:always'])
    return c


def strict(op):
    """Settings that turn warnings or floating-point events into errors."""
    return [c for c in op.get('cfg', ()) if c in ('fp:raise', 'warn:error')]


def allowed(exc, op):
    """May raise, in whatever way the error passes through SciPy."""
    return bool(strict(op))


# ======================================================================= C23
@register
class C23(Check):
    id = 'C23'
    n = dict(quick=300, thorough=6000)
    rule = ('a program counts if at least one operation executed under unusual settings or in another kind of process was '
            'compared with the same operation in an ordinary process; distinct by operations, settings and process')
    stub = Check.stub + ('settings of the caller, hash seed, memory layout, interpreter options',)

    def gen(self, g):
        from .grads import gen_grad
        g.pol_gamma, g.mix = False, .8
        ops = scenario(g, nops=(2, 5), queries=.45, viz=False, break_p=.03, drop_p=.05, sym_p=.28)
        for o in ops:
            if o['op'] == 'struct' and o['spec'].get('qws') and g.flip(.15):
                # several wells, some of them the same
                w = o['spec']['qws']
                for _ in range(g.pick(2, 3)):
                    n = copy.deepcopy(g.pick(*w))
                    n.update(g.pick({}, dict(E0=round(n['E0'] + .017, 4)), dict(z=round(n['z'] * .9, 4))))
                    w.append(n)
        out = []
        every = g.flip(.3) and variation(g)
        for o in ops:
            o = copy.deepcopy(o)
            c = every or (variation(g) if g.flip(.6) else [])
            if o.get('ang') and g.flip(.4):
                c = [x for x in c if x[:5] != 'print'] + [f'print:{g.pick(4, 4, 0, 3)}']
            if o['op'] == 'drop':
                c = []
            if o['op'] == 'run' and g.flip(.12):
                C02.verbose(o)
            if c:
                o['cfg'] = c
            out.append(o)
            if o['op'] == 'run' and g.flip(.2):
                out.append({k: v for k, v in o.items() if k != 'cfg'})       # again, in ordinary settings
            if o.get('grid') and g.flip(.7):
                out.append(dict(copy.deepcopy(o), grid=g.pick(1, 2, 3, 4)))      # almost the same grid
            if o['op'] == 'run' and g.flip(.12):
                q = dict(op='q', e=o['e'], q='viz_bands', Q=g.flip(.7), ku=g.flip(), kind=0, mind=0)
                v = variation(g)
                if g.flip(.5):
                    v = [x for x in v if x[:2] != 'fp'] + ['fp:raise']
                if v:
                    q['cfg'] = v
                out.append(q)
            if o['op'] == 'struct' and g.flip(.3):
                out.append(dict(op='sq', s=o['id'], q='ft', gv=g.pick(1, 2), cfg=g.pick(['fp:raise'], ['fp:raise'],
                                                                                       variation(g))))
            if g.flip(.06):
                e = gds_op(g, 'S0')
                if c:
                    e['cfg'] = c
                out.append(e)
        if g.flip(.15):
            o = gen_grad(g, modes=('vg', 'vg', 'fmap', 'min'))
            o['cfg'] = variation(g)
            for f in [o['of']] + o.get('others', []):
                f.pop('inner', None)       # works on a crystal outside
            out.append(o)
        env = dict(RNG)
        if g.flip(.5):
            env['proc'] = g.pick(*PROCS)
        if g.flip(.4):
            env['heap'] = g.r.randrange(10 ** 6)
        return dict(ops=out, env=env)

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        if 'noload' in r:
            return [V('does-not-load', f'in a process {h["env"].get("proc")}: {r["noload"]}')], info
        p = h['env'].get('proc') or {}
        info['sig'].append([str(sorted(p.items())), h['env'].get('heap')])
        if p:
            info.fire('process: ' + ' '.join([f'hash seed {p["hash"]}'] + p.get('flags', [])))
        if h['env'].get('heap') is not None:
            info.fire('other memory layout')
        ok_run, iterative = {}, {}
        out = []
        for i, (op, ob) in enumerate(zip(ops, r['obs'])):
            info['sig'].append(csig(op))
            for c in op.get('cfg', ()):
                info.fire('setting ' + (c.split('=')[0] if c[:7] != 'libwarn' else 'libwarn'))
            w = f'operation {i} ({csig(op)}; process {p or "ordinary"}): '
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
                iterative[op['e']] = op.get('opts', {}).get('eig_solver') == 'eigsh'
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            if op['op'] not in ('run', 'q', 'sq', 'mk', 'struct', 'grad', 'gds') or 'skip' in ob:
                continue
            if 'exc' in ob and allowed(ob['exc'], op):
                info.probe('error asked for')
                if op['op'] == 'struct':
                    # nothing to go on with
                    break
                continue
            if op['op'] in ('q', 'sq') and (op['q'] in ('repr', 'state', 'viz') or op['op'] == 'q' and not ok_run.get(op['e'])):
                continue
            if op['op'] == 'struct':
                if 'exc' in ob:
                    out.append(V('settings-change-result', w + f'raised {ob["exc"]}'))
                continue
            if op['op'] == 'grad':
                ref = eng.exec(dict(kind='world', ops=[clean(op)], env=RNG), memo=True)['obs'][0]
                it = op['of'].get('solver') == 'eigsh'
                d = diff_grad(ob, ref, 1e-3 if it else 1e-7)
            else:
                ref = reference(eng, ops, i, RNG)
                if ref is None or 'cls' in ref:
                    continue
                tol = 1e-6 if op.get('e') and iterative.get(op['e']) else 1e-9
                d = diff_obs(ob, ref, op, tol=tol)
                if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                    d = diff_state(ob['state'], ref['state'], gauge=True, tol=tol)
                if d and op['op'] == 'q' and 'exc' not in ob and 'exc' not in ref and \
                        (op['q'] in PHASE and not same(ob['state']['eigvecs'], ref['state']['eigvecs']) or tol > 1e-8):
                    info.probe('phase-dependent query not comparable')
                    d = None
                if not d and ob.get('order') != ref.get('order'):
                    d = f'keys in the order {ob.get("order")} instead of {ref.get("order")}'
            info['compared'] += 1
            info['nontrivial'] |= bool(p or op.get('cfg') or h['env'].get('heap') is not None)
            if d:
                out.append(V('settings-change-result', w + d))
        return out, info


# ======================================================================= C25
BLOCKS = [['autograd'], ['rich'], ['gdspy'], ['skimage'], ['autograd', 'rich', 'gdspy', 'skimage'], ['rich.progress'],
          ['autograd.scipy']]


@register
class C25(Check):
    id = 'C25'
    n = dict(quick=260, thorough=4000)
    rule = ('a program counts if at least one operation executed without a package was compared with the same operation '
            'with all packages; distinct by operations and packages')
    stub = Check.stub + ('installed packages (import of one or several of them fails)',)

    def gen(self, g):
        g.pol_gamma = False
        blk = g.pick(*BLOCKS)
        how = g.pick('module', 'module', 'plain', 'name')
        ops = scenario(g, nops=(2, 4), queries=.4, break_p=.03, drop_p=.05)
        out = []
        for o in ops:
            o = copy.deepcopy(o)
            if o['op'] == 'struct' and g.flip(.4):
                for l in o['spec']['layers']:
                    for s in l['shapes']:
                        s['num'] = g.pick('float32', 'float64', 'int64', 'float32')
            if o['op'] == 'run' and g.flip(.4):
                C02.verbose(o)
            if g.flip(.12):
                out.append(dict(op='backend', name=g.pick('autograd', 'autograd', 'numpy', 'torch')))
            if g.flip(.12):
                out.append(dict(op='print', name=g.pick('rich', 'rich', 'base', 'html')))
            out.append(o)
            if g.flip(.2):
                e = gds_op(g, 'S0')
                if g.flip(.6):
                    e['old'] = True
                out.append(e)
        return dict(ops=out, env=dict(RNG, proc=dict(block=blk, how=how)))

    def evaluate(self, h, eng):
        info = Info()
        ops = h['ops']
        blk = h['env']['proc']['block']
        r = eng.exec(dict(kind='world', ops=ops, env=h['env']))
        if broke(r):
            return [broke(r)], info
        if 'noload' in r:
            return [V('does-not-load', f'without {blk}: {r["noload"]}')], info
        full = eng.exec(dict(kind='world', ops=ops, env=RNG))
        if broke(full):
            return [broke(full)], info
        info['sig'].append(str(blk))
        info.fire('missing: ' + ', '.join(blk))
        out = []
        ok_run = {}
        miss = lambda n: any(b == n or b.startswith(n + '.') for b in blk)
        for i, (op, ob, ref) in enumerate(zip(ops, r['obs'], full['obs'])):
            info['sig'].append(csig(op) + str(op.get('name', '')))
            w = f'operation {i} ({csig(op)}) without {", ".join(blk)}: '
            if op['op'] == 'run':
                ok_run[op['e']] = 'exc' not in ob
            if op['op'] in ('mk', 'drop'):
                ok_run[op.get('id', op.get('e'))] = False
            if 'skip' in ob:
                continue
            need = []
            if op['op'] == 'backend' and op['name'] == 'autograd' and miss('autograd'):
                need = ['autograd']
            elif op['op'] == 'print' and op['name'] == 'rich' and 'rich' in blk:
                need = ['rich']
            elif op['op'] == 'print' and op['name'] == 'rich' and miss('rich'):
                continue                # partly there
            elif op['op'] == 'gds':
                need = [n for n in ('gdspy',) + (('skimage',) if op.get('ras') else ()) if miss(n)]
            info['compared'] += 1
            info['nontrivial'] = True
            if need:
                info.probe('needs ' + need[0])
                v = ob.get('v')
                if isinstance(v, dict) and 'failed' in v:
                    if not v['kept'] or v['files'] != [op['file']]:
                        out.append(V('file-touched', w + f'failed for want of {need} and left {v["files"]}, '
                                     f'the file {"kept" if v["kept"] else "changed"}'))
                elif 'exc' not in ob:
                    out.append(V('missing-package-unnoticed', w + f'succeeded although {need} is missing'))
                if op['op'] == 'backend' and ob.get('backend') not in (None, 'NumpyBackend'):
                    out.append(V('missing-package-unnoticed', w + f'backend {ob["backend"]}'))
                continue
            if op['op'] in ('backend', 'print'):
                if ('exc' in ob) != ('exc' in ref):
                    out.append(V('missing-package-changes', w + f'{ob.get("exc")} instead of {ref.get("exc")}'))
                continue
            if op['op'] not in ('run', 'q', 'sq', 'mk', 'struct', 'gds'):
                continue
            if op['op'] == 'q' and (not ok_run.get(op['e']) or op['q'] == 'state'):
                continue
            d = diff_obs(ob, ref, op)
            if d and op['op'] == 'run' and 'exc' not in ob and 'exc' not in ref:
                d = diff_state(ob['state'], ref['state'], gauge=True)
            if d and op['op'] == 'q' and op['q'] in PHASE and 'exc' not in ob and 'exc' not in ref and 'state' in ref \
                    and not same(ob['state']['eigvecs'], ref['state']['eigvecs']):
                d = None
            if d:
                out.append(V('missing-package-changes', w + d))
        return out, info
