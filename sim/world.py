"""Executes operation programs against the real library.

A program is a list of JSON-able operations; every operation yields an
observation: {'ok': True, 'v': ...} or {'exc': [type, message]} or
{'skip': reason} when it refers to objects that do not exist (only after
shrinking).  Observations hold plain numpy arrays and containers only."""
import builtins
import gc
import pickle
import numpy as np
from . import seams
from . import monitor as mon


class Skip(Exception):
    pass


# ------------------------------------------------------------------ encoding
def enc(x, depth=0):
    if x is None or isinstance(x, (bool, int, float, complex, str)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [enc(y, depth + 1) for y in x.ravel()]
        return np.array(x, copy=True)
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [enc(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v, depth + 1) for k, v in x.items()}
    t = type(x).__name__
    if t.endswith('Box'):
        return {'__box__': t, 'v': enc(x._value, depth + 1)}
    return {'__obj__': t}


def has_box(o):
    if isinstance(o, dict):
        return '__box__' in o or any(has_box(v) for v in o.values())
    if isinstance(o, list):
        return any(has_box(v) for v in o)
    return False


def exc_obs(e):
    return {'exc': [type(e).__name__, str(e)[:300]]}


# ------------------------------------------------------------------ builders
def mk_lattice(legume, lat):
    if lat[0] in ('square', 'hexagonal'):
        return legume.Lattice(lat[0])
    return legume.Lattice(list(lat[1]), list(lat[2]))


def _noarg(label, x):
    return x


def mk_shape(legume, s, par=None, arg=_noarg):
    """par: {field: value} overrides (traced values)."""
    v = dict(s)
    if par:
        v.update(par)
    t = v['t']
    if v.get('num'):
        v['eps'] = getattr(np, v['num'])(v['eps'])      # other types of numbers
    if t == 'circle':
        return legume.Circle(v['eps'], v['x'], v['y'], v['r'])
    if t == 'ellipse':
        return legume.Ellipse(v['eps'], v['x'], v['y'], v['rx'], v['ry'], v['phi'])
    if t == 'square':
        return legume.Square(v['eps'], v['x'], v['y'], v['a'])
    if t == 'hexagon':
        return legume.Hexagon(v['eps'], v['x'], v['y'], v['a'])
    if t == 'poly':
        return legume.Poly(v['eps'], arg('x_edges', v.get('aslist') and list(v['xs']) or np.array(v['xs'], dtype=float)),
                           arg('y_edges', v.get('aslist') and list(v['ys']) or np.array(v['ys'], dtype=float)))
    if t == 'fourier':
        return legume.FourierShape(v['eps'], v['x'], v['y'], arg('f_as', np.array(v['as'], dtype=float)),
                                   arg('f_bs', np.array(v['bs'], dtype=float)), npts=v.get('n', 24))
    if t == 'bad':
        return v.get('what', 'not a shape')
    raise ValueError(t)


def mk_struct(legume, spec, par=None, arg=_noarg, parts=None):
    """Build a PhotCryst. par: {'l<i>.d': v, 'l<i>.s<j>.<field>': v}. parts:
    lattices and shapes built before, for crystals that share them."""
    par = par or {}

    def once(make, what):
        if parts is None:
            return make(legume, what)
        key = repr(what)
        if key not in parts:
            parts[key] = make(legume, what)
        return parts[key]
    lat = once(mk_lattice, spec['lat'])
    phc = legume.PhotCryst(lat, eps_l=spec['eps_l'], eps_u=spec['eps_u'])
    for i, l in enumerate(spec['layers']):
        phc.add_layer(d=par.get(f'l{i}.d', l['d']), eps_b=par.get(f'l{i}.eps_b', l['eps_b']))
        for j, s in enumerate(l['shapes']):
            p = {k.split('.')[2]: v for k, v in par.items() if k.startswith(f'l{i}.s{j}.')}
            phc.add_shape(mk_shape(legume, s, p, arg) if p else once(lambda L, x: mk_shape(L, x, None, arg), s))
    for clad in 'lu':
        for s in spec.get('clad', {}).get(clad, []):
            phc.add_shape(arg('shapes', [mk_shape(legume, s, None, arg)]), cladding=clad)
    for q in spec.get('qws', []):
        kw = qw_kwargs(q)
        arg('osc_str', kw['osc_str'])
        phc.add_qw(**kw)
    set_eff(phc, spec.get('eff'))
    return phc


def qw_kwargs(q):
    return dict(z=q['z'], V_shapes=q['V'], a=q['a'], M=q['M'], E0=q['E0'],
                loss=q['loss'], osc_str=list(q['osc']))


def set_eff(phc, eff):
    if eff:
        for lay, e in zip([phc.claddings[0]] + phc.layers + [phc.claddings[1]], eff):
            lay.eps_eff = e


STATE = {
    'gme': ('kpoints', 'freqs', 'freqs_im', 'eigvecs', 'rad_coup', 'rad_gvec',
            'unbalance_sp', 'kz_symms'),
    'pwe': ('kpoints', 'freqs', 'eigvecs'),
    'exc': ('kpoints', 'eners', 'eigvecs'),
    'pol': ('kpoints', 'eners', 'eners_im', 'eigvecs', 'fractions_ex', 'fractions_ph'),
}
STATIC = ('gvec',)


def karr(k):
    return np.array(k, dtype=float).reshape(2, -1)


def key_order(v):
    """Keys of the dictionaries in a result, in order."""
    if isinstance(v, dict):
        return [[str(k) for k in v]] + [x for y in v.values() for x in key_order(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in key_order(y)]
    return []


class World:
    def __init__(self, legume, env):
        self.L = legume
        self.env = env
        self.structs = {}      # id -> PhotCryst
        self.parts = {}        # lattices and shapes shared by the crystals
        self.engines = {}      # id -> (kind, object)
        self.mon = mon.Monitor(legume.__path__[0] + '/')
        self.watch = env.get('watch_args')     # C15
        self.keep = env.get('keep_results')    # C19
        self.kept = []
        self.argmut = []
        self._args = []
        self.stats = {}
        self.order = None      # of the keys of the last result
        self._figs = None      # figures of the caller
        self.store = {}        # checkpoints, all that survives a crash

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -------------------------------------------------- argument watching
    def arg(self, label, x):
        """Register an argument; returns it. Compared after the operation."""
        if self.watch:
            self._args.append((label, x, enc(x)))
        return x

    def _check_args(self, i):
        from .compare import same
        for label, x, snap in self._args:
            self.count('args compared')
            if not same(enc(x), snap):
                self.argmut.append([i, label])
        self._args = []

    def snap_inputs(self):
        """Deep description of all structures (for input/query purity)."""
        return {sid: self.struct_desc(p) for sid, p in self.structs.items()}

    def struct_desc(self, phc):
        def lay(l):
            d = {k: enc(getattr(l, k, None)) for k in ('z_min', 'z_max', 'z_mid', 'd', 'eps_b', 'eps_avg', '_eps_eff')}
            d['shapes'] = [dict(type=type(s).__name__, **{k: enc(v) for k, v in sorted(vars(s).items())})
                           for s in l.shapes]
            return d
        return dict(layers=[lay(l) for l in phc.layers], clads=[lay(l) for l in phc.claddings],
                    qws=[{k: enc(v) for k, v in sorted(vars(q).items())} for q in phc.qws],
                    lat={k: enc(v) for k, v in sorted(vars(phc.lattice).items())})

    # -------------------------------------------------- running a program
    def run(self, ops, profile=None):
        out = []
        if self.env.get('settings') is not None:
            from . import settings
            settings.snapshot(self.L)      # imports what plots need
            settings.unusual(self.env['settings'])
        for i, op in enumerate(ops):
            out.append(self.step(i, op, profile == i))
        res = dict(obs=out)
        if self.env.get('settings') is not None:
            res['rng'] = settings.rng()
        if self.keep:
            res['altered'] = self.check_kept()
            res['nkept'] = len(self.kept)
        res['argmut'] = self.argmut
        res['stats'] = self.stats
        if self.store:
            res['store'] = self.store
        return res

    def step(self, i, op, profile=False):
        fault = op.get('fault')
        cm = None
        if fault and fault['ev'] in ('line', 'call'):
            cm = mon.Injector(self.mon, fault['ev'], fault['n'], make_exc(fault['exc']))
        elif profile:
            cm = mon.Profiler(self.mon)
        con = op.get('console')
        if con:
            seams.console.reset()
            seams.console.mode = con['mode']
            seams.console.fail_from = con.get('at', 0)
        if op.get('clock'):
            seams.clock.mode = op['clock']
        if self.env.get('rng_each') is not None and op['op'] != 'rng':
            seams.rng.reset(self.env['rng_each'])
        n0 = seams.console.nbytes
        if self.watch and op['op'] in ('run', 'q', 'sq', 'mk', 'grad', 'export', 'imrun'):
            for sid, p in self.structs.items():
                self._args.append((f'struct {sid}', _Desc(self, p), self.struct_desc(p)))
        if self.env.get('settings') is not None:
            from . import settings
            set0 = settings.snapshot(self.L)
        try:
            if op.get('cfg'):
                v = self.configured(op)
            elif cm:
                with cm:
                    v = self.do(op)
            else:
                v = self.do(op)
            ob = {'ok': True, 'v': v}
            if self.order:
                ob['order'], self.order = self.order, None
        except Skip as e:
            ob = {'skip': str(e)}
        except BaseException as e:
            ob = exc_obs(e)
        if self.env.get('settings') is not None:
            ob['settings'] = settings.changed(set0, settings.snapshot(self.L))
        ob['bytes'] = seams.console.nbytes - n0
        if con:
            ob['confired'] = seams.console.fired
            ob['context'] = ''.join(seams.console.text)[:400]
            seams.console.reset()
        if self.watch:
            self._check_args(i)
        else:
            self._args = []
        if isinstance(cm, mon.Injector):
            ob['fired'] = cm.fired
        if isinstance(cm, mon.Profiler):
            ob['profile'] = cm.result()
        if op['op'] == 'backend':
            ob['backend'] = self.backend_name
        # state of the engine concerned, after the operation
        e = op.get('e') or (op.get('id') if op['op'] == 'mk' else None)
        if e in self.engines:
            ob['state'] = self.state(e)
            if self.keep:
                self.keep_results(i, e)
        if self.env.get('snap_all'):
            ob['all'] = {k: self.state(k) for k in self.engines}
            ob['structs'] = self.snap_inputs()
        return ob

    def state(self, e):
        return self._state(*self.engines[e])

    def _state(self, kind, o):
        st = {'kind': kind}
        if kind == 'pol':
            # the photonic and excitonic simulations inside
            st['sub'] = [self._state('gme', o.gme)] + [self._state('exc', x) for x in o.exc_list]
        for n in STATE[kind] + STATIC:
            try:
                st[n] = enc(getattr(o, n))
            except Exception as ex:
                st[n] = {'__exc__': type(ex).__name__}
        return st

    # C19 -------------------------------------------------------------
    def keep_results(self, i, e):
        kind, o = self.engines[e]
        for n in STATE[kind]:
            x = getattr(o, n, None)
            if x is not None:
                self.kept.append((i, f'{e}.{n}', x, enc(x)))

    def keep_value(self, i, label, x):
        if self.keep:
            self.kept.append((i, label, x, enc(x)))

    def check_kept(self):
        from .compare import same
        return [[i, l] for i, l, x, s in self.kept if not same(enc(x), s)]

    # -------------------------------------------------- operations
    def do(self, op):
        return getattr(self, 'op_' + op['op'])(op)

    def configured(self, op):
        from . import settings
        f = lambda: self._configured(op)
        return settings.in_thread(f) if 'thread' in op['cfg'] else f()

    def _configured(self, op):
        from . import settings
        if 'thread' in op['cfg']:
            np.seterr(all='ignore')
        with settings.Applied(op['cfg']):
            for c in op['cfg']:
                if c.startswith('libwarn'):
                    n, every, cat = c.split(':')[1:]
                    with mon.Warner(self.mon, int(n), int(every), getattr(builtins, cat)):
                        return self.do(op)
            return self.do(op)

    def op_struct(self, op):
        self.structs.pop(op['id'], None)
        self.structs[op['id']] = mk_struct(self.L, op['spec'], arg=self.arg,
                                           parts=self.parts if self.env.get('share') else None)
        return None

    def op_build(self, op):
        """Build a crystal in an explicit order of steps."""
        self.structs.pop(op['id'], None)
        sp, L = op['spec'], self.L
        phc = L.PhotCryst(mk_lattice(L, sp['lat']), eps_l=sp['eps_l'], eps_u=sp['eps_u'])
        for st in op['steps']:
            if st[0] == 'layer':
                l = sp['layers'][st[1]]
                phc.add_layer(d=l['d'], eps_b=l['eps_b'])
            elif st[0] == 'shapes':
                sh = [mk_shape(L, sp['layers'][st[1]]['shapes'][j]) for j in st[2]]
                phc.add_shape(sh if len(sh) != 1 else sh[0], layer=st[1])
            elif st[0] == 'clad':
                sh = [mk_shape(L, sp['clad'][st[1]][j]) for j in st[2]]
                phc.add_shape(sh if len(sh) != 1 else sh[0], cladding=st[1])
            elif st[0] == 'qw':
                phc.add_qw(**qw_kwargs(sp['qws'][st[1]]))
        set_eff(phc, sp.get('eff'))
        self.structs[op['id']] = phc
        return None

    def op_eff(self, op):
        if op['s'] not in self.structs:
            raise Skip('no struct')
        set_eff(self.structs[op['s']], op['eff'])

    def op_grow(self, op):
        """One more building step."""
        if op['s'] not in self.structs:
            raise Skip('no struct')
        phc, L = self.structs[op['s']], self.L
        if op['step'] == 'shape':
            if op['layer'] >= len(phc.layers):
                raise Skip('no layer')
            phc.add_shape(mk_shape(L, op['shape']), layer=op['layer'])
        elif op['step'] == 'clad':
            phc.add_shape(mk_shape(L, op['shape']), cladding=op['clad'])
        elif op['step'] == 'rotate':
            # a polygon of the crystal is turned where it is
            sh = [s for l in phc.layers for s in l.shapes if hasattr(s, 'rotate')]
            if not sh:
                raise Skip('no polygon')
            sh[op['j'] % len(sh)].rotate(op['angle'])
        elif op['step'] == 'layer':
            phc.add_layer(d=op['layer']['d'], eps_b=op['layer']['eps_b'])
        else:
            phc.add_qw(**qw_kwargs(op['qw']))

    def op_mk(self, op):
        if op['s'] not in self.structs:
            raise Skip('no struct')
        phc = self.structs[op['s']]
        self.engines.pop(op['id'], None)
        L, k = self.L, op['kind']
        a = dict(op.get('args', {}))
        if k == 'gme':
            o = L.GuidedModeExp(phc, **a)
        elif k == 'pwe':
            o = L.PlaneWaveExp(phc.layers[op.get('layer', 0)], **a)
        elif k == 'exc':
            q = op['qw']
            osc = self.arg('osc_str', list(q['osc']))
            o = L.ExcitonSchroedEq(phc, z=q['z'], V_shapes=q['V'], a=q['a'], M=q['M'],
                                   E0=q['E0'], loss=q['loss'], osc_str=osc, **a)
        elif k == 'pol':
            o = L.HopfieldPol(phc, **a)
        self.engines[op['id']] = (k, o)
        return None

    def eng(self, op):
        if op['e'] not in self.engines:
            raise Skip('no engine')
        return self.engines[op['e']]

    def op_run(self, op):
        kind, o = self.eng(op)
        kw = run_kwargs(kind, op, self)
        o.run(**kw)
        return None

    def op_drop(self, op):
        self.engines.pop(op['e'], None)
        gc.collect()

    def op_backend(self, op):
        try:
            self.L.set_backend(op['name'])
        finally:
            self.backend_name = type(self.L.backend).__name__
        return self.backend_name

    def op_print(self, op):
        self.L.set_print_backend(op['name'])

    def op_rng(self, op):
        seams.rng.reset(op['seed'])
        for _ in range(op.get('burn', 0)):
            np.random.rand()

    def op_clock(self, op):
        seams.clock.mode = op['mode']

    def op_gc(self, op):
        gc.collect()

    def op_q(self, op):
        kind, o = self.eng(op)
        v = QUERY[op['q']](self, o, kind, op)
        self.keep_value(-1, op['q'], v)
        self.order = key_order(v)
        return enc(v)

    def op_sq(self, op):
        if op['s'] not in self.structs:
            raise Skip('no struct')
        v = SQUERY[op['q']](self, self.structs[op['s']], op)
        self.keep_value(-1, op['q'], v)
        return enc(v)

    def op_ctor(self, op):
        from . import ctor
        return ctor.do_ctor(self, op)

    def op_grad(self, op):
        from . import grads
        return grads.op_grad(self, op)

    def op_threads(self, op):
        """Each lane is a list of operations executed by one thread."""
        worlds = []
        lanes = op['lanes']
        for lane in lanes:
            w = World(self.L, {})
            w.structs = self.structs if op.get('shared', True) else dict(self.structs)
            # objects built before the threads start; every lane uses its own
            w.engines = {o['e']: self.engines[o['e']] for o in lane
                         if o.get('e') in self.engines}
            w.mon = self.mon
            worlds.append(w)
        outs = [[] for _ in lanes]

        def task(j):
            def f():
                for i, o in enumerate(lanes[j]):
                    outs[j].append(worlds[j].step(i, o))
                return True
            return f
        ts = mon.ThreadSim(self.mon, op['plan'])
        r = ts.run([task(j) for j in range(len(lanes))])
        return dict(lanes=outs, switches=ts.switches, trace=ts.trace[:60],
                    harness=[x for x in r if x is not True])


    # ------------------------------------------------------- checkpoints (C20)
    def _pick(self, what):
        if what == 'all':
            return dict(self.structs), dict(self.engines)
        s = {k: self.structs[k] for k in what if k in self.structs}
        e = {k: self.engines[k] for k in what if k in self.engines}
        if not s and not e:
            raise Skip('nothing to save')
        return s, e

    def _put(self, d, suffix):
        s, e = d
        for k, v in s.items():
            self.structs[k + suffix] = v
        for k, v in e.items():
            self.engines[k + suffix] = v
        return dict(S={k + suffix: self.struct_desc(v) for k, v in s.items()},
                    E={k + suffix: self._state(*v) for k, v in e.items()})

    def op_save(self, op):
        s, e = self._pick(op['what'])
        st = {k: self._state(*v) for k, v in e.items()}
        f = _Sink(op.get('fail_at'))
        pickle.dump((s, e), f, protocol=op.get('proto', 4))
        f.flush()
        self.store[op['slot']] = b''.join(f.parts)
        return dict(S=sorted(s), E=st)

    def op_load(self, op):
        if op['slot'] not in self.store:
            raise Skip('no checkpoint')
        return self._put(pickle.loads(self.store[op['slot']]), op.get('suffix', ''))

    def op_clone(self, op):
        import copy
        d = self._pick(op['what'])
        before = {k: self._state(*v) for k, v in d[1].items()}
        if op.get('how') == 'pickle':
            n = pickle.loads(pickle.dumps(d))
        else:
            n = copy.deepcopy(d)
        return dict(self._put(n, op['suffix']), names=sorted(d[0]) + sorted(d[1]), before=before)

    # -------------------------------------------------- repeated work (C21)
    def op_gds(self, op):
        import tempfile
        import legume.gds as gds
        seams.install_ids()
        if op['s'] not in self.structs:
            raise Skip('no struct')
        with tempfile.TemporaryDirectory(prefix='legume-sim-gds-') as root:
            import os
            path = root + '/' + op['file']
            if 'legume-sim-cwd-' in os.getcwd():
                # in a working directory of its own: named relative to it
                path = os.path.relpath(path)
            if not op.get('disk'):
                # the file itself is looked at
                if op.get('old'):
                    return self.export_over(op, root, path)
                from .gdsim import parse, raster
                if op.get('ras'):
                    gds.generate_gds_raster(self.structs[op['s']].lattice, raster(op['ras']), path, **op.get('kw', {}))
                else:
                    gds.generate_gds(self.structs[op['s']], path, **op.get('kw', {}))
                v = parse(path)
                return dict(v, polys=sorted(([p['layer'], p['datatype'], p['xy'].tolist()] for p in v['polys']), key=repr))
            seams.disk.root, seams.disk.plan = root, op.get('disk')
            try:
                gds.generate_gds(self.structs[op['s']], path)
            finally:
                seams.disk.root = seams.disk.plan = None

    def export_over(self, op, root, path):
        """Export over an existing file; what is there if it fails?"""
        import legume.gds as gds
        seams.install_ids()
        import os
        from .gdsim import parse, raster
        with open(path, 'wb') as f:
            f.write(b'of the caller')
        try:
            if op.get('ras'):
                gds.generate_gds_raster(self.structs[op['s']].lattice, raster(op['ras']), path, **op.get('kw', {}))
            else:
                gds.generate_gds(self.structs[op['s']], path, **op.get('kw', {}))
        except Exception as e:
            with open(path, 'rb') as f:
                kept = f.read() == b'of the caller'
            return dict(failed=type(e).__name__, kept=kept, files=sorted(os.listdir(root)))
        v = parse(path)
        return dict(v, polys=sorted(([p['layer'], p['datatype'], p['xy'].tolist()] for p in v['polys']), key=repr))

    @property
    def figs(self):
        if self._figs is None:
            from . import plots
            self._figs = plots.Figs()
        return self._figs

    def op_fig(self, op):
        return self.figs.op_fig(op)

    def op_sel(self, op):
        return self.figs.op_sel(op)

    def op_shut(self, op):
        return self.figs.op_shut(op)

    def op_plot(self, op):
        from . import plots
        return plots.op_plot(self, op)

    def op_cycle(self, op):
        from . import memory
        return memory.cycle(self, op)


class _Sink:
    """Where a checkpoint goes; the n-th write may fail."""

    def __init__(self, fail_at):
        self.parts, self.left = [], fail_at

    def write(self, b):
        if self.left is not None:
            if self.left == 0:
                raise OSError(28, 'No space left on device (simulated)')
            self.left -= 1
        self.parts.append(bytes(b))
        return len(b)

    def flush(self):
        if self.left is not None:
            raise OSError(28, 'No space left on device (simulated)')


class _Desc:
    """Lazily described structure, for argument comparison."""

    def __init__(self, w, p):
        self.w, self.p = w, p


_enc0 = enc


def enc(x, depth=0):            # noqa: F811 - extended for _Desc
    if isinstance(x, _Desc):
        return x.w.struct_desc(x.p)
    return _enc0(x, depth)


class SimFault(Exception):
    pass


def make_exc(name):
    if name == 'LinAlgError':
        return np.linalg.LinAlgError('simulated: did not converge')
    if name == 'ArpackNoConvergence':
        import scipy.sparse.linalg as sl
        return sl.ArpackNoConvergence('simulated: no convergence', np.array([]), np.array([]))
    if name == 'ArpackError':
        import scipy.sparse.linalg as sl
        return sl.ArpackError(-9999)
    cls = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError,
               RuntimeError=RuntimeError, ValueError=ValueError, OSError=OSError,
               FloatingPointError=FloatingPointError)[name]
    return cls('simulated ' + name)


def run_kwargs(kind, op, w=None):
    arg = w.arg if w else (lambda l, x: x)
    kw = {}
    opts = {}
    for k, v in op.get('opts', {}).items():
        if isinstance(v, dict) and '__nd__' in v:
            v = np.array(v['__nd__'])
        elif isinstance(v, list):
            v = list(v)
        opts[k] = arg(k, v)
    if op.get('k') is not None:
        kw['kpoints'] = arg('kpoints', karr(op['k']))
    if kind == 'gme':
        if op.get('ang') is not None:
            kw['angles'] = arg('angles', np.array(op['ang'], dtype=float))
        kw.update(opts)
    elif kind == 'pol':
        def sub(name):
            d = {}
            for k, v in op.get(name, {}).items():
                d[k] = list(v) if isinstance(v, list) else v
            return d
        if 'gme_options' in op:
            kw['gme_options'] = arg('gme_options', sub('gme_options'))
        if 'exc_options' in op:
            kw['exc_options'] = arg('exc_options', sub('exc_options'))
        kw.update(opts)
    else:
        kw.update(opts)
    return kw


# ------------------------------------------------------------------ queries
def _plt():
    import matplotlib.pyplot as plt
    return plt


def fig_content():
    """What the open figures show: line, scatter, image and mesh data."""
    plt = _plt()
    out = []
    for num in plt.get_fignums():
        fig = plt.figure(num)
        for ax in fig.axes:
            d = []
            for l in ax.lines:
                d.append(['line', enc(np.asarray(l.get_xdata(), float)), enc(np.asarray(l.get_ydata(), float))])
            for c in ax.collections:
                try:
                    off = np.asarray(c.get_offsets(), float)
                    arr = c.get_array()
                    d.append(['coll', enc(off), None if arr is None else enc(np.asarray(arr, float).ravel())])
                except Exception as e:
                    d.append(['coll?', type(e).__name__])
            for im in ax.images:
                d.append(['im', enc(np.asarray(im.get_array(), float))])
            # the quality factor is in the title once losses are known
            out.append([ax.get_title().split('$Q')[0].strip(), d])
    return out


def viz_call(f):
    plt = _plt()
    plt.close('all')
    try:
        f()
        return fig_content()
    finally:
        plt.close('all')


def q_state(w, o, kind, op):
    return w.state(op['e'])


def q_rad(w, o, kind, op):
    return o.compute_rad(op['kind'], w.arg('minds', list(op['minds'])))


def q_rad_sp(w, o, kind, op):
    return o.compute_rad_sp(op['kind'], w.arg('minds', list(op['minds'])))


def q_rad_nd(w, o, kind, op):
    return o.compute_rad(op['kind'], w.arg('minds', np.array(op['minds'])))


def q_rad_default(w, o, kind, op):
    return o.compute_rad(op['kind'])


def q_im(w, o, kind, op):
    return o.run_im()


def q_ft_field(w, o, kind, op):
    if kind == 'gme':
        return o.ft_field_xy(op['field'], op['kind'], op['mind'], op['z'])
    if kind == 'pwe':
        return o.ft_field_xy(op['field'], op['kind'], op['mind'])
    return o.ft_wavef_xy(op['kind'], op['mind'])


def grid(a, b, n, how):
    x = np.linspace(a, b, n)
    if how == 2:
        x = x + 1e-3
    elif how == 3:
        x[1:-1] += .07                  # the same ends
    elif how == 4:
        x[1:-1] += 1e-7
    return x


def q_field(w, o, kind, op):
    f, k, m = op['field'], op['kind'], op['mind']
    comp = op.get('comp', 'xyz')
    n = op.get('N', 4)
    pl = op.get('plane', 'xy')
    if kind == 'exc':
        return o.get_wavef_xy(k, m, Nx=n, Ny=n)
    if kind == 'pwe':
        return o.get_field_xy(f, k, m, component=comp, Nx=n, Ny=n)
    g1 = grid(-0.4, 0.5, n, op['grid']) if op.get('grid') else None
    g2 = grid(-0.3, 0.6, n + 1, op['grid']) if op.get('grid') else None
    if g1 is not None:
        w.arg('grid1', g1), w.arg('grid2', g2)
    if pl == 'xy':
        return o.get_field_xy(f, k, m, op['z'], xgrid=g1, ygrid=g2, component=comp, Nx=n, Ny=n)
    if pl == 'xz':
        return o.get_field_xz(f, k, m, op['z'], xgrid=g1, zgrid=g2, component=comp, Nx=n, Nz=n)
    return o.get_field_yz(f, k, m, op['z'], ygrid=g1, zgrid=g2, component=comp, Ny=n, Nz=n)


def q_eps_xy(w, o, kind, op):
    n = op.get('N', 4)
    kw = {}
    if op.get('grid') and kind == 'gme':
        kw = dict(xgrid=w.arg('xgrid', grid(-.4, .5, n, op['grid'])), ygrid=w.arg('ygrid', grid(-.3, .6, n + 1, op['grid'])))
    if kind == 'exc':
        return o.get_pot_xy(Nx=n, Ny=n)
    if kind == 'pwe':
        return o.get_eps_xy(Nx=n, Ny=n)
    return o.get_eps_xy(op['z'], Nx=n, Ny=n, **kw)


def q_repr(w, o, kind, op):
    return repr(o)


def q_viz_bands(w, o, kind, op):
    v = w.L.viz
    if kind == 'pol':
        return viz_call(lambda: v.pol_bands(o, Q=op.get('Q', True), fraction=op.get('frac', False),
                                            k_units=op.get('ku', False)))
    return viz_call(lambda: v.bands(o, Q=op.get('Q', False), cone=(kind == 'gme'),
                                    k_units=op.get('ku', False)))


def q_viz_field(w, o, kind, op):
    v = w.L.viz
    if kind == 'exc':
        return viz_call(lambda: v.wavef(o, op['kind'], op['mind'], N1=5, N2=5))
    kw = dict(z=op['z']) if kind == 'gme' else {}
    return viz_call(lambda: v.field(o, op['field'], op['kind'], op['mind'], N1=5, N2=5, cbar=False,
                                    component=op.get('comp', 'xyz'), val=op.get('val', 're'),
                                    eps=op.get('eps', True), **kw))


def q_viz_eps(w, o, kind, op):
    v = w.L.viz
    if kind == 'exc':
        return viz_call(lambda: v.pot_ft(o, Nx=5, Ny=5, cbar=False))
    return viz_call(lambda: v.eps_ft(o, Nx=5, Ny=5, cbar=False))


def q_viz_recip(w, o, kind, op):
    return viz_call(lambda: w.L.viz.reciprocal(o))


QUERY = dict(state=q_state, rad=q_rad, rad_sp=q_rad_sp, rad_nd=q_rad_nd, rad_default=q_rad_default,
             im=q_im, ft_field=q_ft_field, field=q_field, eps_xy=q_eps_xy, repr=q_repr,
             viz_bands=q_viz_bands, viz_field=q_viz_field, viz_eps=q_viz_eps, viz_recip=q_viz_recip)


def s_eps(w, p, op):
    n = op.get('N', 5)
    x = np.linspace(-0.7, 0.9, n)
    z = np.linspace(-0.5, 1.4, 4)
    X, Y, Z = np.meshgrid(x, x + 0.05, z, indexing='ij')
    return p.get_eps((w.arg('x', X), w.arg('y', Y), w.arg('z', Z)))


def s_bounds(w, p, op):
    return p.get_eps_bounds()


GV = np.array([[0., 6.28, -6.28, 3.1, 12.5], [0., 0., 6.28, -7.7, 6.28]])


def s_ft(w, p, op):
    g = GV.copy()
    if op.get('gv'):
        g = np.array([[1e-170, 6.28, 1e-9, 3.1, 12.5, -1e-165], [1e-200, 0., 6.28, -7.7, 1e-13, 1e-170]])
    if op.get('gv') == 2:
        g = g[:, ::-1] * (1 + 1e-6)
    g = w.arg('gvec', g)
    return [l.compute_ft(g) for l in [p.claddings[0]] + p.layers + [p.claddings[1]]]


def s_avg(w, p, op):
    return [l.eps_avg for l in [p.claddings[0]] + p.layers + [p.claddings[1]]]


def s_desc(w, p, op):
    return w.struct_desc(p)


def s_repr(w, p, op):
    return repr(p)


def s_grid(w, p, op):
    return [p.lattice.xy_grid(Nx=4, Ny=3), p.z_grid(Nz=5)]


def s_path(w, p, op):
    pts = [np.array([0., 0.]), np.array([0.5, 0.2]), np.array([1., 1.5])]
    ns = [op.get('n', 2)]
    return p.lattice.bz_path(w.arg('pts', pts), w.arg('ns', ns), symm_g=w.arg('symm', [np.pi, 0]))


def s_viz(w, p, op):
    v = w.L.viz
    which = op.get('which', 0) % 5
    if which == 0:
        return viz_call(lambda: v.eps_xy(p, z=op.get('z', 0.1), Nx=5, Ny=5))
    if which == 1:
        return viz_call(lambda: v.eps_xz(p, Nx=5, Nz=5))
    if which == 2:
        return viz_call(lambda: v.shapes(p.layers[0]))
    if which == 3:
        return viz_call(lambda: v.eps(p.layers[-1], Nx=5, Ny=5))
    return viz_call(lambda: v.structure(p, Nx=4, Ny=4, Nz=4, cbar=False, xz=True))


def s_inside(w, p, op):
    x = w.arg('x', np.linspace(-0.5, 0.5, 7))
    y = w.arg('y', np.linspace(-0.4, 0.5, 7))
    return [s.is_inside(x, y) for l in p.layers for s in l.shapes]


SQUERY = dict(eps=s_eps, bounds=s_bounds, ft=s_ft, avg=s_avg, desc=s_desc, repr=s_repr,
              grid=s_grid, path=s_path, viz=s_viz, inside=s_inside)
