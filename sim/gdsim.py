"""GDS export programs on simulated storage, with an independent reader."""
import copy
import os
import pathlib
import shutil
import struct
import tempfile
import numpy as np
from . import seams
from .world import mk_struct, mk_lattice, enc
from . import crystal


# ------------------------------------------------------------------ reading GDSII
def real8(b):
    s = -1 if b[0] & 0x80 else 1
    e = (b[0] & 0x7f) - 64
    m = int.from_bytes(b[1:8], 'big') / 2 ** 56
    return s * m * 16. ** e


def parse(path):
    """dict(units, polys=[dict(layer, datatype, xy)], complete, error)."""
    out = dict(units=None, cells=[], polys=[], complete=False, error=None)
    try:
        with open(path, 'rb') as f:
            b = f.read()
    except OSError as e:
        out['error'] = type(e).__name__
        return out
    i = 0
    cur = None
    depth = 0
    while i < len(b):
        if i + 4 > len(b):
            out['error'] = 'torn record header'
            return out
        n, rt, dt = struct.unpack('>HBB', b[i:i + 4])
        if n < 4 or i + n > len(b):
            out['error'] = 'torn record'
            return out
        d = b[i + 4:i + n]
        i += n
        if rt == 0x03:
            out['units'] = [real8(d[:8]), real8(d[8:16])]
        elif rt == 0x06:
            out['cells'].append(d.rstrip(b'\0').decode('ascii', 'replace'))
            depth += 1
        elif rt == 0x07:
            depth -= 1
        elif rt == 0x08:
            cur = dict(layer=None, datatype=None, xy=None)
        elif rt == 0x0d and cur is not None:
            cur['layer'] = struct.unpack('>h', d)[0]
        elif rt == 0x0e and cur is not None:
            cur['datatype'] = struct.unpack('>h', d)[0]
        elif rt == 0x10 and cur is not None:
            cur['xy'] = np.array(struct.unpack(f'>{len(d) // 4}i', d), dtype=float).reshape(-1, 2)
        elif rt == 0x11 and cur is not None:
            out['polys'].append(cur)
            cur = None
        elif rt == 0x04:
            out['complete'] = depth == 0 and cur is None
            if any(b[i:]):
                out['error'] = 'data after the end'
            return out
    out['error'] = 'no end of library'
    return out


# ------------------------------------------------------------------ programs
def run_gds(L, prog):
    root = tempfile.mkdtemp(prefix='legume-sim-gds-')
    try:
        return _run(L, prog, root)
    finally:
        seams.disk.root = None
        seams.disk.plan = None
        shutil.rmtree(root)


def _run(L, prog, root):
    import legume.gds as gds
    seams.install_ids()
    from .compare import same
    from .world import World
    seams.disk.root = root
    w = World(L, {})
    out, argmut = [], []
    cache = {}
    held = []
    parts = {} if prog.get('share') else None
    here = os.getcwd()
    for i, st in enumerate(prog['steps']):
        path = os.path.join(root, st['file'])
        arg = pathlib.Path(path) if st.get('path') else path
        rec = {}
        if st.get('rel'):
            arg = type(arg)(st['file'])
        seams.disk.plan = None
        if os.path.isdir(path) != bool(st.get('dir')):
            if os.path.isdir(path):
                os.rmdir(path)
            else:
                if os.path.exists(path):
                    os.unlink(path)
                os.mkdir(path)
        if st.get('old') and not st.get('dir'):
            with seams._real_open(path, 'wb') as f:
                f.write(b'\x01' * st['old'])
        seams.disk.plan = st.get('disk')
        n0 = dict(seams.disk.fired)
        snap = []
        try:
            if st.get('rel'):
                os.chdir(root)
            kw = dict(st.get('kw', {}))
            if st['op'] == 'phc':
                key = str(st['spec'])
                if key not in cache or st.get('fresh'):
                    cache[key] = mk_struct(L, st['spec'], parts=parts)
                phc = cache[key]
                snap.append(('crystal', lambda: w.struct_desc(phc), w.struct_desc(phc)))
                gds.generate_gds(phc, arg, **kw)
            else:
                lat = mk_lattice(L, st['lat'])
                ras = raster(st['ras'])
                lv = kw.get('levels')
                snap.append(('raster', lambda: enc(ras), enc(ras)))
                if lv is not None:
                    lv = kw['levels'] = list(lv) if not np.isscalar(lv) else lv
                    snap.append(('levels', lambda: enc(lv), enc(lv)))
                snap.append(('lattice', lambda: enc(lat.a1), enc(lat.a1)))
                gds.generate_gds_raster(lat, ras, arg, **kw)
            rec['ok'] = True
        except BaseException as e:
            rec['exc'] = [type(e).__name__, str(e)[:200]]
            held.append(e) if st.get('hold') else None      # keeps the open file alive
        os.chdir(here)
        rec['fired'] = {k: v - n0.get(k, 0) for k, v in seams.disk.fired.items() if v > n0.get(k, 0)}
        if st.get('dir'):
            rec['fired']['directory of that name'] = 1
        if st.get('file', '').startswith('none/'):
            rec['fired']['no such directory'] = 1
        seams.disk.plan = None
        for l, f, s in snap:
            if not same(f(), s):
                argmut.append([i, l])
        if 'ok' in rec:
            rec['gds'] = parse(path)
        out.append(rec)
    return dict(result=out, argmut=argmut)


def raster(r):
    n1, n2 = r['n']
    x = np.linspace(-1, 1, n1)[:, None]
    y = np.linspace(-1, 1, n2)[None, :]
    out = np.zeros((n1, n2))
    for cx, cy, w in r['blobs']:
        out = out + np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / w ** 2)
    return out


# ------------------------------------------------------------------ the oracle
def q(u):
    """Resolution of the file in units of the crystal (1 nm database unit)."""
    return .51e-9 / u + 1e-9


def check_step(st, rec):
    """Violations of one step: list of (cls, msg)."""
    sup = st['op'] == 'ras' or all(s['t'] in ('circle', 'poly', 'square', 'hexagon')
                                   for l in st['spec']['layers'] for s in l['shapes'])
    fired = any(rec['fired'].values())
    if 'exc' in rec:
        if sup and not fired:
            return [('export-fails', f'{rec["exc"]}')]
        return []
    if not sup:
        return [('unsupported-shape-accepted', 'export returned normally')]
    g = rec['gds']
    if g['error'] or not g['complete']:
        return [('incomplete-file', f'export returned normally, file: {g["error"] or "incomplete"}; faults {rec["fired"]}')]
    kw = st.get('kw', {})
    unit = kw.get('unit', 1e-6)
    tol = kw.get('tolerance', .01)
    if g['units'] is None or abs(g['units'][1] - 1e-9) > 1e-12 * 1e-9 + 1e-15 or \
            abs(g['units'][0] * unit / 1e-9 - 1) > 1e-9:
        # database unit in metres over the user unit must give the unit asked for
        if g['units'] is None or abs(g['units'][1] / g['units'][0] / unit - 1) > 1e-9:
            return [('wrong-unit', f'{g["units"]} for unit {unit}')]
    scale = g['units'][0]
    # a nanometre, or better; a coarser file does not hold the shapes
    dq = .51 * min(scale, 1e-9 / unit) + 1e-9
    polys = [dict(layer=p['layer'], dt=p['datatype'], v=p['xy'] * scale) for p in g['polys']]
    for p in polys:
        if len(p['v']) and np.allclose(p['v'][0], p['v'][-1]):
            p['v'] = p['v'][:-1]
    if len(g['cells']) != 1:
        return [('wrong-cells', f'{g["cells"]}')]
    if st['op'] == 'phc':
        return check_shapes(st['spec'], polys, dq, tol)
    return check_raster(st, polys, dq)


def seg_dist(p, v):
    """Distance of every point of p to the closed outline v."""
    a, b = v, np.roll(v, -1, axis=0)
    e = b - a
    l2 = np.maximum(np.sum(e * e, axis=1), 1e-300)
    u = np.clip(np.sum((p[:, None, :] - a[None]) * e[None], axis=2) / l2[None], 0, 1)
    d = p[:, None, :] - a[None] - u[:, :, None] * e[None]
    return np.min(np.hypot(d[..., 0], d[..., 1]), axis=1)


def match_poly(v, ref, dq):
    """The same polygon: the same vertices (any starting point and direction,
    repeated ones ignored) joined by the same edges."""
    a, b = np.asarray(v, dtype=float).reshape(-1, 2), np.asarray(ref, dtype=float).reshape(-1, 2)
    if len(a) == 0 or len(b) == 0:
        return len(a) == len(b)
    d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
    if np.max(np.min(d, axis=0)) > 2 * dq or np.max(np.min(d, axis=1)) > 2 * dq:
        return False
    for x, y in ((a, b), (b, a)):
        mid = (x + np.roll(x, -1, axis=0)) / 2
        if np.max(seg_dist(mid, y)) > 4 * dq:
            return False
    per = np.sum(np.hypot(*(b - np.roll(b, -1, axis=0)).T))
    return abs(parea(a) - parea(b)) <= 4 * dq * per + 1e-12


def parea(v):
    x, y = v[:, 0], v[:, 1]
    return abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2


def check_circle(s, ps, dq, tol):
    """The union of ps (pieces of one circle) is the circle within tolerance."""
    c = np.array([s['x'], s['y']])
    t = max(tol, 0) + 3 * dq
    A = sum(parea(p['v']) for p in ps)
    per = 2 * np.pi * s['r']
    if not (abs(A - np.pi * s['r'] ** 2) <= t * per * 1.05 + dq * per):
        return f'area {A} instead of {np.pi * s["r"] ** 2}'
    rmax = max(np.max(np.hypot(*(p['v'] - c).T)) for p in ps)
    if abs(rmax - s['r']) > t:
        return f'largest radius {rmax} instead of {s["r"]}'
    return None


def check_shapes(spec, polys, dq, tol):
    out = []
    used = [False] * len(polys)
    for i, l in enumerate(spec['layers']):
        for s in l['shapes']:
            if s['t'] == 'circle':
                continue
            ref = crystal.verts(s)
            for j, p in enumerate(polys):
                if not used[j] and p['layer'] == i and match_poly(p['v'], ref, dq):
                    used[j] = True
                    break
            else:
                out.append(('shape-missing', f'{s["t"]} of layer {i} is not in the file with its vertices'))
        # circles: the remaining polygons of the layer, grouped by containment in the circle
    for i, l in enumerate(spec['layers']):
        for s in l['shapes']:
            if s['t'] != 'circle':
                continue
            c = np.array([s['x'], s['y']])
            mine = [j for j, p in enumerate(polys) if not used[j] and p['layer'] == i and
                    np.max(np.hypot(*(p['v'] - c).T)) <= s['r'] + max(tol, 0) + 3 * dq]
            # equal or nested circles: one outline at a time, largest first
            whole = [j for j in mine if check_circle(s, [polys[j]], dq, tol) is None]
            pick = whole[:1] or mine
            if not pick:
                out.append(('shape-missing', f'circle of layer {i} at {s["x"], s["y"]} is not in the file'))
                continue
            e = check_circle(s, [polys[j] for j in pick], dq, tol)
            if e:
                out.append(('circle-wrong', f'circle of layer {i}, r = {s["r"]}: {e}'))
            for j in pick:
                used[j] = True
    rest = [p['layer'] for p, u in zip(polys, used) if not u]
    if rest:
        out.append(('extra-shapes', f'{len(rest)} polygons on layers {sorted(set(rest))} belong to no shape of the crystal'))
    return out


def check_raster(st, polys, dq):
    from skimage.measure import find_contours
    ras = raster(st['ras'])
    kw = st.get('kw', {})
    lv = kw.get('levels', .5)
    a1, a2 = crystal.lat_vectors(st['lat'])
    T = np.array([a1, a2]).T
    want = []
    for x in np.atleast_1d(lv):
        for c in find_contours(ras, x):
            f = c / (np.array(ras.shape) - 1.) - .5
            want.append(f @ T.T)
    out = []
    used = [False] * len(polys)
    for n, w in enumerate(want):
        for j, p in enumerate(polys):
            if not used[j] and p['dt'] == 0 and match_poly(p['v'], w, dq):
                used[j] = True
                break
        else:
            out.append(('contour-missing', f'contour {n} of {len(want)} is not in the file'))
    if kw.get('cell_bound', True):
        b = np.array([[-.5, -.5], [-.5, .5], [.5, .5], [.5, -.5]]) @ T.T
        for j, p in enumerate(polys):
            if not used[j] and p['dt'] == 1 and match_poly(p['v'], b, dq):
                used[j] = True
                break
        else:
            out.append(('cell-missing', 'the boundary of the unit cell is not in the file'))
    if not all(used):
        out.append(('extra-shapes', f'{used.count(False)} polygons belong to no contour'))
    return out


# ------------------------------------------------------------------ generation
POS = [(-.3, -.28), (.28, .26), (-.26, .3), (.3, -.27), (0., 0.)]


def gen_spec(g, bad=.12):
    sp = g.struct(clad=False)
    sp.pop('eff', None)
    sp['qws'] = []
    for _ in range(g.pick(0, 0, 1, 2)):
        sp['layers'].append(g.layer(nsh=0))
    if g.flip(.1):
        for l in sp['layers']:
            if g.flip(.7):
                l['d'] = 0.
    for l in sp['layers']:
        l['shapes'] = []
        for j in range(g.pick(0, 1, 2, 3, 5)):
            s = g.shape(small=True, kinds=['circle', 'circle', 'poly', 'square', 'hexagon'])
            if 'r' in s:
                s['r'] = round(s['r'] * g.pick(1., .8, .3), 4)
            g.shift(s, POS[j])
            l['shapes'].append(s)
    if len(sp['layers']) > 1 and g.flip(.3):
        # the same shape in several layers, or twice in one
        l = g.r.choice(sp['layers'])
        if l['shapes']:
            s = g.r.choice(l['shapes'])
            for m in g.r.sample(sp['layers'], g.r.randint(1, len(sp['layers']))):
                m['shapes'].insert(g.r.randint(0, len(m['shapes'])), copy.deepcopy(s))
    if g.flip(bad):
        l = g.r.choice(sp['layers'])
        l['shapes'].insert(g.r.randint(0, len(l['shapes'])), g.shape(kinds=['ellipse', 'fourier']))
    return sp


def gen_gds(g, faults=True):
    specs = [gen_spec(g)]
    if g.flip(.7):
        specs.append(g.mutate_struct(specs[0]))
    if g.flip(.5):
        specs.append(gen_spec(g))
    steps = []
    for _ in range(g.r.randint(1, 5)):
        st = dict(file=g.pick('a.gds', 'a.gds', 'b.gds'))
        if g.flip(.65):
            st.update(op='phc', spec=g.pick(*specs), fresh=g.flip(.3))
            kw = {}
            if g.flip(.4):
                kw['unit'] = g.pick(1e-6, 1e-7, 4e-7, 1e-3)
            if g.flip(.4):
                kw['tolerance'] = g.pick(.01, .001, .0001, .02)
            st['kw'] = kw
        else:
            n = g.pick(5, 9, 14)
            st.update(op='ras', lat=g.pick(['square'], ['hexagonal'], ['vec', [1., 0.], [.3, .9]]),
                      ras=dict(n=[n, n if g.flip(.6) else n + 3],
                               blobs=[[g.num(-.5, .5), g.num(-.5, .5), g.pick(.3, .5)] for _ in range(g.pick(1, 2))]))
            kw = {}
            if g.flip(.5):
                kw['levels'] = g.pick([.5], [.3, .7], [.31, .52, .8], .4)
            if g.flip(.4):
                kw['cell_bound'] = g.pick(True, False)
            if g.flip(.3):
                kw['unit'] = g.pick(1e-7, 4e-7)
            st['kw'] = kw
        if g.flip(.25):
            st['path'] = True
        if g.flip(.2):
            st['rel'] = True
        if g.flip(.25):
            st['old'] = g.pick(10, 5000, 40000)
        if faults and g.flip(.45):
            st['disk'] = dict(kind=g.pick('open', 'nospc', 'nospc', 'eio', 'short', 'close', 'flush', 'move'),
                              at=g.pick(0, 1, 50, 160, 300, 700, g.r.randrange(1500)))
            if st['disk']['kind'] == 'eio':
                st['disk']['at'] = g.pick(0, 0, 1)
            st['hold'] = g.flip(.3)
        elif faults and g.flip(.08):
            # the name cannot be written to
            if g.flip():
                st['dir'] = True
            else:
                st['file'] = 'none/a.gds'
                st.pop('old', None)
        steps.append(st)
        if ('disk' in st or 'dir' in st) and g.flip(.7):
            st2 = copy.deepcopy(st)
            for k in ('disk', 'old', 'hold', 'dir'):
                st2.pop(k, None)
            steps.append(st2)
    return dict(steps=steps, share=g.flip(.4))
