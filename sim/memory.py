"""Repeats a cycle of operations and measures what stays behind."""
import copy
import gc
import logging
import os
import sys
import threading
import types
import weakref
import numpy as np


def reachable(roots):
    """Size of everything reachable: elements of containers, bytes of arrays."""
    seen, stack, total = set(), list(roots), 0
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType):
            continue
        if isinstance(x, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType)) and \
                not (getattr(x, '__module__', None) or '').startswith('legume'):
            continue
        if isinstance(x, types.FrameType):
            continue
        if isinstance(x, np.ndarray):
            total += x.nbytes
            if x.dtype != object:
                continue
        elif isinstance(x, (str, bytes, bytearray)):
            total += len(x)
            continue
        elif isinstance(x, (list, tuple, dict, set, frozenset)):
            total += 8 * len(x)
        stack += gc.get_referents(x)
    return total


def library():
    """Global state of the library."""
    out = []
    for name, m in sorted(sys.modules.items()):
        if name == 'legume' or name.startswith('legume.'):
            out.append({k: v for k, v in vars(m).items() if k not in ('__builtins__', '__warningregistry__')})
    out.append(list(__import__("warnings").filters))
    out.append([x.handlers for x in [logging.root] + [v for v in logging.root.manager.loggerDict.values()
                                                      if isinstance(v, logging.Logger)]])
    return out


def varied(ops, c):
    ops = copy.deepcopy(ops)
    for o in ops:
        if o['op'] == 'struct':
            for l in o['spec']['layers']:
                l['d'] = l['d'] + 1e-4 * c
        if o['op'] == 'run' and not o.get('ang'):
            o['k'] = [[x + 1e-4 * c for x in r] for r in o['k']]
        if o['op'] == 'grad':
            o['of']['p'] = [x + 1e-5 * c for x in o['of']['p']]
    return ops


def cycle(world, op):
    import matplotlib.pyplot as plt
    from . import compare
    from .checks import diff_obs
    from .world import World
    n = op['n']
    meas = dict(size=[0] * n, objects=[0] * n, files=[0] * n, threads=[0] * n)
    alive, fired, odd, made = [], {}, [], 0
    first = None
    clean = not any('fault' in o for o in op['ops'])
    for c in range(n):
        ops = varied(op['ops'], c) if op['vary'] else op['ops']
        if op['fresh']:
            w = World(world.L, {k: v for k, v in world.env.items()})
            w.mon = world.mon
        else:
            w = world
        obs = []
        refs = []
        for i, o in enumerate(ops):
            ob = w.step(i, o)
            if not op['fresh'] and o['op'] == 'mk' and 'exc' not in ob and o['id'] in w.engines:
                refs.append((o['kind'] + ' of a crystal that lives on', weakref.ref(w.engines[o['id']][1])))
            if ob.get('fired'):
                k = (o['fault']['exc'], str(ob['fired']))
                fired[k] = fired.get(k, 0) + 1
            obs.append(ob)
        if first is None:
            first = obs
        elif not op['vary'] and len(odd) < 1:
            for i, (o, a, b) in enumerate(zip(ops, obs, first)):
                if o['op'] not in ('run', 'q', 'sq') or 'fault' in o or (o['op'] == 'q' and not clean):
                    continue
                if o['op'] == 'q' and o['q'] in ('state', 'im'):
                    continue
                d = diff_obs(a, b, o, states=False)
                if not d and o['op'] == 'run' and 'exc' not in a:
                    d = compare.diff_state(a['state'], b['state'], gauge=True)
                    if not d and not compare.same(a['state'], b['state']):
                        break       # rounding: later queries are not comparable
                if d:
                    odd.append(f'repetition {c}, operation {i}: {d}')
                    break
        if op['fresh']:
            for kind, x in w.engines.values():
                refs.append((type(x).__name__, weakref.ref(x)))
            for p in w.structs.values():
                refs.append((type(p).__name__, weakref.ref(p)))
            x = p = None
        w._args, w.kept = [], []
        w.last_sim = w.mn = None
        w = obs = ob = a = b = None
        plt.close('all')
        gc.collect()
        made += len(refs)
        alive += [k for k, r in refs if r() is not None]
        refs = None
        roots = library() + ([] if op['fresh'] else [o for _, o in world.engines.values()] +
                             list(world.structs.values()))
        meas['size'][c] = reachable(roots)
        roots = None
        gc.collect()
        meas['objects'][c] = len(gc.get_objects())
        meas['files'][c] = len(os.listdir('/proc/self/fd'))
        meas['threads'][c] = threading.active_count()
    return dict(meas, alive=alive, fired=[[k[0], k[1], v] for k, v in fired.items()], odd=odd, made=made)
