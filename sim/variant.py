"""Processes of another kind: other hash seed, other memory layout, other
interpreter options, packages missing.  Each is a zygote of its own, started
once, that executes programs in forks as the Engine does."""
import ctypes
import json
import os
import pickle
import random
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PERSIST = {}
MAX = 6


def _fixed_addresses():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def key(spec):
    return json.dumps(spec, sort_keys=True)


class Variant:
    def __init__(self, spec):
        self.spec = spec
        self.owner = os.getpid()
        env = dict(os.environ, PYTHONHASHSEED=str(spec.get('hash', 0)))
        env['SIM_BLOCK'] = ','.join(spec.get('block', ()))
        env['SIM_BLOCK_HOW'] = spec.get('how', 'module')
        env['PYTHONPATH'] = VERIF
        env.update(spec.get('environ', {}))
        cmd = [sys.executable] + list(spec.get('flags', ())) + ['-m', 'sim.variant']
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=VERIF,
                                  preexec_fn=_fixed_addresses)

    def exec(self, prog, profile):
        send(self.p.stdin, (prog, profile))
        st, r = recv(self.p.stdout)
        if st != 'ok':
            from .engine import HarnessError
            raise HarnessError(r)
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def send(f, x):
    b = pickle.dumps(x, protocol=5)
    f.write(struct.pack('<Q', len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    n = struct.unpack('<Q', h)[0]
    b = f.read(n)
    if len(b) < n:
        raise EOFError
    return pickle.loads(b)


def get(spec):
    k = key(spec)
    v = PERSIST.get(k)
    if v is not None and v.owner != os.getpid():
        PERSIST.clear()            # inherited from another process
        v = None
    if v is None:
        if len(PERSIST) >= MAX:
            PERSIST.pop(next(iter(PERSIST))).close()
        v = PERSIST[k] = Variant(spec)
    return v


def drop(spec):
    v = PERSIST.pop(key(spec), None)
    if v:
        v.p.kill()


def run(prog, profile=None):
    spec = {k: v for k, v in prog['env']['proc'].items()}
    p = dict(prog, env={k: v for k, v in prog['env'].items() if k != 'proc'})
    try:
        return get(spec).exec(p, profile)
    except (EOFError, BrokenPipeError):
        drop(spec)
        return get(spec).exec(p, profile)


class Blocker:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if any(name == n or name.startswith(n + '.') for n in self.names):
            how = os.environ.get('SIM_BLOCK_HOW')
            if how == 'plain':
                raise ImportError('DLL load failed (simulated)')
            if how == 'name':
                raise ImportError(f'cannot import name of {name!r} (simulated)', name=name, path='/simulated')
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        return None


def heap(seed):
    """Leaves the allocators in another state."""
    r = random.Random(seed)
    junk = []
    for _ in range(r.randrange(2000, 20000)):
        junk.append(_junk(r))
    r.shuffle(junk)
    del junk[:len(junk) // 2]
    return junk


def _junk(r):
    c = r.randrange(7)
    if c == 0:
        return object()
    if c == 1:
        return [0] * r.randrange(1, 40)
    if c == 2:
        return dict(a=1)
    if c == 3:
        return {1, 2}
    if c == 4:
        return bytearray(r.randrange(1, 700))
    if c == 5:
        return (r.random(),)
    return Blocker(())


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    inp = os.fdopen(os.dup(0), 'rb')
    os.close(0)
    os.open('/dev/null', os.O_RDONLY)
    names = [n for n in os.environ.pop('SIM_BLOCK', '').split(',') if n]
    if names:
        sys.meta_path.insert(0, Blocker(names))
    from sim import boot
    from sim.engine import Engine
    try:
        eng = Engine(boot.load(optional=names))
    except BaseException as e:
        err = ('load', f'{type(e).__name__}: {e}')
    else:
        err = None
    while True:
        try:
            prog, profile = recv(inp)
        except EOFError:
            return
        if err:
            send(out, ('ok', dict(noload=err[1])))
            continue
        try:
            t = (eng.sim_time, eng.clock_jumps, eng.clock_reads)
            r = eng._fork(prog, profile)
            r['clock'] = (eng.sim_time - t[0], eng.clock_jumps - t[1], eng.clock_reads - t[2])
            send(out, ('ok', r))
        except Exception as e:
            send(out, ('error', f'{type(e).__name__}: {e}'[:3000]))


if __name__ == '__main__':
    main()
