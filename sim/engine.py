"""Executes programs in pristine child processes.

The zygote has imported the library and executed nothing of it; every program
runs in its own fork, so a reference execution is by construction a fresh
process with fresh objects."""
import json
import os
import pickle
import select
import signal
import struct
import sys
from . import seams

TIMEOUT = float(os.environ.get('SIM_CHILD_TIMEOUT', '120'))


class HarnessError(Exception):
    pass


class Engine:
    def __init__(self, legume):
        self.L = legume
        self.memo = {}
        self.programs = 0
        self.memo_hits = 0
        self.sim_time = 0.
        self.clock_jumps = 0
        self.clock_reads = 0

    def exec(self, prog, memo=False, profile=None):
        """prog: dict(kind='world'|..., ops=[...], env={...}) -> result dict."""
        key = None
        if memo:
            key = json.dumps([prog, profile], sort_keys=True)
            if key in self.memo:
                self.memo_hits += 1
                return self.memo[key]
        r = self._fork(prog, profile)
        if key is not None:
            if len(self.memo) > 4000:
                self.memo.clear()
            self.memo[key] = r
        return r

    def _fork(self, prog, profile):
        if prog.get('env', {}).get('proc'):
            from . import variant
            self.programs += 1
            res = variant.run(prog, profile)
            self._account(res)
            return res
        rd, wr = os.pipe()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                os.setsid()
                data = pickle.dumps(self._child(prog, profile), protocol=5)
                data = struct.pack('<Q', len(data)) + data
                while data:
                    n = os.write(wr, data[:1 << 20])
                    data = data[n:]
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc(file=sys.__stderr__)
                sys.__stderr__.flush()
            finally:
                os._exit(code)
        os.close(wr)
        self.programs += 1
        buf = bytearray()
        t0 = seams.real_perf()
        hang = False
        while True:
            left = TIMEOUT - (seams.real_perf() - t0)
            if left <= 0:
                hang = True
                break
            r, _, _ = select.select([rd], [], [], left)
            if not r:
                hang = True
                break
            b = os.read(rd, 1 << 20)
            if not b:
                break
            buf += b
        os.close(rd)
        if hang:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            return {'hang': True}
        _, st = os.waitpid(pid, 0)
        if st != 0 or len(buf) < 8:
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE):
                return {'crash': os.WTERMSIG(st)}
            raise HarnessError(f'child failed, status {st}: {json.dumps(prog, default=str)[:2000]}')
        res = pickle.loads(bytes(buf[8:]))
        self._account(res)
        return res

    def _account(self, res):
        c = res.pop('clock', (0, 0, 0))
        self.sim_time += c[0]
        self.clock_jumps += c[1]
        self.clock_reads += c[2]

    def _child(self, prog, profile):
        env = prog.get('env', {})
        seams.clock.reset()
        seams.clock.mode = env.get('clock', 'steady')
        seams.console.reset()
        seams.install_console()
        seams.rng.reset(env.get('rng', 12345))
        seams.disk.reset()
        if env.get('heap') is not None:
            from . import variant
            self._heap = variant.heap(env['heap'])
        kind = prog.get('kind', 'world')
        if kind == 'world':
            from .world import World
            if env.get('print'):
                self.L.set_print_backend(env['print'])
            if env.get('backend'):
                self.L.set_backend(env['backend'])
            w = World(self.L, env)
            w.store = dict(prog.get('store') or {})
            res = w.run(prog['ops'], profile)
        elif kind == 'opt':
            from .optim import run_opt
            res = run_opt(self.L, prog)
        elif kind == 'crystal':
            from .crystal import run_crystal
            res = run_crystal(self.L, prog)
        elif kind == 'gds':
            from .gdsim import run_gds
            res = run_gds(self.L, prog)
        else:
            raise HarnessError(kind)
        res['clock'] = (seams.clock.span, seams.clock.jumps, seams.clock.reads)
        return res
