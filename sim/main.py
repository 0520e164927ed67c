"""Entry point.

  main.py check ID [quick|thorough]     explore; exit 0 / 1 (VIOLATION) / 2 (harness)
  main.py replay FILE                   re-execute a replay file
  main.py determinism [N]               run the same seeds twice in different set-ups
"""
import collections
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys
import time as _time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import boot, seams                                    # noqa: E402

VERIF = boot.VERIF
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def load_all():
    L = boot.load()
    from sim import checks
    for m in ('checks2', 'checks3', 'checks4', 'checks5'):
        if os.path.exists(os.path.join(VERIF, 'sim', m + '.py')):
            __import__('sim.' + m)
    return L, checks


def ncpu():
    return len(os.sched_getaffinity(0))


def gen_history(C, seed, pid, i):
    from sim.gen import G
    return C.gen(G(random.Random(f'{seed}/{pid}/{i}')))


def sighash(parts):
    return hashlib.sha1('\n'.join(map(str, parts)).encode()).hexdigest()[:16]


def eventlog(h, v, info):
    return sighash([json.dumps(h, sort_keys=True, default=str), json.dumps(v, sort_keys=True, default=str),
                    json.dumps(info, sort_keys=True, default=str)])


def strip(h):
    return {k: v for k, v in h.items() if k != 'concrete'}


def worker(L, C, pid, seed, idxs, deadline, stopfd, out):
    from sim.engine import Engine
    eng = Engine(L)
    res = dict(n=0, viol=[], errors=[], fired=collections.Counter(), sites=set(), probes=collections.Counter(),
               sigs=set(), nontrivial=0, compared=0, samples=[], logs={}, stopped=False, extra=collections.Counter())
    for i in idxs:
        if seams.real_perf() > deadline:
            res['stopped'] = True
            break
        try:
            h = gen_history(C, seed, pid, i)
            h0 = json.dumps(h, sort_keys=True)
            v, info = C.evaluate(h, eng)
        except Exception:
            res['errors'].append([i, traceback.format_exc()])
            if len(res['errors']) > 2:
                break
            continue
        res['n'] += 1
        res['fired'].update(info['fired'])
        res['sites'].update(info['sites'])
        res['probes'].update(info['probes'])
        res['compared'] += info['compared']
        res['extra'].update(info.get('extra', {}))
        if info['nontrivial']:
            s = sighash(info['sig'])
            if s not in res['sigs']:
                res['sigs'].add(s)
            res['nontrivial'] += 1
        res['logs'][i] = eventlog(json.loads(h0), v, info)
        if len(res['samples']) < 2 and info['nontrivial']:
            res['samples'].append(dict(index=i, ops=[str(x)[:160] for x in info['sig'][:14]], fired=info['fired']))
        if v:
            res['viol'].append((i, h, v))
            if len(res['viol']) >= 2:
                break
    res['programs'], res['memo'] = eng.programs, eng.memo_hits
    res['sim_time'], res['jumps'], res['reads'] = eng.sim_time, eng.clock_jumps, eng.clock_reads
    os.write(out, pickle.dumps(res))
    os._exit(0)


def explore(L, C, pid, seed, n, nproc, budget):
    deadline = seams.real_perf() + budget
    kids = []
    for w in range(nproc):
        f = os.path.join(scratch(), f'w{w}')
        fd = os.open(f, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        sys.stdout.flush()
        sys.stderr.flush()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                worker(L, C, pid, seed, range(w, n, nproc), deadline, None, fd)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        kids.append((pid_, fd, f))
    tot = None
    bad = []
    for p, fd, f in kids:
        _, st = os.waitpid(p, 0)
        data = b''
        os.lseek(fd, 0, 0)
        while True:
            b = os.read(fd, 1 << 22)
            if not b:
                break
            data += b
        os.close(fd)
        os.unlink(f)
        if st != 0 or not data:
            bad.append(f'worker ended with status {st}')
            continue
        r = pickle.loads(data)
        if tot is None:
            tot = r
        else:
            for k in ('n', 'compared', 'nontrivial', 'programs', 'memo', 'sim_time', 'jumps', 'reads'):
                tot[k] += r[k]
            for k in ('viol', 'errors', 'samples'):
                tot[k] += r[k]
            for k in ('fired', 'probes', 'extra'):
                tot[k].update(r[k])
            for k in ('sites', 'sigs'):
                tot[k] |= r[k]
            tot['logs'].update(r['logs'])
            tot['stopped'] |= r['stopped']
    return tot, bad


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import tempfile
        _scratch = tempfile.mkdtemp(prefix='legume-sim-')
        me = os.getpid()
        import atexit
        import shutil

        def clean():
            if os.getpid() == me:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def known():
    """Lines 'finding: property=<id> cls=<violation class> where=<text>'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].strip().split(' ', 2))
                out.append((d['property'], d['cls'], d['where'].strip()))
    return out


def write_replay(pid, seed, i, h, v, note):
    os.makedirs(REPLAYS, exist_ok=True)
    h = dict(h)
    h.pop('concrete', None)
    path = os.path.join(REPLAYS, f'{pid}-{seed}-{i}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, seed=seed, index=i, history=h, violation=v[:5], note=note), f, indent=1)
    return path


def confirm(path):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), 'replay', path], capture_output=True, text=True)
    return r.returncode == 1, r.stdout + r.stderr


def cmd_check(pid, tier):
    t0 = seams.real_perf()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    L, checks = load_all()
    C = checks.CHECKS[pid]
    n = int(os.environ.get('SIM_N', C.n[tier]))
    budget = float(os.environ.get('SIM_BUDGET', 560 if tier == 'quick' else 6 * 3600))
    print(f'{pid} {tier}: seed {seed}, {n} histories, {ncpu()} workers, repository {boot.REPO}', flush=True)
    tot, bad = explore(L, C, pid, seed, n, min(ncpu(), n), budget)
    wall = seams.real_perf() - t0
    if tot is None:
        print('HARNESS ERROR', bad)
        return 2
    for i, tb in sorted(tot['errors'])[:3]:
        print(f'HARNESS ERROR history {i}:\n{tb}')
    viol = sorted(tot['viol'], key=lambda x: x[0])
    kn = known()
    fresh, seen = [], set()
    for i, h, v in viol:
        lst = []
        for x in v:
            k = [w for p, c, w in kn if p == pid and c == x['cls'] and w in x['msg']]
            if k:
                if k[0] not in seen:
                    seen.add(k[0])
                    print(f'KNOWN-FINDING: property={pid} {k[0]}')
            else:
                lst.append(x)
        if lst:
            fresh.append((i, h, lst))
    code = 0
    reported = []
    done = set()
    for i, h, v in fresh:
        if v[0]['cls'] in done or len(done) >= 2:
            continue
        done.add(v[0]['cls'])
        from sim.shrink import shrink
        from sim.engine import Engine
        eng = Engine(L)
        hc = strip(h)
        if 'concrete' in h:
            hc = dict(hc, ops=h['concrete'])
        small, sv = shrink(C, eng, hc, v, budget=45 if tier == 'quick' else 300)
        path = write_replay(pid, seed, i, small, sv, 'minimised')
        ok, txt = confirm(path)
        if not ok:
            path = write_replay(pid, seed, i, strip(h), v, 'not minimised')
            ok, txt = confirm(path)
        if not ok:
            print(f'HARNESS ERROR: violation of history {i} does not replay: {v[0]}\n{txt[-2000:]}')
            code = 2
            continue
        print(f'VIOLATION property={pid} replay={path}')
        for x in sv[:3]:
            print('   ', x['cls'], '-', x['msg'][:600])
        reported.append(path)
    if reported:
        code = 1
    elif code == 0 and (tot['errors'] or bad):
        print('HARNESS ERROR', bad, len(tot['errors']), 'histories failed in the harness')
        code = 2
    elif code == 0 and tot['stopped'] and tot['n'] < n // 4:
        print(f"HARNESS ERROR: time budget used up after {tot['n']} of {n} histories")
        code = 2
    ev = dict(property=pid, tier=tier, level='exploration', seed=seed,
              wall_s=round(wall, 1),
              coverage=dict(
                  evaluations=tot['n'], distinct_nontrivial=len(tot['sigs']), rule=C.rule,
                  samples=[json.dumps(s)[:1500] for s in tot['samples'][:3]],
                  simulated_programs=tot['programs'], reference_memo_hits=tot['memo'],
                  comparisons_with_reference=tot['compared'],
                  runs_per_hour=round(tot['programs'] / wall * 3600), seeds_per_hour=round(tot['n'] / wall * 3600),
                  simulated_seconds=round(tot['sim_time'], 1), clock_jumps=tot['jumps'], clock_reads=tot['reads'],
                  faults_fired=dict(sorted(tot['fired'].items())), distinct_fault_sites=len(tot['sites']),
                  probes=dict(sorted(tot['probes'].items())), extra=dict(sorted(tot['extra'].items())),
                  distinct_measure='SHA-1 of the operation, option, fault-site and schedule trace of a history',
                  nontrivial_histories=tot['nontrivial'],
                  real_components=list(C.real), stubbed_components=list(C.stub),
                  stopped_by_time_budget=bool(tot['stopped']), planned=n),
              violations=len(reported), known_findings=sorted(seen))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {tot['n']} histories ({len(tot['sigs'])} distinct non-trivial), {tot['programs']} programs, "
          f"{tot['compared']} comparisons, faults fired {sum(tot['fired'].values())}, {wall:.0f} s -> exit {code}")
    return code


def cmd_replay(path):
    d = json.load(open(path))
    L, checks = load_all()
    from sim.engine import Engine
    C = checks.CHECKS[d['property']]
    v, info = C.evaluate(d['history'], Engine(L))
    want = d['violation'][0]['cls']
    for x in v:
        print(x['cls'], '-', x['msg'])
    if any(x['cls'] == want for x in v):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print('the replay file does not fail')
    return 0


def cmd_logs(pid, seed, n, nproc):
    L, checks = load_all()
    tot, bad = explore(L, checks.CHECKS[pid], pid, seed, n, nproc, 3600)
    print(json.dumps(dict(logs={str(k): v for k, v in sorted(tot['logs'].items())}, bad=bad,
                          errors=tot['errors'][:1])))
    return 0


def cmd_determinism(n, ids):
    """Each history several times: other worker counts, other hash seeds."""
    rc = 0
    for pid in ids:
        ref = None
        for nproc, hs in ((8, '0'), (3, '1'), (1 if n <= 16 else 5, '12345'), (8, '0')):
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'logs', pid, '77', str(n), str(nproc)],
                               capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs))
            try:
                d = json.loads(r.stdout.splitlines()[-1])
            except Exception:
                print(pid, 'failed', r.stdout[-500:], r.stderr[-1500:])
                rc = 2
                continue
            if ref is None:
                ref = d['logs']
            diff = [k for k in ref if d['logs'].get(k) != ref[k]]
            if diff or d['bad'] or d['errors']:
                rc = 2
            print(pid, f'workers {nproc} hashseed {hs}:', len(d['logs']), 'histories,', len(diff), 'differ', diff[:5], d['bad'], d['errors'], flush=True)
    return rc


def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'check':
            return cmd_check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))
        if a[0] == 'replay':
            return cmd_replay(a[1])
        if a[0] == 'logs':
            return cmd_logs(a[1], int(a[2]), int(a[3]), int(a[4]))
        if a[0] == 'determinism':
            return cmd_determinism(int(a[1]), a[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
