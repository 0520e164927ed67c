import sys, random, time, json, collections
sys.path.insert(0, '/verif')
from sim import boot
L = boot.load()
from sim import engine, checks, gen, seams
for m in ('checks2', 'checks3', 'checks4', 'checks5'):
    try: __import__('sim.' + m)
    except ImportError as e: print(e)
pid = sys.argv[1]; a, b = int(sys.argv[2]), int(sys.argv[3])
C = checks.CHECKS[pid]
eng = engine.Engine(L)
t0 = seams.real_perf()
pr = collections.Counter(); fi = collections.Counter()
for i in range(a, b):
    g = gen.G(random.Random(f'1/{pid}/{i}'))
    h = C.gen(g)
    v, info = C.evaluate(h, eng)
    pr.update(info['probes']); fi.update(info['fired'])
    if v:
        print(i, v[:3])
        json.dump(h, open(f'/tmp/h_{pid}_{i}.json', 'w'))
print(pid, b - a, 'histories', round(seams.real_perf() - t0, 1), 's', eng.programs, 'programs', eng.memo_hits, 'memo hits')
print(dict(pr)); print(dict(fi))
