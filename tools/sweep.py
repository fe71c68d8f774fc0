#!/usr/bin/env python3
"""sweep.py ENTRY k=v[,v...]... [-t S] [-v]   (development) explores a harness over a grid of parameters"""
import sys, os, itertools, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check as C
a = sys.argv[1:]; entry = a[0]; t = 30; verbose = False; grid = [{}]
i = 1
while i < len(a):
    if a[i] == '-t': t = float(a[i + 1]); i += 2; continue
    if a[i] == '-v': verbose = True; i += 1; continue
    k, v = a[i].split('='); vs = []
    for x in v.split(','):
        if '..' in x: lo, hi = x.split('..'); vs += range(int(lo), int(hi) + 1)
        else: vs.append(int(x))
    grid = [dict(g, **{k: x}) for g in grid for x in vs]; i += 1
h = C.Harness(C.harness_of(entry), [entry])
try:
    with cf.ThreadPoolExecutor(2) as ex: f = ex.submit(C.vb.build_engine); h.link(); vsym = f.result()
    h.nat()
except C.vb.BuildError as e: print(*[l for l in str(e).split('\n') if 'error' in l][:12], sep='\n'); sys.exit(2)
def one(ix):
    p = grid[ix]
    return C.run_engine(vsym, h.bc, entry, p, 1 if len(grid) >= 8 else max(1, 8 // len(grid)), t, ['--samples', '2', '--cross', '50'], '/tmp/sweep-%d-%d.json' % (os.getpid(), ix))
with cf.ThreadPoolExecutor(min(8, len(grid))) as ex: R = list(ex.map(one, range(len(grid))))
seen = {}; inc = []; paths = 0; slow = []; bad = 0; mism = []
for p, r in zip(grid, R):
    if 'crash' in r: print('CRASH', p, r['stderr'][-300:]); continue
    paths += r['paths']; slow.append((r['wall'], p))
    if r['incomplete']: inc.append((p, str(r['incomplete'])[:150]))
    if 'end' not in r['reach'] and not r['errors']: inc.append((p, 'end not reached'))
    for e in r['errors']:
        bad += 1; k = (e['kind'], e['label'] if e['kind'] == 'assert' else e['where'][:120])
        seen.setdefault(k, []).append((p, e))
    for s in r['samples'][:2]:
        rc, out, err = C.run_native(h.bin, entry, s['input'], p)
        if not (rc == 0 and C.obs_of(out) == s['obs']): mism.append((p, s, rc, out))
slow.sort(key=lambda x: -x[0])
print('%d runs, %d paths, %d kinds of error, %d incomplete, total %.0fs; slowest %s' % (len(grid), paths, len(seen), len(inc), sum(s[0] for s in slow), [('%.1f' % w, p) for w, p in slow[:3]]))
for p, x in inc[:4]: print('INCOMPLETE', p, x)
def txt(o):
    r = ''
    for q in o.split(';'):
        if '=' in q:
            k, v = q.split('=', 1)
            try: r += '%s=%r ' % (k, bytes.fromhex(v))
            except ValueError: r += q
    return r
for k, l in list(seen.items())[:8]:
    p, e = min(l, key=lambda x: len(x[1]['input']))
    ok, rc, t_ = C.confirm(h, {'entry': entry, 'params': p}, e)
    print('ERROR', k, 'in %d runs;' % len(l), p, 'input', e['input'], 'REPRODUCED' if ok else 'NOT REPRODUCED %s' % rc)
    print('     ', txt(C.obs_of(t_))[:400])
    if verbose or not ok: print(e['stack'][:600]); print(t_[-600:])
for p, s, rc, out in mism[:3]: print('MISMATCH', p, s['input'], rc, out[:300], s['obs'][:200])
if len(sys.argv) and os.environ.get('KEYS'):
    for k, l in seen.items(): print(k, sorted(set(tuple(p.get(x) for x in os.environ['KEYS'].split(',')) for p, e in l)))
