#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's current tree
   check.py --entry ENTRY [k=v ...] [-t S] [-j N]  (development) explore one harness and print the result
   check.py --replay FILE                          run one recorded counterexample natively
   check.py --hints                                rewrite harness/hints.json"""
import sys, os, json, time, subprocess, threading, re, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vbuild as vb
from props import PROPS, HARNESSES

V = vb.VERIF
NC = vb.NCPU

def run_engine(vsym, bc, entry, params, jobs, tmax, opts, out):
    cmd = [vsym, bc, entry, '-j', str(jobs), '-t', str(tmax), '-o', out] + opts
    for k, v in params.items(): cmd += ['-p', '%s=%d' % (k, v)]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out):
        return {'crash': p.returncode, 'stderr': p.stderr.decode(errors='replace')[-3000:], 'wall': time.time() - t}
    r = json.load(open(out)); r['stderr'] = p.stderr.decode(errors='replace')[-500:]; os.unlink(out)
    return r

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=78', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PATH': os.environ.get('PATH', '')}
def run_native(binary, entry, hexin, params, timeout=20, valgrind=False):
    cmd = (['valgrind', '-q', '--error-exitcode=45', '--leak-check=no'] if valgrind else []) + [binary, entry, hexin] + ['%s=%d' % kv for kv in params.items()]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout * (10 if valgrind else 1), env=ASAN_ENV, cwd='/tmp')
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), ''

def reproduces(kind, label, rc, out, err):
    """Does the native run show the failure?"""
    if kind == 'assert': return rc == 42 and ('VS_FAIL ' + label) in out
    if kind == 'uninitialised': return rc in (44, 45)
    if kind == 'hang': return rc == 'timeout'
    # memory errors, aborts, escaped exceptions, failed library assertions: any crash counts
    return rc == 'timeout' or rc not in (0, 42, 43, 46)

def obs_of(out):
    return ''.join(l[4:] + ';' for l in out.splitlines() if l.startswith('OBS '))

class Harness:
    def __init__(self, name, entries):
        self.name = name; self.stubs = HARNESSES[name].get('stubs', []); self.exclude = HARNESSES[name].get('exclude'); self.entries = entries
    def link(self): self.bc, self.own, self.used, self.unres = vb.link(self.name, self.stubs, self.entries, self.exclude)
    def nat(self, ex=None): self.bin = vb.native(self.name, self.stubs, self.own, self.used, True, ex)
    def natplain(self):
        if not hasattr(self, 'pbin'): self.pbin = vb.native(self.name, self.stubs, self.own, self.used, False)
        return self.pbin

def harness_of(entry):
    for h in HARNESSES:
        s = open(os.path.join(V, 'harness', h)).read()
        if re.search(r'HARNESS\s+' + re.escape(entry) + r'\s*\(', s): return h
    raise SystemExit('no such harness: ' + entry)

def confirm(h, job, e):
    """Replays a counterexample. Returns (confirmed, description)."""
    if e['kind'] == 'uninitialised':
        rc, out, err = run_native(h.natplain(), job['entry'], e['input'], job['params'], valgrind=True)
    else:
        rc, out, err = run_native(h.bin, job['entry'], e['input'], job['params'])
    return reproduces(e['kind'], e['label'], rc, out, err), rc, (out[-1500:] + '\n' + err[-2500:])

def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    jobs = []
    for j in P['jobs']:
        if tier == 'quick' and j.get('thorough_only'): continue
        params = dict(j.get('p', {})); tmax = j.get('t', 60)
        if tier == 'thorough': params.update(j.get('P', {})); tmax = j.get('T', max(900, tmax * 4))
        variants = j.get('variants')  # list of parameter dicts: one run each
        if tier == 'thorough' and j.get('VARIANTS'): variants = j['VARIANTS']
        for v in variants or [{}]:
            jobs.append({'entry': j['entry'], 'params': dict(params, **v), 't': tmax, 'opts': list(j.get('opts', [])), 'reach': j.get('reach', ['end']), 'harness': harness_of(j['entry']), 'bounds': j.get('bounds', ''), 'w': j.get('w', 1)})
    hs = {}
    for j in jobs: hs.setdefault(j['harness'], set()).add(j['entry'])
    hs = {k: Harness(k, sorted(v)) for k, v in hs.items()}
    with cf.ThreadPoolExecutor(len(hs) + 1) as ex:
        fe = ex.submit(vb.build_engine)
        list(ex.map(lambda h: h.link(), hs.values()))
        vsym = fe.result()
    tb = time.time() - t0
    # the replay binaries build while the engine explores
    natex = cf.ThreadPoolExecutor(4)
    natfail = []
    def natall():
        for h in hs.values():
            try: h.nat(natex)
            except vb.BuildError as e: natfail.append(str(e)); h.bin = None
    nt = threading.Thread(target=natall); nt.start()
    tmpd = os.path.join(vb.BUILD, 'out'); os.makedirs(tmpd, exist_ok=True)
    width = min(len(jobs), NC)
    per = max(1, NC // width)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]['w'])
    res = [None] * len(jobs)
    sem = [0]
    def one(i):
        j = jobs[i]
        remaining = len([r for r in res if r is None])
        n = max(per, min(NC, NC // max(1, min(remaining, width))))
        opts = j['opts'] + ['--seed', str(seed), '--cross', '200' if tier == 'quick' else '20', '--samples', '3']
        res[i] = run_engine(vsym, hs[j['harness']].bc, j['entry'], j['params'], n if j['w'] <= 1 else max(n, min(NC, int(j['w']))), j['t'], opts, os.path.join(tmpd, '%s-%d-%d.json' % (pid, os.getpid(), i)))
    with cf.ThreadPoolExecutor(width) as ex: list(ex.map(one, order))
    ts = time.time() - t0 - tb
    nt.join(); natex.shutdown()
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == pid and k['status'] == 'known']
    violations, unconfirmed, notes, knownhit, runs = [], [], [], {}, []
    validated = mismatched = 0; samples = []; fns = set()
    tot = dict.fromkeys(['paths', 'killed', 'error_paths', 'forks', 'instrs', 'asserts', 'asserts_symbolic', 'asserts_proved', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'domain_decisions', 'cross_checked'], 0)
    z3t = 0.0; complete = True
    for n in natfail: notes.append('replay build failed: ' + n[-600:])
    repd = os.path.join(V, 'evidence', 'replays'); os.makedirs(repd, exist_ok=True)
    for j, r in zip(jobs, res):
        h = hs[j['harness']]
        rj = {'entry': j['entry'], 'params': j['params'], 'bounds': j['bounds']}
        runs.append(rj)
        if 'crash' in r:
            rj['crash'] = r; complete = False; notes.append('%s: engine stopped: %s' % (j['entry'], r['stderr'][-400:])); continue
        for k in tot: tot[k] += r[k]
        z3t += r['z3_time']; fns |= set(r['functions'])
        rj.update({k: r[k] for k in ('paths', 'killed', 'error_paths', 'forks', 'instrs', 'asserts', 'asserts_symbolic', 'asserts_proved', 'z3_queries', 'z3_unknown', 'z3_time', 'wall')})
        rj['reach'] = r['reach']
        if r['incomplete']: rj['incomplete'] = r['incomplete']; complete = False; notes.append('%s %s: incomplete: %s' % (j['entry'], j['params'], r['incomplete']))
        for l in j['reach']:
            if l not in r['reach']: notes.append('%s %s: witness "%s" not reached' % (j['entry'], j['params'], l))
        for e in r['errors']:
            if e['kind'] == 'engine': continue
            m = re.match(r'known:([^|]*)\|', e['label'])
            d = {'property': pid, 'entry': j['entry'], 'params': j['params'], 'harness': j['harness'], 'kind': e['kind'], 'label': e['label'], 'where': e['where'], 'stack': e['stack'], 'input': e['input'], 'observed': e['obs'], 'paths': e['count']}
            if h.bin is None: ok, rc, txt = False, None, 'no replay binary'
            else: ok, rc, txt = confirm(h, j, e)
            d['native_exit'] = rc; d['native'] = txt
            if not ok: unconfirmed.append(d); continue
            if m and any(k['id'] == m.group(1) for k in known): knownhit.setdefault(m.group(1), d); continue
            d['replay_cmd'] = './check.py --replay <this file>'
            f = os.path.join(repd, '%s-%d.json' % (pid, len(violations))); json.dump(d, open(f, 'w'), indent=1)
            violations.append((f, d))
        for s in r['samples']:
            if h.bin is None: break
            rc, out, err = run_native(h.bin, j['entry'], s['input'], j['params'])
            ok = rc == 0 and obs_of(out) == s['obs']
            if ok: validated += 1
            else:
                mismatched += 1
                if len(notes) < 40: notes.append('%s %s: native run of sample %s differs: exit %s obs %r, symbolic obs %r' % (j['entry'], j['params'], s['input'], rc, obs_of(out)[:300], s['obs'][:300]))
            if len(samples) < 12: samples.append({'entry': j['entry'], 'params': j['params'], 'input_hex': s['input'], 'observed': s['obs'][:400], 'native_agrees': ok})
    wall = time.time() - t0
    repof = sorted(f for f in fns if 'vmime' in f)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(violations),
          'coverage': {'states': tot['paths'] + tot['killed'] + tot['error_paths'] + tot['forks'], 'transitions': tot['instrs'],
            'traces_validated_against_impl': validated, 'samples': samples or [{'none': True}], 'exhaustive': bool(complete),
            'meaning': 'states: symbolic states (paths explored to their end plus forks); transitions: IR instructions executed symbolically; traces validated: solver-chosen inputs of explored paths run natively against the real code with the same observations',
            'paths': tot['paths'], 'paths_outside_assumptions': tot['killed'], 'asserts_evaluated': tot['asserts'], 'asserts_symbolic': tot['asserts_symbolic'], 'asserts_discharged_by_solver': tot['asserts_proved'],
            'z3_queries': tot['z3_queries'], 'z3_sat': tot['z3_sat'], 'z3_unsat': tot['z3_unsat'], 'z3_unknown': tot['z3_unknown'], 'one_byte_domain_decisions': tot['domain_decisions'], 'domain_decisions_cross_checked_with_z3': tot['cross_checked'], 'solver_time_s': round(z3t, 2),
            'build_s': round(tb, 1), 'explore_s': round(ts, 1), 'sample_mismatches': mismatched,
            'functions_encoded': len(repof), 'functions': repof, 'runs': runs, 'notes': notes,
            'counterexamples_not_reproduced': unconfirmed[:10], 'known_findings_seen': sorted(knownhit)},
          'assumptions': P.get('assumptions', []) + ['bounds: ' + P['bounds']]}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in notes: print('note: ' + n)
    for d in unconfirmed: print('note: counterexample not reproduced natively: %s %s %s at %s input %s exit %s' % (d['entry'], d['kind'], d['label'], d['where'], d['input'], d['native_exit']))
    print('%s %s: %d runs, %d paths, %d asserts, %d z3 queries (%.1fs), %d/%d samples agree, build %.1fs explore %.1fs total %.1fs%s' % (pid, tier, len(jobs), tot['paths'], tot['asserts'], tot['z3_queries'], z3t, validated, validated + mismatched, tb, ts, wall, '' if complete else ' (INCOMPLETE)'))
    for k in known:
        if k['id'] in knownhit: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
        else: print('note: known finding %s not seen in this run' % k['id'])
    for f, d in violations:
        print('  %s %s: %s at %s (input %s)' % (d['entry'], d['kind'], d['label'], d['where'], d['input']))
        print('VIOLATION property=%s replay=%s' % (pid, f))
    return 1 if violations else 0

def dev(entry, args):
    params, tmax, nj, opts, nonat, opts0 = {}, 60, NC, [], False, []
    i = 0
    while i < len(args):
        a = args[i]
        if a == '-t': tmax = float(args[i + 1]); i += 1
        elif a == '-j': nj = int(args[i + 1]); i += 1
        elif a == '--nonat': nonat = True
        elif a == '-s': opts0.append(a)
        elif '=' in a and not a.startswith('-'): k, v = a.split('='); params[k] = int(v)
        else: opts.append(a)
        i += 1
    h = Harness(harness_of(entry), None)
    h.entries = [m for m in re.findall(r'HARNESS\s+(\w+)\s*\(', open(os.path.join(V, 'harness', h.name)).read())]
    vsym = vb.build_engine(); t = time.time(); h.link(); (time.time() - t > 1) and print('link %.1fs %d TUs %s' % (time.time() - t, len(h.used), h.bc))
    tmpd = os.path.join(vb.BUILD, 'out'); os.makedirs(tmpd, exist_ok=True)
    r = run_engine(vsym, h.bc, entry, params, nj, tmax, opts, os.path.join(tmpd, 'dev%d.json' % os.getpid()))
    if 'crash' in r: print(r['stderr'], r['crash']); return 2
    fns = r.pop('functions'); smp = r.pop('samples'); errs = r.pop('errors'); 
    print('%s %s: paths %d killed %d err %d forks %d instrs %.1fM asserts %d/%d z3 %d (unk %d, %.1fs) wall %.1fs reach %s %s vmime fns %d' % (entry, params, r['paths'], r['killed'], r['error_paths'], r['forks'], r['instrs'] / 1e6, r['asserts'], r['asserts_symbolic'], r['z3_queries'], r['z3_unknown'], r['z3_time'], r['wall'], r['reach'], 'INCOMPLETE %s' % r['incomplete'] if r['incomplete'] else '', len([f for f in fns if 'vmime' in f])))
    if '--fns' in opts: print('\n'.join(fns))
    if not nonat: h.nat()
    job = {'entry': entry, 'params': params}
    for e in errs:
        print('ERROR', e['kind'], e['label'], 'at', e['where'], 'x%d' % e['count'], 'input', e['input']); print('   ', e['stack'].replace('\n', '\n    ')[:1500]); print('    obs', e['obs'][:400])
        if not nonat and e['kind'] != 'engine':
            ok, rc, txt = confirm(h, job, e); print('    native:', 'REPRODUCED' if ok else 'NOT REPRODUCED', rc, txt[:700].replace('\n', '\n      '))
    for s in smp[:8]:
        if '-s' in opts0: print('sample', s['input'], s['obs'][:300])
        if not nonat:
            rc, out, err = run_native(h.bin, entry, s['input'], params)
            if rc != 0 or obs_of(out) != s['obs']: print('   MISMATCH native', s['input'], s['obs'][:300], rc, obs_of(out)[:300], err[-300:])
    return 0

def hints():
    r = {}
    for h in HARNESSES:
        ents = [m for m in re.findall(r'HARNESS\s+(\w+)\s*\(', open(os.path.join(V, 'harness', h)).read())]
        _, own, used, unres = vb.link(h, HARNESSES[h].get('stubs', []), ents, HARNESSES[h].get('exclude'), force_all=True)
        r[h] = {'tus': [os.path.relpath(u, vb.REPO) for u in used], 'unresolved': unres}
        print(h, len(used), 'of', len(vb.sources()))
    json.dump(r, open(vb.HINTS, 'w'), indent=0, sort_keys=True)

def selftest():
    h = Harness('selftest.cpp', ['st_true', 'st_assert', 'st_oob', 'st_uninit', 'st_throw', 'st_hang']); vsym = vb.build_engine(); h.link(); bad = 0
    tmpd = os.path.join(vb.BUILD, 'out'); os.makedirs(tmpd, exist_ok=True)
    for en, want in (('st_true', None), ('st_assert', 'assert'), ('st_oob', 'memory'), ('st_uninit', 'uninitialised'), ('st_throw', 'exception'), ('st_hang', 'hang')):
        r = run_engine(vsym, h.bc, en, {}, 1, 20, [], os.path.join(tmpd, 'self%d.json' % os.getpid()))
        kinds = [e['kind'] for e in r.get('errors', [])]
        ok = (kinds == [] and r.get('reach') == {'end': 1}) if want is None else len(kinds) == 1
        print(en, kinds, 'ok' if ok else 'WRONG ' + str(r)[:500]); bad += not ok
    return 1 if bad else 0

def main(a):
    if a[0] == '--selftest': return (selftest())
    if a[0] == '--entry': return (dev(a[1], a[2:]))
    if a[0] == '--hints': hints(); return (0)
    if a[0] == '--replay':
        d = json.load(open(a[1])); h = Harness(d['harness'], [d['entry']]); h.link(); h.nat()
        ok, rc, txt = confirm(h, d, d); print(txt); print('reproduced' if ok else 'not reproduced', rc); return (1 if ok else 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    return (check(a[0], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))

if __name__ == '__main__':
    try: sys.exit(main(sys.argv[1:]))
    except vb.BuildError as e: print('build failed: ' + '\n'.join(l for l in str(e).splitlines() if 'error' in l or 'undefined' in l or l.startswith('clang') or l.startswith('g++'))[:3000]); sys.exit(2)
