"""Builds everything a check needs from /repo's current working tree: the engine, the bitcode of the
code under test, the linked bitcode of a harness, and the native replay binary."""
import os, sys, subprocess, hashlib, json, shutil, re, concurrent.futures as cf, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NCPU = os.cpu_count() or 4
EXCLUDE = re.compile(r'platforms/windows|_openssl|OpenSSL|_iconv|_win\.cpp')
# replaced by models in /verif/stubs for symbolic execution
NOSYM = re.compile(r'charsetConverter_icu\.cpp$|platforms/posix/')
INC = ['-I' + os.path.join(VERIF, 'rt/config'), '-I' + REPO + '/src', '-I' + REPO]
DEFS = ['-D_GLIBCXX_ASSERTIONS', '-DVMIME_STATIC', '-DVERIF_HARNESS']
BCFLAGS = ['-std=c++17', '-O1', '-fno-pic', '-fno-pie', '-gline-tables-only', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w'] + DEFS + ['-I' + os.path.join(VERIF, 'rt/include')] + INC
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-c', '-w', '-fno-omit-frame-pointer'] + DEFS + ['-I' + os.path.join(VERIF, 'rt/include_native')] + INC
CLANG = 'clang++-18'
lock = threading.Lock()

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode: raise BuildError(' '.join(map(str, cmd))[:300] + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout.decode(errors='replace')

def hfile(h, p):
    with open(p, 'rb') as f: h.update(f.read())

def sources():
    r = []
    for d, _, fs in os.walk(REPO + '/src/vmime'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.cpp') and not EXCLUDE.search(p): r.append(p)
    return sorted(r)

_hdr = None
def headers_hash():
    global _hdr
    with lock:
        if _hdr is None:
            h = hashlib.sha256()
            for base in (REPO + '/src/vmime', REPO + '/contrib', os.path.join(VERIF, 'rt')):
                for d, _, fs in sorted(os.walk(base)):
                    for f in sorted(fs):
                        if f.endswith(('.hpp', '.h', '.inl')) or 'rt/include' in d:
                            h.update(os.path.join(d, f).encode()); hfile(h, os.path.join(d, f))
            _hdr = h.hexdigest()
    return _hdr

def build_engine():
    h = hashlib.sha256()
    d = os.path.join(VERIF, 'engine')
    for f in sorted(os.listdir(d)): hfile(h, os.path.join(d, f))
    out = os.path.join(BUILD, 'engine-' + h.hexdigest()[:12])
    if not os.path.exists(out + '/vsym'):
        tmp = out + '.tmp%d' % os.getpid()
        sh([d + '/build.sh', tmp])
        try: os.rename(tmp, out)
        except OSError: pass
    return out + '/vsym'

def _compile(src, kind):
    """kind: bc or nat. Returns object path."""
    h = hashlib.sha256(); h.update(headers_hash().encode()); h.update(src.encode()); hfile(h, src)
    isrt = src.startswith(VERIF + '/rt/rt')
    if kind == 'bc':
        if src.endswith('.c'): cmd = ['clang-18', '-std=gnu11', '-O1', '-fno-pic', '-fno-pie', '-fno-builtin', '-emit-llvm', '-c', '-w']
        else: cmd = [CLANG] + BCFLAGS + (['-fno-builtin'] if isrt else [])
    elif kind == 'nat': cmd = ['g++'] + NATFLAGS + ['-fsanitize=address', '-fsanitize=unreachable,return', '-fno-sanitize-recover=all']
    else: cmd = ['g++'] + NATFLAGS
    if src.startswith(VERIF): cmd = cmd + ['-I' + VERIF + '/rt/include' if kind == 'bc' else '-I' + VERIF + '/rt/include_native', '-I' + VERIF + '/harness']
    h.update(repr(cmd).encode())
    if src.startswith(VERIF + '/harness') or src.startswith(VERIF + '/stubs'):
        for f in sorted(os.listdir(VERIF + '/harness')):
            if f.endswith('.hpp'): hfile(h, VERIF + '/harness/' + f)
        # sources of the repository that a harness includes
        for f in [src] + [VERIF + '/harness/' + f for f in sorted(os.listdir(VERIF + '/harness')) if f.endswith('.hpp')]:
            for m in re.findall(r'#include "(vmime/[^"]*\.cpp)"', open(f).read()): hfile(h, REPO + '/src/' + m)
    dst = os.path.join(BUILD, kind, os.path.basename(src) + '-' + h.hexdigest()[:16] + ('.bc' if kind == 'bc' else '.o'))
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
        sh(cmd + [src, '-o', tmp]); os.rename(tmp, dst)
    return dst

def compile_many(srcs, kind, ex=None):
    own = ex is None
    ex = ex or cf.ThreadPoolExecutor(NCPU)
    r = dict(zip(srcs, ex.map(lambda s: _compile(s, kind), srcs)))
    if own: ex.shutdown()
    return r

_sym = {}
def symbols(obj):
    if obj in _sym: return _sym[obj]
    c = obj + '.sym'
    if os.path.exists(c): r = json.load(open(c))
    else:
        o = sh(['llvm-nm-18', '--no-sort', obj]); d, u, w = [], [], []
        for l in o.splitlines():
            m = re.match(r'\s*(?:[0-9a-f]+|-+)?\s+([A-Za-z]) (\S+)$', l)
            if not m: continue
            t, n = m.groups()
            if t in 'Uwv': u.append(n)
            elif t in 'WV': w.append(n)
            elif t.isupper(): d.append(n)
        r = [d, u, w]
        tmp = c + '.tmp%d.%d' % (os.getpid(), threading.get_ident()); json.dump(r, open(tmp, 'w')); os.rename(tmp, c)
    _sym[obj] = r
    return r

HINTS = os.path.join(VERIF, 'harness', 'hints.json')

def closure(harness, stubs, exclude=None, force_all=False):
    """The translation units a static link of the harness would pull in. Returns (srcs, bc objects)."""
    excl = re.compile(exclude) if exclude else None
    srcs = [s for s in sources() if not (excl and excl.search(s)) and not (NOSYM.search(s) and not ('icu.sym.cpp' in stubs and s.endswith('_icu.cpp')))]
    own = [VERIF + '/harness/' + harness] + [VERIF + '/stubs/' + s for s in stubs] + [VERIF + '/rt/rt.cpp', VERIF + '/rt/rtc.c']
    hints = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
    key = harness
    h = hints.get(key)
    if h and not force_all:
        cand = [s for s in srcs if os.path.relpath(s, REPO) in set(h['tus'])]
    else: cand = srcs
    bc = compile_many(own + cand, 'bc')
    def solve(bc):
        definer = {}
        for s in cand:
            for n in symbols(bc[s])[0]: definer.setdefault(n, s)
        ownd = set()
        for s in own: ownd |= set(symbols(bc[s])[0])
        used, todo, unres = [], list(own), set()
        seen = set(own)
        have = set(ownd)
        while todo:
            s = todo.pop()
            d, u, w = symbols(bc[s]); have |= set(d) | set(w)
            for n in u:
                if n in ownd: continue
                t = definer.get(n)
                if t is None: unres.add(n)
                elif t not in seen: seen.add(t); used.append(t); todo.append(t)
        return used, unres - have
    used, unres = solve(bc)
    if h and not force_all and unres - set(h['unresolved']):
        # something the recorded set of files does not define: look at every file
        cand = srcs; bc = compile_many(own + cand, 'bc'); used, unres = solve(bc)
    return own, sorted(used), bc, sorted(unres)

def link(harness, stubs, entries, exclude=None, force_all=False):
    own, used, bc, unres = closure(harness, stubs, exclude, force_all)
    objs = [bc[s] for s in own + used]
    h = hashlib.sha256(repr((sorted(objs), sorted(entries))).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'link', harness + '-' + h + '.bc')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        sh(['llvm-link-18'] + objs + ['-o', tmp + '.a'])
        sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(list(entries) + ['__rt_strlen', '__rt_memchr', '__rt_throw_bad_alloc']), tmp + '.a', '-o', tmp])
        os.unlink(tmp + '.a'); os.rename(tmp, out)
    return out, own, used, unres

def native(harness, stubs, own, used, asan=True, ex=None):
    """The same harness as an ordinary program linked against the code under test, to replay inputs."""
    kind = 'nat' if asan else 'natplain'
    srcs = [s for s in own if not s.startswith(VERIF + '/rt/') and not s.endswith('.sym.cpp')] + used + [VERIF + '/rt/replay.cpp']
    # the real thing for what the symbolic build models
    libs = []
    if 'charset.sym.cpp' in stubs or 'icu.sym.cpp' in stubs:
        f = REPO + '/src/vmime/charsetConverter_icu.cpp'
        if f not in srcs: srcs.append(f)
        libs += ['-licuuc', '-licui18n', '-licudata']
    ob = compile_many(srcs, kind, ex)
    objs = [ob[s] for s in srcs]
    h = hashlib.sha256(repr(sorted(objs)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'replay', harness + '-' + kind + '-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        sh(['g++'] + (['-fsanitize=address,undefined'] if asan else []) + ['-rdynamic', '-no-pie'] + objs + ['-o', tmp, '-ldl', '-lpthread'] + libs + ['-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition'])
        os.rename(tmp, out)
    return out
