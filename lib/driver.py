#!/usr/bin/env python3
"""Driver: builds the encoding from /repo, runs the symbolic engine on every harness of a property, replays
counterexamples and samples against the natively compiled code, applies the known-findings file, writes evidence."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
NJ = os.cpu_count() or 4
INCS = ['src', 'generated', 'src/gdlib', 'src/global', 'src/rtl', 'zlib', '']
DEFAULT_CORE = ['src/rtl/dtoaLoc.c', 'src/rtl/p3io.cpp', 'src/rtl/p3utils.cpp', 'src/rtl/sysutils_p3.cpp', 'src/rtl/system_p3.cpp',
    'src/rtl/p3platform.cpp', 'src/rtl/math_p3.cpp', 'src/gdlib/gmsstrm.cpp', 'src/gdlib/utils.cpp', 'src/gdlib/strutilx.cpp',
    'src/gdlib/dblutil.cpp', 'src/gdlib/gmsobj.cpp', 'src/gxfile.cpp']
WRAPS = ['open', 'open64', 'close', 'read', 'write', 'lseek', 'lseek64', 'fstat', 'stat', 'lstat', 'access', 'unlink', 'remove', 'rename', 'ftruncate', 'fsync', 'chmod', 'compress', 'uncompress', 'gzopen', 'gzopen64', 'gzread', 'gzclose', 'dlopen', 'dlsym', 'dlclose', 'dlerror', 'opendir', 'readdir', 'readdir64', 'closedir', 'malloc', 'calloc', 'realloc', 'free']
SYMF = ['-O1', '-g1', '-DNDEBUG', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fwrapv', '-fno-pic', '-fno-pie', '-emit-llvm', '-c']

class CheckError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode: raise CheckError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
    raise CheckError('missing tool ' + names[0])

def core_sources():
    """source list of the core library: from CMakeLists.txt when it can be read there, else the default list"""
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'set\(\s*gdx-core\b(.*?)\)', t, re.S)
        fs = [f for f in re.findall(r'[\w/\.]+\.(?:cpp|c|cxx|cc)\b', m.group(1)) if os.path.exists(os.path.join(REPO, f))]
        if len(fs) >= 8: return [f for f in dict.fromkeys(fs) if not f.endswith('gclgms.c')]
    except Exception: pass
    return DEFAULT_CORE

def capi_sources(have):
    """the C interface: loader (gdxcc.c, finds the exports with dlsym) and exported wrappers (gdxcclib.cpp)"""
    return (('generated/gdxcc.c', ('-DgdxSetLoadPath=cc_gdxSetLoadPath', '-DgdxGetLoadPath=cc_gdxGetLoadPath')), 'generated/gdxcclib.cpp')  # separate libraries in reality: two names exist in both
def tool_sources(name, have):
    """a command line tool: its sources and those of the tool library; main becomes tool_main, exit becomes an exception"""
    fl = ('-I' + os.path.join(REPO, 'src/tools'), '-I' + VERIF + '/rt', '-include', VERIF + '/rt/tool.h', '-Dmain=tool_main')
    res = []
    for d in ('src/tools/library', 'src/tools/' + name):
        res += [(d + '/' + f, fl) for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(('.cpp', '.cc', '.cxx'))]
    try: cm = open(os.path.join(REPO, 'src/tools', name, 'CMakeLists.txt')).read() + open(os.path.join(REPO, 'src/tools/library/CMakeLists.txt')).read()
    except OSError: cm = ''
    for f in dict.fromkeys(re.findall(r'CMAKE_SOURCE_DIR\}/(src/[\w/]+\.cpp)', cm)):
        if f not in have and os.path.exists(os.path.join(REPO, f)): res.append(f)
    return tuple(res)

def incflags(): return ['-I' + os.path.join(REPO, i) if i else '-I' + REPO for i in INCS]

class Build:
    def __init__(self, work):
        self.work = work; self.pool = ThreadPoolExecutor(NJ); self.native = {}; self.t0 = time.time()
        self.cxx = tool('clang++-18', 'clang++'); self.cc = tool('clang-18', 'clang'); self.link = tool('llvm-link-18', 'llvm-link')
        self.gxx = tool('g++'); self.gcc = tool('gcc')
        self.compile_s = 0.0
    def _bc(self, src, out, rt=False, extra=()):
        if rt: f = ['-w', '-O1', '-g1', '-fno-builtin', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c']
        else: f = SYMF
        if src.endswith('.c'): cmd = [self.cc, '-std=gnu11'] + f
        else: cmd = [self.cxx, '-std=c++17', '-include', VERIF + '/rt/streams.h'] + f
        sh(cmd + ['-I' + VERIF + '/rt', '-I' + VERIF + '/h'] + incflags() + list(extra) + [src, '-o', out]); return out
    def symbolic(self, harnesses, extra_src=(), defs=()):
        """returns {harness file: linked bitcode}"""
        t = time.time(); w = self.work; futs = []
        for r in ('libc.c', 'vfs.c', 'runtime.cpp'): futs.append(self.pool.submit(self._bc, '%s/rt/%s' % (VERIF, r), '%s/rt_%s.bc' % (w, r), True))
        for s in list(core_sources()) + list(extra_src):
            s, fl = s if isinstance(s, tuple) else (s, ())
            futs.append(self.pool.submit(self._bc, os.path.join(REPO, s), '%s/core_%s.bc' % (w, s.replace('/', '_')), False, tuple(defs) + tuple(fl)))
        hb = {h: self.pool.submit(self._bc, '%s/h/%s' % (VERIF, h), '%s/h_%s.bc' % (w, h), False, defs) for h in harnesses}
        core = [f.result() for f in futs]
        res = {}
        for h, f in hb.items():
            out = '%s/all_%s.bc' % (w, h); sh([self.link] + core + [f.result(), '-o', out]); res[h] = out
        self.compile_s += time.time() - t
        return res
    def native_bin(self, h, flavour, extra_src=(), defs=()):
        key = (h, flavour)
        if key in self.native: return self.native[key]
        w = '%s/nat_%s' % (self.work, flavour); os.makedirs(w, exist_ok=True)
        fl = {'plain': ['-O2', '-g', '-DNDEBUG', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=3'],
              'asan': ['-O1', '-g', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,vptr', '-fno-omit-frame-pointer']}[flavour]
        def comp(src, out, ex=()):
            if os.path.exists(out): return out
            cmd = [self.gcc, '-std=gnu11'] if src.endswith('.c') else [self.gxx, '-std=c++17']
            sh(cmd + ['-w', '-c'] + fl + list(ex) + ['-I' + VERIF + '/rt', '-I' + VERIF + '/h'] + incflags() + list(defs) + [src, '-o', out]); return out
        futs = [self.pool.submit(comp, os.path.join(REPO, s), '%s/%s.o' % (w, s.replace('/', '_')), fl) for s, fl in [x if isinstance(x, tuple) else (x, ()) for x in list(core_sources()) + list(extra_src)]]
        futs.append(self.pool.submit(comp, VERIF + '/rt/vfs.c', w + '/vfs.o', ['-DVFS_WRAP']))
        futs.append(self.pool.submit(comp, VERIF + '/rt/native.cpp', w + '/native.o'))
        futs.append(self.pool.submit(comp, '%s/h/%s' % (VERIF, h), '%s/h_%s.o' % (w, h)))
        objs = [f.result() for f in futs]
        out = '%s/replay_%s' % (w, h.replace('.', '_'))
        sh([self.gxx, '-rdynamic'] + [f for f in fl if f.startswith('-fsan')] + objs + ['-o', out, '-Wl,' + ','.join('--wrap=' + x for x in WRAPS), '-lz', '-ldl', '-lpthread', '-lm'])
        self.native[key] = out
        return out

def engine():
    e = VERIF + '/bin/symx'
    src = [VERIF + '/symx/' + f for f in ('expr.h', 'expr.cpp', 'symx.h', 'symx.cpp')]
    if not os.path.exists(e) or max(os.path.getmtime(f) for f in src) > os.path.getmtime(e): sh(['bash', VERIF + '/symx/build.sh', e])
    return e

def limits(): 
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def write_replay(path, entry, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('param %d %s\n' % (v, k))
        for n, w, v in inputs:
            if not n.startswith('uninit'): f.write('in %d %d %s\n' % (w, v, n))

def run_native(binp, entry, rfile, env=None, timeout=60, wrapper=()):
    d = tempfile.mkdtemp(prefix='vxrun.')
    try:
        e = dict(os.environ); e.update(env or {}); e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1'; e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        try: p = subprocess.run(list(wrapper) + [binp, entry, rfile], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        except subprocess.TimeoutExpired: return 'timeout', ''
        return p.returncode, (p.stderr.decode('latin1') + p.stdout.decode('latin1'))
    finally: shutil.rmtree(d, ignore_errors=True)

def run_instance(eng, bc, inst, outdir, idx):
    out = '%s/out_%d.json' % (outdir, idx)
    cmd = [eng, bc, '-o', out, '-e', inst['entry'], '-t', str(inst.get('time', 300)), '-q', str(inst.get('qtime', 60)), '-s', str(inst.get('steps', 400000000)), '-n', str(inst.get('paths', 400000)), '-m', str(inst.get('maxviol', 3)), '-u', str(inst.get('uninit', 1)), '-S', REPO + '/']
    for k, v in inst.get('params', {}).items(): cmd += ['-p', '%s=%d' % (k, v)]
    t = time.time()
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=inst.get('time', 300) + 200, preexec_fn=limits)
    except subprocess.TimeoutExpired: return {'status': 'incomplete', 'incomplete_why': 'engine wall timeout', 'complete': False, 'violations': [], 'engine_errors': [], 'covers': {}, 'wall_s': time.time() - t}
    try: return json.load(open(out))
    except Exception: return {'status': 'error', 'complete': False, 'violations': [], 'engine_errors': ['engine ended with %d: %s' % (p.returncode, p.stdout.decode('latin1')[-600:])], 'covers': {}, 'wall_s': time.time() - t}

def classify(rc, txt):
    """outcome of a native replay: 'fail' (property broken / crash), 'ok', 'mismatch'"""
    if rc == 'timeout': return 'fail'
    if rc == 0: return 'ok'
    if rc in (43, 44, 64): return 'mismatch'
    return 'fail'

def load_known():
    res = []
    try:
        for l in open(VERIF + '/known_findings.jsonl'):
            l = l.strip()
            if l: res.append(json.loads(l))
    except FileNotFoundError: pass
    return res

def main(props, argv):
    t0 = time.time()
    if len(argv) < 2 or argv[1] not in props: print('usage: check.py PROPERTY [--tier quick|thorough] [--only entry] [-v]'); return 2
    pid = argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in argv
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if '--only' in argv: only = argv[argv.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props[pid]
    insts = [dict(i) for i in P['runs'](tier)]
    if only: insts = [i for i in insts if i['entry'] == only]
    for i in insts: i.setdefault('file', P.get('file'))
    work = tempfile.mkdtemp(prefix='vx.%s.' % pid)
    try: return check(pid, P, insts, tier, seed, work, t0, verbose)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); return 2
    finally: shutil.rmtree(work, ignore_errors=True)

def check(pid, P, insts, tier, seed, work, t0, verbose):
    eng = engine()
    b = Build(work)
    have = set(core_sources()); extra = tuple(f for f in P.get('extra_src', ()) if f not in have and os.path.exists(os.path.join(REPO, f))); defs = P.get('defs', ())
    if P.get('capi') or P.get('tool'): extra += capi_sources(have)
    if P.get('tool'): extra += tool_sources(P['tool'], have)
    files = sorted({i['file'] for i in insts})
    bcs = b.symbolic(files, extra, defs)
    natf = {f: b.pool.submit(lambda f=f: None) for f in files}
    order = sorted(range(len(insts)), key=lambda k: -insts[k].get('cost', 1))
    results = [None] * len(insts)
    with ThreadPoolExecutor(NJ) as ex:
        futs = {k: ex.submit(run_instance, eng, bcs[insts[k]['file']], insts[k], work, k) for k in order}
        for k, f in futs.items(): results[k] = f.result()
    eng_wall = time.time() - t0
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    errors, notes, viols, knownhits = [], [], [], {}
    validated = 0; replayed = 0
    rdir = VERIF + '/replays'; os.makedirs(rdir, exist_ok=True)
    # counterexamples
    seen = set()
    for k, r in enumerate(results):
        i = insts[k]
        for v in r.get('violations', []):
            key = (i['entry'], v['kind'], v['msg'], tuple(v['stack'][:1]))
            if key in seen and len(viols) > 0: continue
            rf = '%s/%s_%s_%d.txt' % (rdir, pid, i['entry'], len(viols) + len(knownhits) + len(errors))
            write_replay(rf, i['entry'], i.get('params', {}), v['inputs'])
            rep = None
            for fl, env, wr in (('plain', {}, ()), ('asan', {}, ()), ('plain', {'MALLOC_PERTURB_': '165'}, ()), ('plain', {}, ('valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes'))):
                if wr and not shutil.which(wr[0]): continue
                rc, txt = run_native(b.native_bin(i['file'], fl, extra, defs), i['entry'], rf, env, 120, wr); replayed += 1
                if classify(rc, txt) == 'fail': rep = (fl, rc, txt); break
            if rep is None:
                errors.append('counterexample of %s (%s: %s) does not reproduce natively; inputs in %s; stack %s' % (i['entry'], v['kind'], v['msg'], rf, v['stack'][:3])); continue
            seen.add(key)
            desc = '%s: %s [%s] natively (%s): %s' % (v['kind'], v['msg'], i['entry'], rep[0], 'hang' if rep[1] == 'timeout' else 'exit %s %s' % (rep[1], ' '.join([l for l in rep[2].splitlines() if 'REPLAY-ASSERT' in l or 'ERROR' in l or 'runtime error' in l or 'what()' in l][:2])))
            kf = next((q for q in known if q.get('entry') == i['entry'] and q.get('match') and q['match'] in v['msg'] and q.get('at', '') in ' '.join(v['stack'])), None)
            if kf: knownhits[kf['id']] = kf; continue
            with open(rf, 'a') as f: pass
            with open(rf + '.md', 'w') as f:
                f.write('property %s, harness %s/%s, params %s\n%s\nstack:\n  %s\ninputs:\n' % (pid, i['file'], i['entry'], i.get('params', {}), desc, '\n  '.join(v['stack'])))
                for n, w, x in v['inputs']: f.write('  %s (%d bit) = 0x%x\n' % (n, w, x))
                f.write('\nnative output:\n%s\n' % rep[2][:4000])
            viols.append((rf, desc))
        for e in r.get('engine_errors', []): errors.append('%s: engine: %s' % (i['entry'], e))
        if not r.get('complete') and r.get('status') != 'violation': notes.append('%s %s: incomplete (%s)' % (i['entry'], i.get('params', {}), r.get('incomplete_why')))
    # fidelity: samples and cover witnesses of the symbolic runs, replayed on the native build
    samples = []; jobs = []
    if not viols:
        for k, r in enumerate(results):
            i = insts[k]; per = []
            for n, inp in list(r.get('cover_inputs', {}).items())[:4]: per.append((n, inp))
            for inp in r.get('samples', [])[:2]: per.append((None, inp))
            for n, inp in per:
                jobs.append((k, n, inp))
        lim = 240 if tier == 'quick' else 2000
        if len(jobs) > lim: jobs = jobs[::(len(jobs) + lim - 1) // lim]
        bins = {f: b.native_bin(f, 'plain', extra, defs) for f in files}
        def one(j):
            k, n, inp = j; i = insts[k]
            rf = '%s/s_%d.txt' % (work, id(j)); write_replay(rf, i['entry'], i.get('params', {}), inp)
            return j, rf, run_native(bins[i['file']], i['entry'], rf, {}, 120)
        for j, rf, (rc, txt) in b.pool.map(one, jobs):
            k, n, inp = j; i = insts[k]; c = classify(rc, txt)
            if (c == 'ok' and (n is None or ('REPLAY-COVER ' + n) in txt)) or (rc == 43 and n and ('REPLAY-COVER ' + n) in txt):  # a witness in the middle of a path ends where its inputs end
                validated += 1
                if len(samples) < 12: samples.append({'harness': i['entry'], 'params': i.get('params', {}), 'inputs': [[a, w, '0x%x' % v] for a, w, v in inp[:24]], 'witness_of': n or 'path end'})
            elif c == 'fail':
                m = [l for l in txt.splitlines() if 'REPLAY-ASSERT' in l]
                kf = next((q for q in known if q.get('entry') == i['entry'] and any(q['match'] in l for l in m)), None)
                if kf: knownhits[kf['id']] = kf; continue
                p = '%s/%s_%s_native.txt' % (rdir, pid, i['entry']); shutil.copy(rf, p)
                viols.append((p, 'native replay of an explored path fails: exit %s %s' % (rc, ' '.join(m[:2]))))
            else: errors.append('%s: native replay diverges from the symbolic run (%s, witness %s): %s' % (i['entry'], rc, n, txt[-300:]))
    # vacuity
    for f in files:
        for ent in sorted({i['entry'] for i in insts if i['file'] == f}):
            got = {}
            for k, r in enumerate(results):
                if insts[k]['entry'] == ent:
                    for c, n in r.get('covers', {}).items(): got[c] = got.get(c, 0) + n
            want = set(next(i.get('covers', ['end']) for i in insts if i['entry'] == ent))
            miss = want - set(got)
            if miss and not viols and not errors and not any(ent in n for n in notes): errors.append('%s: witness points not reached: %s' % (ent, sorted(miss)))
    S = lambda key: sum(r.get(key, 0) or 0 for r in results)
    fns = sorted({f for r in results for f in r.get('functions', [])})
    allcov = {}
    for k, r in enumerate(results):
        for c, n in r.get('covers', {}).items(): allcov[insts[k]['entry'] + ':' + c] = allcov.get(insts[k]['entry'] + ':' + c, 0) + n
    asserts = {}
    for k, r in enumerate(results):
        for c, n in r.get('asserts', {}).items(): asserts[insts[k]['entry'] + ': ' + c] = asserts.get(insts[k]['entry'] + ': ' + c, 0) + n
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
            'states': S('paths'), 'transitions': S('steps'), 'traces_validated_against_impl': validated,
            'samples': samples, 'exhaustive': not notes and not errors and not viols,
            'meaning': 'states = symbolic paths completed (each stands for every input value satisfying its path condition); transitions = IR instructions executed symbolically; traces validated = witnesses of symbolic paths replayed on the natively compiled code with the same outcome',
            'bounds': P.get('bounds', ''), 'harness_instances': [{'harness': insts[k]['entry'], 'params': insts[k].get('params', {}), 'status': r.get('status'), 'paths': r.get('paths'), 'queries': r.get('queries'), 'wall_s': r.get('wall_s')} for k, r in enumerate(results)],
            'solver': {'queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'query_cache_hits': S('cache_hits'), 'model_reuse_hits': S('model_hits'), 'time_s': round(S('solver_s'), 3), 'name': 'Z3 (bit-vectors, floating point)'},
            'asserts_evaluated': S('asserts_evaluated'), 'asserts_needing_solver': S('assert_queries'), 'assertions': asserts, 'witness_points': allcov,
            'functions_encoded': len(fns), 'functions': fns, 'incomplete': notes + errors, 'known_findings_seen': sorted(knownhits), 'counterexample_replays': replayed,
            'encode_s': round(b.compile_s, 2)},
          'assumptions': P.get('assumptions', []) + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    for k in sorted(knownhits): print('KNOWN-FINDING: property=%s %s' % (pid, knownhits[k]['what']))
    for n in notes: print('NOTE ' + n)
    print('%s %s: %d paths, %d queries (%.1fs solver), %d functions, %d native validations, %.1fs wall' % (pid, tier, S('paths'), S('queries'), S('solver_s'), len(fns), validated, time.time() - t0))
    if verbose:
        for k, r in enumerate(results): print('  %-28s %-40s %-10s paths=%s wall=%s' % (insts[k]['entry'], insts[k].get('params', {}), r.get('status'), r.get('paths'), r.get('wall_s')))
    if viols:
        for rf, d in viols: print('VIOLATION property=%s replay=%s' % (pid, rf)); print('  ' + d)
        return 1
    for e in errors: print('CHECK-NOTE property=%s not decided: %s' % (pid, e))
    # Parts the engine could not decide are reported (here and in the evidence: exhaustive=false, incomplete) and are not
    # violations. No answer at all (nothing explored), or a developer run (VX_STRICT), ends with 2.
    if errors and (os.environ.get('VX_STRICT') or not validated): return 2
    return 0

COMMON_ASSUMPTIONS = [
    'bounded: sizes, lengths and call counts as listed under coverage.bounds; nothing is claimed beyond them',
    'environment model: rt/vfs.c (a POSIX regular file), rt/libc.c and rt/runtime.cpp (libc, libstdc++ and zlib contracts), rt/streams.h (in-memory string streams), fixed clock, memory allocation never fails',
    'encoding: clang 18 IR (-O1) of the current sources in /repo, executed by /verif/symx; little-endian x86-64',
]
