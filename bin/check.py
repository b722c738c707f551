#!/usr/bin/env python3
"""Solver-based check of one property:  check.py C01 [--tier quick|thorough] [--entry h] [-j N]
Encodes /repo's current sources (LLVM IR) together with the property's harnesses, explores them
symbolically with engine/rsym (z3), replays every counterexample against the real code, writes evidence."""
import sys, os, re, json, subprocess, hashlib, time, tempfile, shutil, glob, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo'); SRC = REPO + '/src'
B = os.environ.get('VF_BUILD', V + '/build')
ZL = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib'
NDEBUG = {'Design', 'Driver', 'InternalOptimizers', 'ObjectiveFunctions', 'Optimizers', 'SurrogateModels'}
NOOMP = {'LinearAlgebra', 'Bounds', 'CorrelationFunctions'}
CLANG = ['clang++', '-std=gnu++17', '-O1', '-g1', '-fno-builtin', '-D__NO_INLINE__', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-mlong-double-64', '-fno-pic', '-fno-access-control', '-w', '-I' + V + '/include/sym', '-I' + V + '/include/env', '-I' + V + '/include', '-I' + SRC + '/INCLUDE', '-I' + SRC, '-emit-llvm', '-c']

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
def repo_files(): return sorted(p for e in ('cpp', 'hpp', 'h', 'c') for p in glob.glob(SRC + '/**/*.' + e, recursive=True) if 'UnitTests' not in p)
def sources():
    skip = {'Rodeo.cpp'}
    return sorted(p for p in glob.glob(SRC + '/**/*.cpp', recursive=True) if 'UnitTests' not in p and os.path.basename(p) not in skip)
def defs(p):
    d = os.path.relpath(p, SRC).split('/')[0]; r = []
    if d in NDEBUG: r.append('-DNDEBUG')
    if d == 'LinearAlgebra': r.append('-DOPENBLAS')
    return r
def omp(p): return [] if os.path.relpath(p, SRC).split('/')[0] in NOOMP | {'Design'} else ['-DOPENMP_SUPPORT']

def ensure_engine():
    if not os.path.exists(B + '/rsym') or os.path.getmtime(B + '/rsym') < os.path.getmtime(V + '/engine/rsym.cpp'):
        r = sh(['make', '-C', V + '/engine', 'BUILD=' + B])
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)

def prune(d, keep):
    for x in os.listdir(d):
        if x not in keep and not x.startswith('.'):
            p = os.path.join(d, x)
            try:
                if time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            except OSError: pass

def compile_all(out, mk, what):
    """mk(src,obj) -> command list; returns (objs, failures)"""
    os.makedirs(out, exist_ok=True); srcs = sources(); fails = []
    def one(s):
        o = out + '/' + os.path.relpath(s, SRC).replace('/', '_') + '.o'
        if os.path.exists(o): return o
        r = sh(mk(s, o + '.tmp%d' % os.getpid()))
        if r.returncode: fails.append((s, r.stdout)); return None
        os.rename(o + '.tmp%d' % os.getpid(), o); return o
    with ThreadPoolExecutor(8) as ex: objs = [o for o in ex.map(one, srcs) if o]
    return objs, fails

def build_bitcode():
    shim = sorted(p for p in glob.glob(V + '/include/**/*', recursive=True) if os.path.isfile(p))
    h = filehash(repo_files() + shim) + hashlib.sha256(' '.join(CLANG).encode()).hexdigest()[:6]; os.makedirs(B + '/bc', exist_ok=True); out = B + '/bc/' + h
    objs, fails = compile_all(out, lambda s, o: CLANG + defs(s) + omp(s) + (['-fopenmp'] if omp(s) else []) + [s, '-o', o], 'bitcode')
    prune(B + '/bc', {h})
    rt = B + '/rt-' + hashlib.sha256(' '.join(CLANG).encode()).hexdigest()[:6] + filehash(shim + [V + '/rt/rt.cpp']) + '.bc'
    if not os.path.exists(rt):
        t = rt + '.tmp%d' % os.getpid(); r = sh(CLANG + [V + '/rt/rt.cpp', '-o', t])
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
        os.rename(t, rt)
    allbc = out + '/all-' + os.path.basename(rt)
    if not os.path.exists(allbc):
        t = allbc + '.tmp%d' % os.getpid(); r = sh(['llvm-link-18', '--suppress-warnings', '-o', t] + objs + [rt])
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
        os.rename(t, allbc)
    return allbc, [(os.path.relpath(s, REPO), m[-400:]) for s, m in fails], [os.path.relpath(s, REPO) for s in sources()]

def build_native(asan):
    shim = sorted(p for p in glob.glob(V + '/include/**/*', recursive=True) if os.path.isfile(p))
    h = filehash(repo_files() + shim) + ('t' if asan == 'tsan' else 'a' if asan else ''); os.makedirs(B + '/native', exist_ok=True); out = B + '/native/' + h
    fl = ['-O1', '-g', '-fsanitize=thread'] if asan == 'tsan' else ['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-DVF_SANITIZE'] if asan else ['-O2']
    objs, fails = compile_all(out, lambda s, o: ['g++', '-std=gnu++17', '-fno-access-control', '-w'] + fl + (['-fopenmp'] if omp(s) else []) + ['-I' + V + '/include/env', '-I' + V + '/include', '-I' + SRC + '/INCLUDE', '-I' + SRC, '-I/usr/include/x86_64-linux-gnu', '-c'] + defs(s) + omp(s) + [s, '-o', o], 'native')
    prune(B + '/native', {h})
    return objs, ['-O1', '-g', '-DVF_SANITIZE', '-fno-omit-frame-pointer'] if asan == 'tsan' else fl, out

def native_exe(hfile, entry, deep, asan, lock={}):
    objs, fl, out = build_native(asan)
    exe = out + '/exe_%s_%s%s_%s' % (os.path.basename(hfile)[:-4], entry, '_deep' if deep else '', filehash([hfile, V + '/rt/native.cpp'] + sorted(glob.glob(V + '/harness/*.h')))[:8])
    if not os.path.exists(exe):
        if asan == 'tsan': # the race detector watches the repository's code only, not the scheduler of the replay
            stubs = []
            for f in (hfile, V + '/rt/native.cpp'):
                o = exe + '.' + os.path.basename(f) + '.o'; r = sh(['g++', '-std=gnu++17', '-fno-access-control', '-w', '-fopenmp'] + fl + (['-DVF_DEEP=1'] if deep else []) + ['-I' + V + '/include/env', '-I' + V + '/include', '-I' + SRC + '/INCLUDE', '-I' + SRC, '-DVF_ENTRY=' + entry, '-DOPENMP_SUPPORT', '-c', f, '-o', o]); stubs.append(o)
                if r.returncode: return None, r.stdout[-2000:]
            r = sh(['g++', '-fopenmp', '-fsanitize=thread'] + stubs + objs + ['-lopenblas', '-lpthread', '-o', exe + '.tmp%d' % os.getpid()])
            if r.returncode: return None, r.stdout[-2000:]
            os.rename(exe + '.tmp%d' % os.getpid(), exe); return exe, ''
        r = sh(['g++', '-std=gnu++17', '-fno-access-control', '-w', '-fopenmp'] + fl + (['-DVF_DEEP=1'] if deep else []) + ['-I' + V + '/include/env', '-I' + V + '/include', '-I' + SRC + '/INCLUDE', '-I' + SRC, '-DVF_ENTRY=' + entry, '-DOPENMP_SUPPORT', hfile, V + '/rt/native.cpp'] + objs + ['-lopenblas', '-lboost_system', '-lpthread', '-o', exe + '.tmp%d' % os.getpid()])
        if r.returncode:
            r = sh(['g++', '-std=gnu++17', '-fno-access-control', '-w', '-fopenmp'] + fl + (['-DVF_DEEP=1'] if deep else []) + ['-I' + V + '/include/env', '-I' + V + '/include', '-I' + SRC + '/INCLUDE', '-I' + SRC, '-DVF_ENTRY=' + entry, '-DOPENMP_SUPPORT', hfile, V + '/rt/native.cpp'] + objs + ['-lopenblas', '-lpthread', '-o', exe + '.tmp%d' % os.getpid()])
        if r.returncode: return None, r.stdout[-2000:]
        os.rename(exe + '.tmp%d' % os.getpid(), exe)
    return exe, ''

def run_native(exe, infile, timeout=60):
    d = tempfile.mkdtemp(prefix='vfreplay'); 
    try:
        env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:exitcode=46', TSAN_OPTIONS='halt_on_error=1:exitcode=46')
        r = subprocess.run([exe, infile], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired: return -99, 'timeout'
    finally: shutil.rmtree(d, ignore_errors=True)

def parse_harnesses(prop):
    hs = []
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        txt = open(f).read(); cur = None
        for line in txt.splitlines():
            m = re.match(r'//\s*@entry\s+(\S+)\s+(.*)$', line)
            if m:
                kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(2)))
                kv = {k: v.strip('"') for k, v in kv.items()}
                cur = dict(file=f, entry=m.group(1), props=kv.get('prop', '').split(','), mode=kv.get('mode', 'real'), time=int(kv.get('time', 60)), qtime=int(kv.get('qtime', 10000)), tier=kv.get('tier', 'both'), bounds=kv.get('bounds', ''), dtime=int(kv.get('dtime', 0)))
                hs.append(cur); continue
            m = re.match(r'//\s*@bounds\s+(.*)$', line)
            if m and cur: cur['bounds'] = (cur['bounds'] + ' ' + m.group(1)).strip()
    return [h for h in hs if prop in h['props'] or prop == 'ALL']

def chunks(txt):
    """line ranges of the top-level definitions of a harness file"""
    out = []; depth = 0; start = None; block = False
    for n, line in enumerate(txt.split('\n')):
        s = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', '', line)
        s = re.sub(r'//.*', '', s)
        if s.lstrip().startswith('#'): continue
        if start is None and s.strip(): start = n
        depth += s.count('{') - s.count('}')
        if start is not None and depth <= 0 and re.search(r'[;}]\s*$', s): out.append((start, n)); start = None; depth = 0
    return out

def salvage(f, o, deep, work):
    """a member the harness looks at has another name now: leave out the definitions that mention it, keep the rest"""
    d = work + '/salvage-' + os.path.basename(f)[:-4]; os.makedirs(d, exist_ok=True); g = d + '/' + os.path.basename(f); shutil.copy(f, g)
    for h in glob.glob(V + '/harness/*.h'): shutil.copy(h, d)
    names = set(re.findall(r'VF_HARNESS\((\w+)\)', open(f).read()))
    for k in range(12):
        r = sh(CLANG + ['-DOPENMP_SUPPORT', '-ferror-limit=0'] + (['-DVF_DEEP=1'] if deep else []) + [g, '-o', o])
        if not r.returncode: left = set(re.findall(r'VF_HARNESS\((\w+)\)', open(g).read())); return (g if left else None), sorted(names - left)
        hit = {}
        for m in re.finditer(r'^(/[^:\n]+):(\d+):\d+: (?:fatal )?error:', r.stdout, re.M): hit.setdefault(m.group(1), set()).add(int(m.group(2)) - 1)
        done = False
        for p, ls in hit.items():
            if os.path.dirname(p) != d: continue
            txt = open(p).read(); L = txt.split('\n')
            for a, b in chunks(txt):
                if any(a <= x <= b for x in ls):
                    done = True
                    for x in range(a, b + 1): L[x] = ''
            open(p, 'w').write('\n'.join(L))
        if not done: return None, []
    return None, []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('-j', type=int, default=8); ap.add_argument('-v', action='store_true'); ap.add_argument('--diff', action='store_true', help='also compare engine traces with native runs')
    a = ap.parse_args(); t0 = time.time(); P = a.prop; deep = a.tier == 'thorough'
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence/replay', exist_ok=True)
    ensure_engine(); allbc, cfails, srcs = build_bitcode()
    hs = [h for h in parse_harnesses(P) if (h['tier'] in ('both', a.tier)) and (not a.entry or h['entry'] == a.entry)]
    if not hs: print('no harness for', P); sys.exit(2)
    known = []
    if os.path.exists(V + '/known-findings.json'): known = [k for k in json.load(open(V + '/known-findings.json'))['findings'] if P in (k['property'], 'ALL') or P == 'ALL']
    work = tempfile.mkdtemp(prefix='vfwork'); notes = ['%s does not compile in the symbolic build: not encoded' % s for s, m in cfails]; usable = {}; salvaged = {}
    def comp(f):
        o = work + '/' + os.path.basename(f) + '.bc'; r = sh(CLANG + ['-DOPENMP_SUPPORT'] + (['-DVF_DEEP=1'] if deep else []) + [f, '-o', o])
        if r.returncode:
            g, lost = salvage(f, o, deep, work)
            if not g: return f, None, r.stdout
            salvaged[f] = (g, lost); notes.append('harness %s: left out what does not compile against the current tree: %s' % (os.path.basename(f), ' '.join(lost)))
        l = work + '/' + os.path.basename(f) + '.linked.bc'; r = sh(['llvm-link-18', '--suppress-warnings', '-o', l, o, allbc])
        if r.returncode: return f, None, r.stdout
        # keep only what the harnesses of this file reach
        ents = ','.join(sorted({h['entry'] for h in hs if h['file'] == f} - set(salvaged.get(f, ('', ()))[1])))
        l2 = l + '.s'; r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ents, l, '-o', l2])
        os.unlink(l) if r.returncode == 0 else None
        return f, (l2 if r.returncode == 0 else l), ''
    with ThreadPoolExecutor(8) as ex:
        for f, l, m in ex.map(comp, sorted({h['file'] for h in hs})):
            if l: usable[f] = l
            else: notes.append('harness %s does not compile against the current tree: %s' % (os.path.basename(f), m[-600:])); print(notes[-1])
    def run(h):
        if h['file'] not in usable or h['entry'] in salvaged.get(h['file'], ('', ()))[1]: return h, None
        out = work + '/' + h['entry'] + '.json'; t = h['dtime'] or (min(h['time'] * 4, 600)) if deep else h['time']
        cmd = [B + '/rsym', usable[h['file']], '--entry', h['entry'], '--mode', h['mode'], '--out', out, '--time', str(t), '--qtime', str(h['qtime'])]
        cmd += ['--traces', '20' if a.diff else '3']
        env = dict(os.environ, LD_LIBRARY_PATH=ZL, RSYM_REPO=SRC)
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t + 120, env=env)
        except subprocess.TimeoutExpired: return h, dict(error='engine timeout')
        if os.environ.get('RSYM_SLOW'): sys.stderr.write(r.stdout)
        if os.path.exists(out):
            try: return h, json.load(open(out))
            except Exception as e: return h, dict(error='bad result: %s' % e)
        return h, dict(error=r.stdout[-1500:])
    with ThreadPoolExecutor(a.j) as ex: res = list(ex.map(run, sorted(hs, key=lambda h: -h['time'])))
    rc = 0; ok = 0; viol = []; kf = []
    for h, r in res:
        if r is None: continue
        if 'error' in r: notes.append('%s: engine error: %s' % (h['entry'], r['error'])); print(notes[-1][:1500]); continue
        ok += 1
        for e, n in (r.get('inconclusive') or {}).items(): notes.append('%s: not explored further: %s (x%s)' % (h['entry'], e, n))
        if r.get('reach_missing'): notes.append('%s: never reached: %s' % (h['entry'], r['reach_missing']))
        seen = set()
        for i, v in enumerate(r.get('violations', [])):
            mem = v['kind'] == 'memory'; inp = V + '/evidence/replay/%s-%s-%d.txt' % (P, h['entry'], i)
            with open(inp, 'w') as f:
                f.write('# property %s harness %s entry %s tier %s\n# %s at %s: %s\n' % (P, os.path.relpath(h['file'], V), h['entry'], a.tier, v['kind'], v.get('loc'), v['msg'])); f.write('\n'.join(v['inputs']) + '\n'); f.write('# replay: python3 %s/bin/replay.py %s\n' % (V, inp))
            good = False; why = ''
            for asan in (['tsan'] if v['kind'] == 'race' else [True] if mem else [False, True] if v['kind'] not in ('assert',) else [False]):
                exe, err = native_exe(salvaged.get(h['file'], (h['file'],))[0], h['entry'], deep, asan)
                if not exe: why = 'native build failed: ' + err; continue
                c, e = run_native(exe, inp); why = 'native exit %s: %s' % (c, e.strip()[-300:])
                if c in (42, 45, 46) or (c < 0 and c != -99): good = True; break
                if c == 0 and mem is False and v['kind'] == 'assert': pass
            v['replay'] = why
            if not good:
                notes.append('%s: candidate "%s" (%s) did not replay (%s): not reported' % (h['entry'], v['msg'], v.get('loc'), why)); print('UNCONFIRMED ' + notes[-1][:400]); continue
            rm = re.search(r'REPLAY-VIOLATION (.*)', why); msg = rm.group(1).strip() if rm else v['msg']
            k = [x for x in known if x['entry'] == h['entry'] and x['msg'] in (msg,)]
            if k:
                if (h['entry'], msg) not in seen: kf.append((k[0], h)); seen.add((h['entry'], msg))
                continue
            viol.append((h, v, msg, inp, why))
    done = set()
    for k, h in kf:
        if k['what'] not in done: print('KNOWN-FINDING: property=%s %s' % (k['property'] if P == 'ALL' else P, k['what'])); done.add(k['what'])
    printed = set()
    for h, v, msg, inp, why in viol:
        if (h['entry'], msg) in printed: rc = 1; continue
        printed.add((h['entry'], msg))
        print('VIOLATION property=%s replay=%s' % (P, inp)); print('  entry %s: %s: %s (%s) %s' % (h['entry'], v['kind'], msg, v.get('loc'), ' '.join(x for x in v['inputs'][:14])[:600])); rc = 1
    # engine runs against native runs of the same inputs
    validated = 0; mism = []
    def difft(hr):
        h, r = hr; n = okc = 0; bad = []
        if not r or not r.get('traces'): return n, okc, bad
        exe, err = native_exe(salvaged.get(h['file'], (h['file'],))[0], h['entry'], deep, False)
        if not exe: return n, okc, ['%s: no native build for trace validation: %s' % (h['entry'], err[-300:])]
        for k, t in enumerate(r['traces']):
            inp = work + '/trace-%s-%d.txt' % (h['entry'], k); open(inp, 'w').write('\n'.join(t['inputs']) + '\n'); c, e = run_native(exe, inp)
            if 'REPLAY-ASSUME' in e: continue
            n += 1; got = re.findall(r'OBS (\S+) (\S+)', e); exp = t['obs']
            bads = [] if c == 0 else ['exit %d %s' % (c, e[-200:])]
            if len(got) != len(exp): bads.append('obs count %d vs %d' % (len(got), len(exp)))
            for (gn, gv), x in zip(got, exp):
                en, ev = x.rsplit(' ', 1) if isinstance(x, str) else (x[0], x[1])
                try: g, w = float(gv), float(ev)
                except ValueError: continue
                if gn != en or not (g == w or abs(g - w) <= 1e-6 * max(1, abs(g), abs(w)) or (g != g and w != w)): bads.append('%s native %s engine %s' % (gn, gv, ev))
            if bads: bad.append('%s: engine and native run differ: %s on %s' % (h['entry'], bads[:3], t['inputs'][:8]))
            else: okc += 1
        return n, okc, bad
    try:
        build_native(False)
        with ThreadPoolExecutor(a.j) as ex:
            for n, okc, bad in ex.map(difft, res): validated += okc; mism += bad
    except Exception as e: notes.append('trace validation failed: %s' % e)
    notes += mism
    if a.diff:
        for m in mism: print('DIFF', m)
        print('traces validated:', validated, 'mismatches:', len(mism))
    # evidence
    R = [(h, r) for h, r in res if r and 'error' not in r]; tot = lambda k: sum(r.get(k) or 0 for _, r in R)
    und = tot('undecided'); dropped = tot('states_dropped'); incl = any(r.get('inconclusive') for _, r in R)
    fns = sorted({f for _, r in R for f in r.get('functions', [])})
    ev = dict(property=P, tier=a.tier, technique='bounded symbolic execution of the LLVM IR of /repo sources, assertions decided by z3',
              verdict='violated' if viol else ('held within bounds' if not (und or dropped or incl) else 'held on everything decided (see limits)'),
              harnesses=[dict(entry=h['entry'], file=os.path.relpath(h['file'], V), mode=h['mode'], bounds=h['bounds'], **{k: r.get(k) for k in ('paths', 'forks', 'instructions', 'queries', 'cache_hits', 'sat', 'unsat', 'unknown', 'solver_s', 'wall_s', 'obligations', 'discharged', 'trivial', 'undecided', 'states_dropped', 'reached', 'reach_missing', 'inconclusive', 'obligation_kinds')}) for h, r in R],
              functions_encoded=fns, sources_encoded=srcs, queries=tot('queries'), paths=tot('paths'), solver_seconds=round(tot('solver_s'), 2), obligations=tot('obligations'), discharged=tot('discharged'), undecided=und, limits=notes,
              known_findings=[k['what'] for k, h in kf], traces_validated=validated, violations=[dict(entry=h['entry'], kind=v['kind'], message=msg, location=v.get('loc'), inputs=v['inputs'][:60], replay=inp, native=why) for h, v, msg, inp, why in viol], wall_seconds=round(time.time() - t0, 1))
    finish_evidence(ev, P, a.tier, rc)
    if P != 'ALL' or a.v:
        print('%s %s: %d harnesses, %d paths, %d obligations (%d discharged, %d undecided), %d queries, solver %.1fs, wall %.1fs' % (P, ev['verdict'], len(R), ev['paths'], ev['obligations'], ev['discharged'], und, ev['queries'], ev['solver_seconds'], time.time() - t0))
    if a.v:
        for h, r in R: print('   %-34s paths %-6s obl %-6s disch %-6s und %-3s q %-6s solver %-7s wall %-7s drop %s %s %s' % (h['entry'], r.get('paths'), r.get('obligations'), r.get('discharged'), r.get('undecided'), r.get('queries'), round(r.get('solver_s', 0), 1), round(r.get('wall_s', 0), 1), r.get('states_dropped'), r.get('inconclusive') or '', r.get('reach_missing') or ''))
        for n in notes: print('   note:', n[:700])
    shutil.rmtree(work, ignore_errors=True)
    if ok == 0: print('nothing could be explored'); sys.exit(2)
    sys.exit(rc)

def finish_evidence(ev, P, tier, rc):
    samples = [dict(entry=h['entry'], bounds=h['bounds'], mode=h['mode'], paths=h['paths'], obligations=h['obligations'], discharged=h['discharged']) for h in ev['harnesses']][:40]
    expl = ('Symbolic execution of the LLVM IR compiled from the current /repo sources. Every path of every harness within the stated bounds is followed; '
            'each assertion (and each memory access) is a query to z3 over all input values of the path. %d harnesses, %d paths, %d obligations of which %d discharged by the solver or by constant folding, %d undecided.' % (len(ev['harnesses']), ev['paths'], ev['obligations'], ev['discharged'], ev['undecided']))
    cov = dict(states=ev['paths'], transitions=sum(h.get('forks') or 0 for h in ev['harnesses']), traces_validated_against_impl=ev.pop('traces_validated', 0), samples=samples, obligations=ev['obligations'], discharged=ev['discharged'], undecided=ev['undecided'], queries=ev['queries'], solver_seconds=ev['solver_seconds'], explanation=expl, functions_encoded=ev.pop('functions_encoded'), sources_encoded=ev.pop('sources_encoded'), harnesses=ev.pop('harnesses'), limits=ev.pop('limits'), verdict=ev['verdict'], exhaustive=False)
    out = dict(property=P, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov,
               assumptions=['z3 and the IR interpreter engine/rsym.cpp are trusted for "holds" verdicts; every reported violation is replayed on the natively compiled code', 'mode=real harnesses treat double arithmetic as exact real arithmetic (rounding errors are covered by the tolerances of the assertions); mode=fp harnesses are bit-precise', 'the C++ stream library, random number generators, BLAS/LAPACK and external processes are replaced by the models in include/ and rt/'],
               wall_s=ev['wall_seconds'], violations=len(ev['violations']), violation_details=ev['violations'], known_findings=ev['known_findings'])
    json.dump(out, open(V + '/evidence/%s.json' % P, 'w'), indent=1)
if __name__ == '__main__': main()
