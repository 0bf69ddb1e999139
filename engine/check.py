#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--only NAME] [--replay FILE]

Compiles harness/PROPERTY.cpp together with the headers of /repo's working tree to LLVM IR, executes
every harness function symbolically, lets the solver decide every obligation, replays counterexamples
on natively compiled code, and writes evidence/PROPERTY.json.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, fnmatch, pickle, traceback, signal, math
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'libs/mathlib/include')
CXX = ['-std=c++11', '-DNDEBUG', '-I' + INC, '-I' + os.path.join(ROOT, 'harness')]
UB = ['-fsanitize=return,unreachable,array-bounds', '-fsanitize-trap=return,unreachable,array-bounds']
IRFLAGS = ['-O1', '-ftrivial-auto-var-init=pattern'] + UB + ['-S', '-emit-llvm', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-fno-exceptions', '-fno-rtti', '-fno-math-errno', '-Wno-everything', '-fno-discard-value-names'] + ['-fno-builtin-' + f for f in 'sin cos tan asin acos atan atan2 exp exp2 log pow fmod floor ceil'.split()]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def parse_opts(src):
    out = []
    for line in src.splitlines():
        m = re.match(r'\s*//@\s*(\S+)\s+(.*)', line)
        if m:
            d = {}
            for kv in m.group(2).split():
                if '=' in kv:
                    k, v = kv.split('=', 1)
                    try: v = float(v) if '.' in v or 'e' in v else int(v)
                    except ValueError: pass
                    d[k] = v
            out.append((m.group(1), d))
    return out

def opts_for(opts, name):
    d = {}
    for pat, o in opts:
        if fnmatch.fnmatch(name, pat): d.update(o)
    return d

def worker(mod, name, cfg, wfd):
    from engine.prove import Prover
    try:
        r = Prover(mod, name, cfg).run()
        data = dict(name=name, obligations=r.obligations, discharged=r.discharged, trivial=r.trivial, unknown=r.unknown, cex=r.cex,
                    labels=r.labels, witness=r.witness, reached=r.reached, errors=r.errors, functions=dict(r.functions), stats=r.stats,
                    notes=sorted(r.notes), wall=r.wall)
    except MemoryError:
        data = dict(name=name, crash='out of memory')
    except BaseException as e:
        data = dict(name=name, crash=traceback.format_exc()[-1500:])
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(data, f)

def run_all(mod, jobs, ncpu, limit):
    """jobs: list of (name, cfg); one process each"""
    import select
    t0 = time.time()
    out = {}
    pend = list(jobs)
    live = {}
    while pend or live:
        while pend and len(live) < ncpu:
            name, cfg = pend.pop(0)
            left = limit - (time.time() - t0)
            if left < 5:
                out[name] = dict(name=name, crash='not started: time limit of the whole check reached')
                continue
            cfg = dict(cfg)
            cfg['deadline'] = min(cfg.get('deadline', 60), left)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    worker(mod, name, cfg, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, name, b'', time.time() + cfg['deadline'] * 1.25 + 25]
        if not live: continue
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            b = os.read(r, 1 << 16)
            if b:
                live[r][2] += b
                continue
            pid, name, buf, _ = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try: out[name] = pickle.loads(buf)
            except Exception: out[name] = dict(name=name, crash='worker died')
        now = time.time()
        for r in list(live):
            if now > live[r][3]:
                pid, name, buf, _ = live.pop(r)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out[name] = dict(name=name, crash='killed after its deadline')
    return out

def widened(work):
    """work/wide: the current headers as namespace wide, with double in place of every float type; False if that does not compile"""
    n = 0
    for d, _, fs in os.walk(INC):
        for f in fs:
            if not f.endswith(('.h', '.hpp', '.inl', '.ipp')): continue
            t = open(os.path.join(d, f), newline='', errors='replace').read().replace('\r\n', '\n')
            out = []
            for line in t.split('\n'):
                if re.match(r'\s*#\s*pragma\s+once', line): continue
                if not re.match(r'\s*#\s*include', line):
                    line = re.sub(r'\bfloat\b', 'double', line)
                    line = re.sub(r'\b(a?(?:sin|cos|tan)|atan2|sqrt|cbrt|hypot|pow|exp2?|log(?:2|10)?|fabs|fmod|floor|ceil|round|trunc|rint|remainder|copysign|fmin|fmax|fma)f\s*\(', r'\1(', line)
                    line = re.sub(r'\bMATHLIB_NS', 'WIDE_NS', line)
                    line = re.sub(r'\bmathlib\b', 'wide', line)
                out.append(line)
            o = os.path.join(work, 'wide', os.path.relpath(os.path.join(d, f), INC))
            os.makedirs(os.path.dirname(o), exist_ok=True)
            n += 1
            open(o, 'w').write('#ifndef WIDE_COPY_%d\n#define WIDE_COPY_%d\n%s\n#endif\n' % (n, n, '\n'.join(out)))
    t = os.path.join(work, 'wide_test.cpp')
    open(t, 'w').write('#include <mathlib.h>\n#include "wide/mathlib.h"\nwide::Vec3<double> a; mathlib::Vec3<double> b; int main() { return 0; }\n')
    p = sh(['clang++', '-fsyntax-only', '-w'] + CXX + ['-I' + work, t])
    if p.returncode: print("NOTE the headers with every float a double do not compile: compared with themselves instead\n" + p.stdout[:600])
    return p.returncode == 0

class Native:
    def __init__(self, prop, work, src):
        self.work = work
        self.exe = os.path.join(work, 'native')
        self.san = os.path.join(work, 'native_san')
        nat = os.path.join(ROOT, 'harness', 'vp_native.cpp')
        self.cmds = [
            ['g++', '-O2', '-ffp-contract=off', '-w'] + CXX + [src, nat, '-o', self.exe, '-rdynamic', '-ldl'],
            ['clang++', '-O1', '-g', '-w', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'] + UB + CXX + [src, nat, '-o', self.san, '-rdynamic', '-ldl']]
        self.procs = [subprocess.Popen(self.cmds[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), None]
        self.n = 0
    def ready(self, k):
        if self.procs[k] is None:
            self.procs[k] = subprocess.Popen(self.cmds[k], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o, _ = self.procs[k].communicate() if self.procs[k].returncode is None else ('', '')
        if self.procs[k].returncode: raise RuntimeError("native build failed: " + (o or '')[:2000])
    def run(self, name, inputs, tol, san=False):
        """-> (list of (kind,label,a,b,ok), status) ; status in ok/fail/assume/crash"""
        self.ready(1 if san else 0)
        self.n += 1
        fn = os.path.join(self.work, 'in%d.txt' % self.n)
        with open(fn, 'w') as f:
            for x in inputs: f.write('%.17g\n' % x)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
        try:
            p = subprocess.run([self.san if san else self.exe, name, fn, repr(tol)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20, env=env)
        except subprocess.TimeoutExpired:
            return [], 'timeout', ''
        os.unlink(fn)
        rows = []
        st, leak = 'crash', False
        for line in p.stdout.splitlines():
            t = line.split('\t')
            if len(t) == 5:
                rows.append((t[0], t[1], float(t[2]), float(t[3]), t[4] == '1'))
            elif line == 'LEAK': leak = True
            elif line == 'DONE': st = 'leak' if leak else 'done'
            elif line == 'ASSUME': st = 'assume'
            elif line == 'EXHAUSTED': st = 'exhausted'
        return rows, st, p.stderr

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = 'thorough' if '--thorough' in a else 'quick'
    only = a[a.index('--only') + 1] if '--only' in a else None
    verbose = '-v' in a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        rc = check(prop, tier, only, verbose, seed, t0, work, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def known_findings(prop):
    out = []
    fn = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def check(prop, tier, only, verbose, seed, t0, work, argv):
    src = os.path.join(ROOT, 'harness', prop + '.cpp')
    text = open(src).read()
    opts = parse_opts(text)
    if opts_for(opts, '').get('wide') and widened(work): CXX.extend(['-DVP_WIDE', '-I' + work])
    native = Native(prop, work, src)
    if '--replay' in argv:
        return replay_file(prop, native, argv[argv.index('--replay') + 1], opts)
    ll = os.path.join(work, 'h.ll')
    p = sh(['clang++'] + IRFLAGS + CXX + [src, '-o', ll])
    if p.returncode:
        print("ERROR: harness does not compile against the current tree\n" + p.stdout[:3000])
        return 2
    from engine.irparse import parse_file
    mod = parse_file(ll)
    tparse = time.time() - t0
    names = sorted(n[1:] for n in mod.functions if re.match(r'@[hft]_\w+$', n))
    if tier == 'quick': names = [n for n in names if not n.startswith('t_')]
    if only: names = [n for n in names if any(fnmatch.fnmatch(n, o) for o in only.split(','))]
    jobs = []
    for n in names:
        o = dict(deadline=60 if tier == 'quick' else 900, seed=seed)
        o.update(opts_for(opts, n))
        if tier == 'quick': o.pop('tdeadline', None)
        else:
            o['deadline'] = max(o.get('tdeadline', 0), o['deadline'], 900)
            o['qtimeout'] = max(30000, 4 * o.get('qtimeout', 8000))
            o['samples'] = 48
        if n.startswith('f_'): o['mode'] = 'fp'
        jobs.append((n, o))
    jobs.sort(key=lambda j: -j[1].get('cost', 1))
    res = run_all(mod, jobs, int(os.environ.get('VP_JOBS', '8')), 420 if tier == 'quick' else 6 * 3600)
    tsym = time.time() - t0
    try: native.ready(0)
    except RuntimeError as e:
        print("ERROR: " + str(e)); return 2
    # ------------------------------------------------------------------ counterexamples
    known = known_findings(prop)
    viol, knownhit, unconf, incon, mism = [], [], [], [], []
    tv = 0
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    cfgs = dict(jobs)
    for n in names:
        d = res[n]
        if 'crash' in d:
            incon.append((n, d['crash'])); continue
        tol = cfgs[n].get('tol', 0.0 if n.startswith('f_') else 1e-7)
        done = set()
        for g in d['cex']:
            lab = g['label']
            if lab in done: continue
            hit = None
            for inp, how in g['cands']:
                hit = confirm(native, n, lab, inp, tol)
                if hit: break
            if hit:
                done.add(lab)
                kf = [k for k in known if k[0] == n and k[1] == lab]
                fn = os.path.join(ROOT, 'evidence', 'replay', '%s-%s-%s.txt' % (prop, n, re.sub(r'\W+', '_', lab)[:60]))
                with open(fn, 'w') as f:
                    f.write('# property %s\n# harness %s\n# label %s\n# %s (%s)\n# replay: python3-vt engine/check.py %s --replay %s\n' % (prop, n, lab, hit, how, prop, fn))
                    for x in inp: f.write('%.17g\n' % x)
                (knownhit if kf else viol).append((n, lab, hit, fn, kf[0][2] if kf else ''))
        for g in d['cex']:
            if g['label'] not in done: unconf.append((n, g['label'], len(g['cands'])))
        for u in d['unknown']: 
            if not any(u.startswith(l) for l in done): incon.append((n, 'undecided: ' + u))
        for e in d['errors']: incon.append((n, e))
        # ---------------------------------------------------------------- traces replayed natively
        groups = {}
        for lab, (inp, x, y) in d['witness'].items(): groups.setdefault(tuple(inp), []).append((lab, x, y))
        for lab, inp in d['reached'].items():
            if lab not in d['witness']: groups.setdefault(tuple(inp), []).append((lab, None, None))
        items = sorted(groups.items(), key=lambda g: -len(g[1]))[:12 if tier == 'quick' else 60]
        for inp, ls in items:
            rows, st, err = native.run(n, list(inp), tol)
            if st in ('crash', 'timeout'):
                mism.append((n, ls[0][0], 'native run: ' + st)); continue
            good = True
            for lab, x, y in ls:
                rr = [r for r in rows if r[1] == lab]
                if not rr:
                    if x is not None: good = False; mism.append((n, lab, 'not reached natively'))
                    continue
                if x is None: continue
                okk = any((r[4] == bool(x)) if r[0] == 'I' else close(r[2], x) and close(r[3], y) for r in rr)
                if not okk:
                    good = False
                    mism.append((n, lab, 'native %r, symbolic %r' % ((rr[0][2], rr[0][3]), (x, y))))
            if good: tv += 1
        for lab in d['labels']:
            if lab not in d['witness'] and lab not in d['reached'] and not lab.startswith('memory safety'):
                incon.append((n, 'no witness: ' + lab))
    # ------------------------------------------------------------------ report
    for n, lab, hit, fn, what in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (prop, n, lab, what))
    for n, lab, hit, fn, _ in viol:
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        print("  %s: %s: %s" % (n, lab, hit))
    lines = ["INCONCLUSIVE %s: %s: candidates not reproduced natively" % (n, lab) for n, lab, k in unconf] + ["INCONCLUSIVE %s: %s" % (n, w[-600:]) for n, w in incon]
    for l in dict.fromkeys(lines): print(l + (" (x%d)" % lines.count(l) if lines.count(l) > 1 else ""))
    if verbose:
        for n in names:
            for g in res[n].get('cex', [])[:3]:
                print("   candidate %s: %s: %r" % (n, g['label'], [(c[0][:14], c[1]) for c in g['cands'][:2]]))
    if verbose or True:
        for m in mism[:10]: print("NOTE encoding and native run differ: %s: %s: %s" % m)
    ok = [res[n] for n in names if 'crash' not in res[n]]
    tot = lambda k: sum(d[k] for d in ok)
    S = lambda k: sum(d['stats'].get(k, 0) for d in ok)
    funcs = {}
    for d in ok:
        for f, c in d['functions'].items(): funcs[f] = funcs.get(f, 0) + c
    notes = sorted(set(x for d in ok for x in d['notes']))
    labels = sorted(set(n + ': ' + l for n in names if 'crash' not in res[n] for l in res[n]['labels']))
    if os.environ.get('VP_FUNCS'):  # which harness encodes which functions, for tools/mutate.py
        with open(os.path.join(os.environ['VP_FUNCS'], prop + '.json'), 'w') as f:
            json.dump({n: dict(wall=res[n].get('wall', 0), functions=demangle([g for g in res[n].get('functions', {})])) for n in names if 'crash' not in res[n]}, f)
    fn = demangle([f for f in funcs if not re.match(r'@[hft]_\w+$', f)])
    samples = []
    for n in names[:60]:
        d = res[n]
        if 'crash' in d: continue
        for lab, (inp, x, y) in list(d['witness'].items())[:1]:
            if len(samples) < 6: samples.append(dict(harness=n, obligation=lab, inputs=inp[:40], left=x, right=y))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=[
                  "harnesses named h_/t_: floating-point arithmetic is exact real arithmetic (rounding, overflow and NaN are outside); harnesses named f_: bit-exact IEEE-754",
                  "library functions (sqrt, sin, cos, acos, asin, atan2, fmod, exp2, pow) have their mathematical meaning",
                  "clang 18 -O1 translates the templates to LLVM IR correctly; z3 answers correctly"] + notes,
              coverage=dict(
                  states=S('paths'), transitions=S('steps'), traces_validated_against_impl=tv, samples=samples,
                  harnesses=len(names), obligations=tot('obligations'), discharged=tot('discharged'), closed_by_normal_form=tot('trivial'),
                  inconclusive=len(incon) + len(unconf), inconclusive_items=[list(x) for x in (unconf + incon)][:50],
                  labels=len(labels), label_list=labels[:400],
                  paths_pruned_infeasible=S('pruned'), solver_queries=S('queries'), solver_seconds=round(S('solver_s'), 2),
                  sat=S('sat'), unsat=S('unsat'), solver_unknown=S('solver_unknown'), feasibility_queries=S('feasibility'),
                  functions_encoded=fn[:400], functions_encoded_count=len(fn),
                  known_findings=len(knownhit), encoding_mismatches=[list(m) for m in mism][:20],
                  bounds=bounds_text(text), complete=all(d['stats'].get('complete') for d in ok) and not incon and not unconf,
                  meaning="states = complete symbolic paths; transitions = IR instructions executed symbolically; obligations are assertions decided under a path condition for all values within the bounds"))
    if not only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d obligations, %d discharged (%d by normal form), %d queries, %.1f s solver, %d traces validated, %d inconclusive, %d violations, %.1f s (compile/parse %.1f s, symbolic %.1f s)" % (
        prop, tier, len(names), S('paths'), tot('obligations'), tot('discharged'), tot('trivial'), S('queries'), S('solver_s'), tv,
        len(incon) + len(unconf), len(viol), time.time() - t0, tparse, tsym))
    if verbose:
        for n in sorted(names, key=lambda n: -res[n].get('wall', 0))[:8]:
            d = res[n]
            if 'crash' not in d: print("   %-40s %.1fs paths %d steps %d q %d solver %.1fs" % (n, d['wall'], d['stats']['paths'], d['stats']['steps'], d['stats']['queries'], d['stats']['solver_s']))
    return 1 if viol else 0

def bounds_text(text):
    return [m.group(1).strip() for m in re.finditer(r'//\s*bound:\s*(.*)', text)] or ["no loop or size bound is reached: all paths of every harness are enumerated"]

def close(a, b):
    if a == b or (a != a and b != b): return True
    return abs(a - b) <= 1e-5 * (1 + max(abs(a), abs(b)))

def confirm(native, n, lab, inp, tol):
    """description of the failure if the real code fails this label on this input"""
    if lab.startswith('memory safety') :
        rows, st, err = native.run(n, inp, tol, san=True)
        if 'AddressSanitizer' in err:
            m = re.search(r'ERROR: (AddressSanitizer: \S+)', err)
            return 'AddressSanitizer reports ' + (m.group(1) if m else 'an error')
        if st == 'crash': return 'the native run crashes'
        if st == 'leak' and 'never released' in lab: return 'storage allocated by the call is still allocated after it'
        return None
    for san in (False, True):
        rows, st, err = native.run(n, inp, tol, san)
        for k, l, x, y, ok in rows:
            if l == lab and not ok:
                return 'real code gives %r, property requires %s %r%s' % (x, {'L': '<=', 'N': '~'}.get(k, '='), y, ' (automatic variables filled with a pattern)' if san else '')
        if st == 'crash' and 'AddressSanitizer' in err: return 'AddressSanitizer error in the native run'
    return None

def replay_file(prop, native, fn, opts):
    name, lab, vals = None, None, []
    for line in open(fn):
        if line.startswith('# harness '): name = line[10:].strip()
        elif line.startswith('# label '): lab = line[8:].strip()
        elif not line.startswith('#'): vals.append(float(line))
    h = confirm(native, name, lab, vals, opts_for(opts, name).get('tol', 0.0 if name.startswith('f_') else 1e-7))
    print('reproduced: ' + h if h else 'not reproduced')
    return 1 if h else 0

def demangle(names):
    if not names: return []
    p = subprocess.run(['c++filt'], input='\n'.join(n[1:] for n in names), stdout=subprocess.PIPE, text=True)
    return sorted(p.stdout.splitlines())

if __name__ == '__main__':
    main()
