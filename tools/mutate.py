#!/usr/bin/env python3
"""Mutation analysis of the checks: tools/mutate.py index | run N SEED [file-glob] | one FILE:LINE OLD NEW
Single-token changes of the headers, each run against the harnesses whose code includes the changed line; prints the ones no
harness notices. Works on copies of the headers in a scratch directory."""
import sys, os, re, json, random, subprocess, shutil, glob, fnmatch, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'libs/mathlib/include')
STATE = os.environ.get('MUT_STATE', '/tmp/w/mutstate')
PROPS = sorted(os.path.basename(f)[:-4] for f in glob.glob(ROOT + '/harness/C*.cpp'))

def index():
    os.makedirs(STATE, exist_ok=True)
    def one(prop):
        ll = os.path.join(STATE, prop + '.ll')
        subprocess.run(['clang++', '-std=c++11', '-DNDEBUG', '-I' + INC, '-I' + ROOT + '/harness', '-O0', '-g1', '-S', '-emit-llvm', '-w', ROOT + '/harness/%s.cpp' % prop, '-o', ll], check=True)
        md, funcs, cur = {}, {}, None
        for line in open(ll):
            if line.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line); cur = m.group(1); funcs[cur] = (set(), set())
            elif line.startswith('}'): cur = None
            elif cur:
                m = re.search(r'!dbg !(\d+)', line)
                if m: funcs[cur][0].add(m.group(1))
                for c in re.findall(r'@("[^"]+"|[\w.$]+)', line): funcs[cur][1].add(c)
            elif line.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', line)
                if m: md[m.group(1)] = m.group(2)
        def fileof(i):
            while True:
                t = md[i]
                m = re.search(r'\bfile: !(\d+)', t)
                if m:
                    u = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', md[m.group(1)])
                    return os.path.normpath(os.path.join(u.group(2), u.group(1)))
                m = re.search(r'scope: !(\d+)', t)
                if not m: return ''
                i = m.group(1)
        loc = {}
        def lines(f):
            out = set()
            for d in funcs[f][0]:
                if d not in loc:
                    m = re.search(r'DILocation\(line: (\d+).*scope: !(\d+)', md.get(d, ''))
                    loc[d] = (os.path.relpath(fileof(m.group(2)), INC), int(m.group(1))) if m else None
                if loc[d] and not loc[d][0].startswith('..'): out.add(loc[d])
            return out
        res = {}
        for h in [f for f in funcs if re.match(r'[hf]_\w+$', f)]:
            seen, todo = {h}, [h]
            while todo:
                for c in funcs[todo.pop()][1]:
                    if c in funcs and c not in seen: seen.add(c); todo.append(c)
            s = set()
            for f in seen: s |= lines(f)
            res[h] = sorted(s)
        os.unlink(ll)
        return prop, res
    with ThreadPoolExecutor(8) as ex: r = dict(ex.map(one, PROPS))
    json.dump(r, open(STATE + '/index.json', 'w'))
    print({p: len(r[p]) for p in r})

OPS = [(r'(?<=[\w)\]] )\+(?= )', ['-']), (r'(?<=[\w)\]] )-(?= )', ['+']), (r'(?<=[\w)\]] )\*(?= )', ['/', '+']), (r'(?<=[\w)\]] )/(?= )', ['*']),
       (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \*= ', [' /= ']), (r' /= ', [' *= ']),
       (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ', ' > ']), (r' >= ', [' > ', ' < ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\.x\b', ['.y']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.y', '.w']), (r'\.w\b', ['.z']), (r'\.t\b', ['.z']),
       (r'Real\(0\)', ['Real(1)']), (r'Real\(1\)', ['Real(2)', 'Real(0)']), (r'Real\(0\.5\)', ['Real(0.25)']), (r'Real\(2\)', ['Real(1)']), (r'(?<=[(,=] )-(?=[\w(])', ['']), (r'(?<=\()-(?=[\w(])', ['']),
       (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\binf\b', ['sup']), (r'\bsup\b', ['inf']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'Coord::X', ['Coord::Y']), (r'Coord::Y', ['Coord::Z']), (r'Coord::Z', ['Coord::X']), (r'(?<=[\w\]]\[)0(?=\])', ['1']), (r'(?<=[\w\]]\[)1(?=\])', ['2']), (r'(?<=[\w\]]\[)2(?=\])', ['1']), (r'\bn - 1\b', ['n']), (r'\bi = 0\b', ['i = 1']),
       (r'\bm1\b', ['m2']), (r'\bm2\b', ['m1']), (r'\bv1\b', ['v2']), (r'\bv2\b', ['v1']), (r'\ba\b', ['b']), (r'\bb\b', ['a']), (r'\bfrom\b', ['to']), (r'\bto\b', ['from']), (r'(?<![\w.])([\d.]+)(?=\))', ['3']),
       (r'\|= (\w+)', ['= 0', '|= 0']), (r'flags = .*;', ['; ']), (r'^(\s*)(?!return|break|case|assert|const|static|Real|int|unsigned|if|for|while|else|Vec|Mat|Quat|typedef|using|template)([\w.\[\]>*-]+ [-+*/|&]?= .*;|\w+\(.*\);|[\w.]+\.\w+\(.*\);)\s*$', ['\\1;'])]

NARROW = os.environ.get('MUT_NARROW')   # only narrowings, only for C27
if NARROW: OPS = [(r'^(\s*)(const )?Real (?=\w+ = )', ['\\1\\2float ']), (r'^(\s*)(const )?Real (?=\w+;)', ['\\1\\2float ']), (r'\b(x|y|z|w|d|radius|h|s|v|r|g|b|t|weight|angle) = ([^;]*);', ['\\1 = Real(float(\\2));']), (r'return ([^;]*[-+*/][^;]*|\w+);', ['return Real(float(\\1));'])]

def mutants(pat):
    idx = json.load(open(STATE + '/index.json'))
    use = {}
    for p in idx:
        if bool(NARROW) != (p == 'C27'): continue   # C27 compares the headers with themselves, widened
        for h in idx[p]:
            for f, l in idx[p][h]: use.setdefault((f, l), set()).add((p, h))
    out = []
    for f in sorted(set(k[0] for k in use)):
        if not fnmatch.fnmatch(f, pat): continue
        L = open(os.path.join(INC, f), newline='').read().split('\n')
        cover = {}
        last = None
        for n in range(1, len(L) + 1):   # a line without code of its own (continuation, braces) belongs to the one before
            if (f, n) in use: last = use[(f, n)]
            elif L[n - 1].strip() in ('}', '{', '') : last = None if L[n - 1].startswith('}') else last
            cover[n] = last
        for n, line in enumerate(L, 1):
            if not cover[n] or line.lstrip().startswith(('//', '*', '#', 'template', 'inline', 'assert')) or (not line[:1].isspace() and line.strip() not in ('',)): continue
            code = line.split('//')[0].rstrip('\r')
            for rx, subs in OPS:
                for m in re.finditer(rx, code):
                    for s in subs:
                        new = code[:m.start()] + m.expand(s) + code[m.end():]
                        if new != code: out.append((f, n, code, new, cover[n]))
    return out

def walls():
    w = {}
    for p in PROPS:
        fn = STATE + '/' + p + '.json'
        if os.path.exists(fn): w.update({(p, h): d['wall'] for h, d in json.load(open(fn)).items()})
    return w

def run_one(m, w, jobs):
    f, n, old, new, hs = m
    d = tempfile.mkdtemp(prefix='mut', dir=STATE)
    try:
        os.makedirs(d + '/libs/mathlib'); shutil.copytree(INC, d + '/libs/mathlib/include')
        p = os.path.join(d, 'libs/mathlib/include', f)
        L = open(p, newline='').read().split('\n')
        L[n - 1] = new + ('\r' if L[n - 1].endswith('\r') else '')
        open(p, 'w', newline='').write('\n'.join(L))
        by = {}
        for (pr, h) in hs: by.setdefault(pr, []).append(h)
        inc = []
        order = sorted(by, key=lambda pr: sum(w.get((pr, h), 60) for h in by[pr]))
        for pr in order:
            if pr == 'C27' and not NARROW: continue
            r = subprocess.run(['python3-vt', 'engine/check.py', pr, '--only', ','.join(by[pr])], cwd=ROOT, env=dict(os.environ, VP_REPO=d, VP_JOBS=str(jobs)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 2: return 'NOCOMPILE', r.stdout[-300:]
            if r.returncode == 1: return 'KILLED', pr + ' ' + ' '.join(re.findall(r'\n  (\w+: [^:]*)', r.stdout)[:2])
            inc += [pr + ' ' + x for x in re.findall(r'INCONCLUSIVE (.*)', r.stdout)]
        return 'SURVIVED', 'checked by ' + ','.join(order) + (' inconclusive: ' + '; '.join(x[:120] for x in inc[:4]) if inc else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == 'index': index()
    elif sys.argv[1] == 'run':
        N, seed = int(sys.argv[2]), int(sys.argv[3])
        ms = mutants(sys.argv[4] if len(sys.argv) > 4 else '*')
        random.Random(seed).shuffle(ms)
        print(len(ms), 'mutants'); w = walls()
        cnt = {}
        def go(m):
            st, why = run_one(m, w, 2)
            cnt[st] = cnt.get(st, 0) + 1
            if st != 'NOCOMPILE': print('%s %s:%d\n    - %s\n    + %s\n    %s' % (st, m[0], m[1], m[2].strip(), m[3].strip(), why), flush=True)
        with ThreadPoolExecutor(4) as ex: list(ex.map(go, ms[:N]))
        print(cnt)
