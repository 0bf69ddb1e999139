"""Exact-real domain: every floating-point value is a rational function over symbolic reals,
kept in normal form; square roots, sines, cosines, inverse trigonometry, powers and integer parts are
auxiliary variables defined by polynomial constraints."""
import math, time, os, sys
from fractions import Fraction
import numpy as np
import z3
from . import poly as P
from .symexec import Cond, SI, RI, EngineError, PathEnd, UNDEF, c_not, c_and, c_or, c_expr

DEBUG = os.environ.get("VP_DEBUG")
np.seterr(all='ignore')

class Var:
    __slots__ = ('i', 'name', 'kind', 'z', 'arr', 'pos', 'nonneg', 'rule', 'cons', 'data', 'isint', 'deps')
    def __init__(self, i, name, kind):
        self.i = i; self.name = name; self.kind = kind
        self.z = None; self.arr = None; self.pos = False; self.nonneg = False
        self.rule = None          # (exponent, replacement polynomial)
        self.cons = []            # z3 constraints
        self.deps = set()         # variables its constraints mention
        self.data = None
        self.isint = False

class RV:
    __slots__ = ('num', 'den', 'arr', 'nn')
    def __init__(self, num, den, arr, nn=False):
        self.num = num; self.den = den; self.arr = arr
        self.nn = nn              # built as a square or a sum of such: not negative

def is_nn(a):
    return a.nn or (not a.den and is_const(a.num) and cval(a.num) >= 0)

NOD = {}
PI_F = math.pi

def is_const(p):
    return not p or (len(p) == 1 and 0 in p)

def cval(p):
    return p.get(0, 0)

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.feas = 0

def fl(x):
    try: return x.numerator_as_long() / x.denominator_as_long()
    except OverflowError: return None if x.numerator_as_long() else 0.0

class RealDomain:
    has_ite = False
    def __init__(self, ex, hints, cfg=None):
        self.cfg = cfg or {}
        cfg = cfg or {}
        self.ex = ex
        self.hints = hints
        self.K0 = cfg.get('samples', 24)
        self.K = self.K0 + len(hints)
        self.seed = cfg.get('seed', 1)
        self.trig_den = 2
        self.vars = []
        self.memo = {}
        self.rules = {}       # var index -> (e, poly)
        self.rmask = 0
        self.rule_order = []
        self.factors = []     # fid -> poly
        self.fkeys = {}
        self.farr = []
        self.atoms = []       # k -> poly (canonical)
        self.akeys = {}
        self.aarr = []
        self.sgn = []         # k -> set
        self.pc = []          # z3 exprs
        self.alive = np.ones(self.K, dtype=bool)
        self.inputs = []      # var indices / ('choice', v) / ...
        self.events = []      # order of native inputs: ('r', var) ('c', value) ('i', var)
        self.zc = {}
        self.bound = cfg.get('bound', 16)
        self.stats = cfg['stats']
        self.ftimeout = cfg.get('ftimeout', 400)
        self.biglim = cfg.get('biglim', 30)
        self.opqmax = cfg.get('opqmax', 150000)
        self.qtimeout = cfg.get('qtimeout', 8000)
        self.pinned = None
        self.undefs = 0
        self.nonzero = set()
        self.trunc_n = 0
        self.notes = set()
        self.zcache = {}
        self.assumed_exact = []

    # ------------------------------------------------------------------ variables
    def newvar(self, name, kind):
        v = Var(len(self.vars), name, kind)
        self.vars.append(v)
        v.z = z3.Real('%s_%d' % (name, v.i))
        return v

    def rv(self, v, e=1):
        return RV(P.var(v.i, e), NOD, v.arr)

    def set_rule(self, v, e, repl):
        self.rules[v.i] = (e, repl)
        m = 0
        for b in range(P.EB):
            if (1 << b) >= e: m |= 1 << b
        if e == 1: m = P.EM
        self.rmask |= m << (P.EB * v.i)
        self.rule_order = sorted(self.rules, reverse=True)

    def reduce(self, p):
        if not self.rmask: return p
        rmask = self.rmask
        n = 0
        while True:
            acc = 0
            for m in p:
                acc |= m & rmask
            if not acc: return p
            n += 1
            if n > 400: raise EngineError("reduction does not terminate")
            vi = None
            for i in self.rule_order:
                e, repl = self.rules[i]
                sh = P.EB * i
                if (acc >> sh) & P.EM:
                    if e == 1 or ((acc >> sh) & P.EM) >= e:
                        vi = i; break
            if vi is None: return p
            e, repl = self.rules[vi]
            sh = P.EB * vi
            groups = {}
            rest = {}
            for m, c in p.items():
                ex = (m >> sh) & P.EM
                if ex >= e:
                    q, r = divmod(ex, e)
                    groups.setdefault(q, {})[m - ((q * e) << sh)] = c
                else:
                    rest[m] = c
            if not groups: return p
            pw = {0: 1}
            last = 0
            for q in sorted(groups):
                pw = P.mul(pw, P.power(repl, q - last)); last = q
                rest = P.add(rest, P.mul(groups[q], pw))
            p = rest

    def rng(self, idx):
        return np.random.RandomState((self.seed * 1000003 + idx * 7919) & 0x7fffffff)

    def hint_fill(self, arr, ninput):
        for j, h in enumerate(self.hints):
            if ninput < len(h) and h[ninput] is not None:
                arr[self.K0 + j] = h[ninput]

    def input_real(self, lo=None, hi=None):
        n = len(self.inputs)
        v = self.newvar('x', 'input')
        r = self.rng(n)
        K = self.K
        if lo is None:
            a = r.normal(size=K) * 3
            k = K // 3
            a[:k] = np.round(a[:k])
            a[k:2 * k] = r.uniform(-1.5, 1.5, size=k)
            a = np.round(a * 64) / 64
            p = r.permutation(self.K0)
            a[:self.K0] = a[:self.K0][p]
            self.bounded(v)
        else:
            a = r.uniform(lo, hi, size=K)
            mid = (lo + hi) / 2
            a[self.K0 - 1] = mid                       # the middle, near it, and the ends
            a[self.K0 - 2] = mid + (a[self.K0 - 2] - mid) / 16
            a[self.K0 - 3] = mid + (a[self.K0 - 3] - mid) / 16
            a[self.K0 - 4] = lo
            a[self.K0 - 5] = hi
            flo, fhi = Fraction(lo), Fraction(hi)
            v.cons += [v.z >= zq(flo), v.z <= zq(fhi)]
            if lo >= 0: v.nonneg = True
            if lo > 0: v.pos = True
            v.data = (lo, hi)
        self.hint_fill(a, n)
        v.arr = a
        self.inputs.append(v.i)
        self.events.append(('r', v.i))
        return self.rv(v)

    def bounded(self, v):
        pass

    def input_unit(self, dim):
        n = len(self.inputs)
        vs = [self.newvar('u', 'unit') for _ in range(dim)]
        r = self.rng(n)
        a = r.normal(size=(dim, self.K))
        h = self.K // 4
        a[:, :h] = np.round(a[:, :h])
        a[0, :h] += (np.abs(a[:, :h]).sum(axis=0) == 0)
        a = a / np.sqrt((a * a).sum(axis=0))
        p = {0: 1}
        for k, v in enumerate(vs):
            arr = a[k].copy()
            self.hint_fill(arr, n + k)
            v.arr = arr
            v.data = (-1, 1)
            v.cons += [v.z >= -1, v.z <= 1]
            if k < dim - 1:
                p = P.sub(p, P.var(v.i, 2))
            self.inputs.append(v.i)
            self.events.append(('r', v.i))
        last = vs[-1]
        self.set_rule(last, 2, p)
        e = sum((v.z * v.z for v in vs[1:]), vs[0].z * vs[0].z) == 1
        for v in vs:
            v.cons.append(e)
            v.deps.update(x.i for x in vs)
        return [self.rv(v) for v in vs]

    def input_int(self, lo, hi, ev='i'):
        n = len(self.inputs)
        v = self.newvar('n', 'int')
        v.isint = True
        r = self.rng(n)
        a = r.randint(lo, hi + 1 if hi < 2**31 - 1 else hi, size=self.K).astype(float)
        a[0] = lo; a[1] = hi
        self.hint_fill(a, n)
        v.arr = a
        v.cons += [v.z >= lo, v.z <= hi, z3.IsInt(v.z)]
        v.nonneg = lo >= 0
        v.data = (lo, hi)
        self.inputs.append(v.i)
        self.events.append((ev, v.i))
        return RI(self.rv(v))

    def rand_int(self):
        self.notes.add("rand() returns an arbitrary integer in [0, RAND_MAX]")
        self.nrand = getattr(self, 'nrand', 0) + 1
        if self.nrand > self.cfg.get('maxrand', 12):
            self.notes.add("at most %d calls of rand() per path" % self.cfg.get('maxrand', 12))
            raise PathEnd()
        return self.input_int(0, 2147483647, 'i')

    def undef(self, bits, why):
        v = self.newvar('undef', 'undef')
        v.arr = np.full(self.K, np.nan)
        self.undefs += 1
        return self.rv(v)

    def is_undef(self, a):
        return any(self.vars[i].kind == 'undef' for i in P.pvars(a.num))

    def unknown_cond(self, why):
        n = len(self.zc)
        b = z3.Bool('unk_%s_%d' % (why.replace(' ', '_'), len(self.vars) * 1000 + self.undefs))
        self.undefs += 1
        return Cond(b, np.full(self.K, -1))

    # ------------------------------------------------------------------ values
    def PI(self):
        v = self.memo.get('PI')
        if v is None:
            v = self.newvar('PI', 'pi')
            v.arr = np.full(self.K, PI_F)
            v.pos = v.nonneg = True
            v.cons += [v.z > zq(Fraction(31415926535897932, 10**16)), v.z < zq(Fraction(31415926535897933, 10**16))]
            self.memo['PI'] = v
        return v

    def fconst(self, x, bits):
        if isinstance(x, float):
            if x != x: return self.undef(bits, 'nan const')
            if math.isinf(x): raise EngineError("infinite constant")
            r = self.pi_const(x)
            if r is not None: return r
            q = P.nc(Fraction(x))
            # decimal literals of few digits denote the decimal number
            if type(q) is Fraction and q.denominator > 1 << 20:
                d = Fraction(repr(x))
                if d.denominator <= 10**7 and float(d) == x:
                    q = P.nc(d)
                else:
                    d = q.limit_denominator(1000)
                    if float(d) == x: q = P.nc(d)
        else:
            q = P.nc(Fraction(x))
        return RV(P.const(q), NOD, np.full(self.K, float(q)))

    PICACHE = {}
    def pi_const(self, x):
        key = x
        r = RealDomain.PICACHE.get(key, 0)
        if r == 0:
            r = None
            if x != 0 and 1e-4 < abs(x) < 1e5:
                f = Fraction(x / PI_F).limit_denominator(720)
                if f != 0 and f.denominator in (1, 2, 3, 4, 6, 8, 12, 16, 180, 360) and abs(f.numerator) <= 720 and abs(float(f) * PI_F - x) <= 3 * np.spacing(abs(x)):
                    r = (f, 1)
                else:
                    f = Fraction(x * PI_F).limit_denominator(720)
                    if f != 0 and f.denominator in (1, 2, 3, 4) and abs(f.numerator) <= 720 and abs(float(f) / PI_F - x) <= 3 * np.spacing(abs(x)):
                        r = (f, -1)
            RealDomain.PICACHE[key] = r
        if r is None: return None
        f, e = r
        pi = self.PI()
        if e == 1:
            return RV({1 << (P.EB * pi.i): P.nc(f)}, NOD, np.full(self.K, x))
        return RV(P.const(f), {self.factor(P.var(pi.i)): 1}, np.full(self.K, x))

    def factor(self, p):
        """p: primitive polynomial known non-zero; returns id"""
        k = P.key(p)
        fid = self.fkeys.get(k)
        if fid is None:
            fid = len(self.factors)
            self.fkeys[k] = fid
            self.factors.append(p)
        return fid

    def is_neg_lead(self, p):
        return p[max(p)] < 0

    def primitive(self, p):
        """(c, q): p = c*q, q primitive integer with positive leading coefficient"""
        c = P.content(p)
        if self.is_neg_lead(p): c = -c
        if c != 1: q = P.scale(p, Fraction(1) / c)
        else: q = p
        return c, q

    def den_poly(self, den):
        r = {0: 1}
        for f, e in den.items():
            r = P.mul(r, P.power(self.factors[f], e))
        return r

    def cancel(self, num, den):
        if not den: return num, den
        if not num: return num, NOD
        out = None
        for f, e in list(den.items()):
            fp = self.factors[f]
            # sqrt variables squared in a denominator become their radicand
            if len(fp) == 1 and e >= 2:
                (m, c), = fp.items()
                vs = P.mono_vars(m)
                if len(vs) == 1 and vs[0][1] == 1 and self.vars[vs[0][0]].kind == 'sqrt':
                    q, r = divmod(e, 2)
                    if out is None: out = dict(den)
                    if r: out[f] = 1
                    else: del out[f]
                    rad = self.reduce(self.vars[vs[0][0]].data)
                    num, out = self.div_poly(num, out, rad, q)
        d = out if out is not None else den
        for f, e in list(d.items()):
            fp = self.factors[f]
            if len(fp) > 40 and len(num) > 1000: continue
            while e > 0:
                q = P.exact_div(num, fp)
                if q is None: break
                if out is None: out = dict(den)
                num = q
                e -= 1
                if e: out[f] = e
                else: del out[f]
        return num, (out if out is not None else den)

    def div_poly(self, num, den, p, e=1):
        """num/den/p^e, p non-zero; splits off constant and monomial content"""
        c, q = self.primitive(p)
        if c != 1: num = P.scale(num, Fraction(1) / Fraction(c) ** e)
        mc = P.mono_content(q)
        den = dict(den)
        if mc:
            q = {m - P.pack(mc): c for m, c in q.items()}
            for v, k in mc.items():
                f = self.factor(P.var(v))
                den[f] = den.get(f, 0) + k * e
        if q != {0: 1}:
            f = self.factor(q)
            den[f] = den.get(f, 0) + e
        return num, den

    def mk(self, num, den, arr):
        num = self.reduce(num)
        if den: num, den = self.cancel(num, den)
        return RV(num, den, arr)

    def add_(self, a, b, sign):
        arr = a.arr + b.arr if sign > 0 else a.arr - b.arr
        op = P.add if sign > 0 else P.sub
        if a.den == b.den:
            n = op(a.num, b.num)
            if not a.den: return RV(n if not self.rmask else self.reduce(n), NOD, arr)
            return self.mk(n, a.den, arr)
        l = dict(a.den)
        for f, e in b.den.items():
            if l.get(f, 0) < e: l[f] = e
        na = P.mul(a.num, self.den_poly({f: e - a.den.get(f, 0) for f, e in l.items() if e > a.den.get(f, 0)}))
        nb = P.mul(b.num, self.den_poly({f: e - b.den.get(f, 0) for f, e in l.items() if e > b.den.get(f, 0)}))
        return self.mk(op(na, nb), l, arr)

    def mul_(self, a, b):
        arr = a.arr * b.arr
        n = P.mul(a.num, b.num)
        if not a.den: den = b.den
        elif not b.den: den = a.den
        else:
            den = dict(a.den)
            for f, e in b.den.items(): den[f] = den.get(f, 0) + e
        return self.mk(n, den, arr)

    def div_(self, a, b):
        arr = a.arr / b.arr
        if is_const(b.num) and not b.den:
            c = cval(b.num)
            if c == 0:
                self.notes.add("division by zero reached")
                return self.undef(64, 'div0')
            return RV(P.scale(a.num, Fraction(1) / c), a.den, arr)
        if not self.ex.decide(c_not(self.cond_zero(b.num))):
            return self.undef(64, 'div0')
        bn = self.reduce(b.num)
        if is_const(bn):
            num, den = P.scale(a.num, Fraction(1) / cval(bn)), dict(a.den)
        else:
            num, den = self.div_poly(a.num, a.den, bn)
        # multiply by b.den
        up = {}
        for f, e in b.den.items():
            k = min(e, den.get(f, 0))
            if k:
                if den[f] == k: del den[f]
                else: den[f] -= k
            if e > k: up[f] = e - k
        if up: num = P.mul(num, self.den_poly(up))
        return self.mk(num, den, arr)

    def fbin(self, op, a, b):
        r = self.fbin_(op, a, b)
        if op == 'fmul' and (a is b or (a.num == b.num and a.den == b.den)): r.nn = True
        elif op in ('fmul', 'fadd', 'fdiv') and isinstance(r, RV) and is_nn(a) and is_nn(b): r.nn = True
        return r

    def fbin_(self, op, a, b):
        try:
            if op in ('fadd', 'fsub', 'fmul'):
                if op == 'fmul': big = len(a.num) * len(b.num) > self.opqmax
                else: big = a.den != b.den and (len(a.num) + len(b.num)) * 8 > self.opqmax and self.costly(a, b)
                if big: return self.opaque_value(op, a, b)
                return self.mul_(a, b) if op == 'fmul' else self.add_(a, b, 1 if op == 'fadd' else -1)
            if op == 'fdiv': return self.div_(a, b)
            if op == 'frem': return self.fmod(a, b)
        except P.TooBig as e:
            if op in ('fadd', 'fsub', 'fmul'): return self.opaque_value(op, a, b)
            raise EngineError(str(e))
        raise EngineError(op)

    def costly(self, a, b):
        """size of the numerator of a sum over different denominators"""
        l = dict(a.den)
        for f, e in b.den.items():
            if l.get(f, 0) < e: l[f] = e
        n = 0
        for x in (a, b):
            k = len(x.num)
            for f, e in l.items(): k *= len(self.factors[f]) ** (e - x.den.get(f, 0))
            n += k
        return n > self.opqmax

    def opaque_value(self, op, a, b):
        """result too large to expand: a variable standing for it (the same one for the same operands);
        weaker than the real value, so what is discharged holds, and a counterexample still has to replay"""
        if op == 'fsub': arr = a.arr - b.arr
        else: arr = a.arr + b.arr if op == 'fadd' else a.arr * b.arr
        k = [self.rkey(a), self.rkey(b)]
        if op != 'fsub': k.sort(key=hash)
        v = self.gen_var(('opq', op) + tuple(k), 'opq', arr)
        self.notes.add('values too large to expand are abstracted')
        if op == 'fmul' and k[0] == k[1] and not v.nonneg:
            v.nonneg = True
            v.cons.append(v.z >= 0)
        return self.rv(v)

    def fneg(self, a):
        if a is UNDEF: return self.undef(64, 'undef')
        return RV(P.neg(a.num), a.den, -a.arr)

    # ------------------------------------------------------------------ signs and conditions
    def mono_sign(self, m):
        """set of possible signs of a monomial"""
        s = {1}
        for v, e in P.mono_vars(m):
            x = self.vars[v]
            if x.pos: t = {1}
            elif x.nonneg: t = {0, 1}
            else: t = {-1, 0, 1}
            if v in self.nonzero: t = t - {0}
            if e % 2 == 0: t = {abs(k) for k in t}
            s = {a * b for a in s for b in t}
        return s

    def atom(self, p):
        """(k, orientation) for a non-constant reduced polynomial"""
        c, q = self.primitive(p)
        kk = P.key(q)
        k = self.akeys.get(kk)
        if k is None:
            k = len(self.atoms)
            self.akeys[kk] = k
            self.atoms.append(q)
            self.aarr.append(None)
            s = {1, 0, -1}
            pos = True; neg = True; strict = False
            for m, cc in q.items():
                ms = self.mono_sign(m)
                if cc < 0: ms = {-x for x in ms}
                if -1 in ms: pos = False
                if 1 in ms: neg = False
                if 0 not in ms: strict = True
            if pos: s = {1} if strict else {0, 1}
            if neg: s = s & ({-1} if strict else {0, -1})
            self.sgn.append(s)
        return k, (1 if c > 0 else -1)

    def simplify_sign(self, p):
        """drop factors of known positive sign from the monomial content; returns polynomial with same sign"""
        if len(p) == 0 or is_const(p): return p
        mc = P.mono_content(p)
        drop = {}
        for v, e in mc.items():
            x = self.vars[v]
            if x.pos: drop[v] = e
            elif v in self.nonzero and e >= 2: drop[v] = e - (e % 2)
            elif e >= 3: drop[v] = e - 2 + (e % 2) if e % 2 == 0 else e - 1
        if drop:
            d = P.pack(drop)
            p = {m - d: c for m, c in p.items()}
        # lone sqrt variable: sign of the radicand
        if len(p) == 1:
            (m, c), = p.items()
            vs = P.mono_vars(m)
            if len(vs) == 1 and self.vars[vs[0][0]].kind == 'sqrt' and vs[0][1] == 1:
                p = P.scale(self.reduce(self.vars[vs[0][0]].data), 1 if c > 0 else -1)
        return p

    def sign_atom(self, num, den=None):
        """polynomial whose sign is that of num/den"""
        p = self.reduce(num)
        if den:
            for f, e in den.items():
                if e & 1:
                    fp = self.reduce(self.factors[f])
                    if is_const(fp):
                        if cval(fp) < 0: p = P.neg(p)
                        continue
                    k, o = self.atom(self.simplify_sign(fp))
                    s = self.sgn[k] - {0}
                    if s == {o}: continue
                    if s == {-o}:
                        p = P.neg(p); continue
                    p = self.reduce(P.mul(p, fp))
        return self.simplify_sign(p)

    def zvar(self, kind, k):
        key = (kind, k)
        z = self.zc.get(key)
        if z is None:
            z = self.zc[key] = z3.Bool('%s%d' % (kind, k))
        return z

    def cond_sign(self, p, test, arr):
        """Cond for sign(p) in test; p a reduced polynomial"""
        if is_const(p):
            c = cval(p)
            return (0 if c == 0 else 1 if c > 0 else -1) in test
        k, o = self.atom(p)
        s = self.sgn[k]
        t = {x * o for x in test}
        if s <= t: return True
        if not (s & t): return False
        # choose expression
        t = t & s
        n, z = self.zvar('n', k), self.zvar('z', k)
        if t == {-1}: e = n
        elif t == {0}: e = z
        elif t == {1}: e = z3.Not(n) if 0 not in s else (z3.Not(z) if -1 not in s else z3.And(z3.Not(n), z3.Not(z)))
        elif t == {-1, 0}: e = z3.Or(n, z)
        elif t == {0, 1}: e = z3.Not(n)
        else: e = z3.Not(z)
        return Cond(e, arr)

    def cond_zero(self, num):
        p = self.simplify_sign(self.reduce(num))
        if is_const(p): return cval(p) == 0
        a = self.peval(p)
        sc = self.pscale(p)
        arr = np.where(np.isnan(a), -1, np.where(np.abs(a) > 1e-7 * sc, 0, np.where(a == 0, 1, -1)))
        return self.cond_sign(p, {0}, arr)

    def peval(self, p):
        r = np.zeros(self.K)
        for m, c in p.items():
            t = np.full(self.K, float(c))
            for v, e in P.mono_vars(m):
                t = t * self.vars[v].arr ** e
            r = r + t
        return r

    def pscale(self, p):
        r = np.zeros(self.K)
        for m, c in p.items():
            t = np.full(self.K, abs(float(c)))
            for v, e in P.mono_vars(m):
                t = t * np.abs(self.vars[v].arr) ** e
            r = r + t
        return r

    def fcmp(self, pred, a, b):
        if pred == 'ord': return True
        if pred == 'uno': return False
        if pred == 'true': return True
        if pred == 'false': return False
        if a is UNDEF or b is UNDEF: return self.unknown_cond('fcmp')
        if self.is_undef(a) or self.is_undef(b):
            return self.unknown_cond('fcmp undefined')
        p = pred[1:]
        test = {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}}[p]
        d = self.add_(a, b, -1)
        sp = self.sign_atom(d.num, d.den)
        x = d.arr
        sc = 1e-9 * (np.abs(a.arr) + np.abs(b.arr))
        sg = np.where(x > sc, 1, np.where(x < -sc, -1, 0))
        exact = np.abs(x) > sc
        # exact zeros on integers/simple samples are trusted when the polynomial itself evaluates to 0
        arr = np.full(self.K, -1)
        for i in range(self.K):
            if np.isnan(x[i]): continue
            if exact[i]: arr[i] = 1 if sg[i] in test else 0
            elif x[i] == 0: arr[i] = 1 if 0 in test else 0
        return self.cond_sign(sp, test, arr)

    def learn(self, e, val):
        if z3.is_not(e): return self.learn(e.arg(0), not val)
        if z3.is_and(e) and val:
            for c in e.children(): self.learn(c, True)
            return
        if z3.is_or(e) and not val:
            for c in e.children(): self.learn(c, False)
            return
        if z3.is_or(e) and val:
            ch = e.children()
            if len(ch) == 2 and all(z3.is_const(c) for c in ch):
                a, b = ch[0].decl().name(), ch[1].decl().name()
                if a[1:] == b[1:] and {a[0], b[0]} == {'n', 'z'} and a[1:].isdigit():
                    self.restrict(int(a[1:]), {-1, 0})
            return
        if z3.is_const(e):
            nm = e.decl().name()
            if nm[0] in 'nz' and nm[1:].isdigit():
                k = int(nm[1:])
                if nm[0] == 'n': self.restrict(k, {-1} if val else {0, 1})
                else: self.restrict(k, {0} if val else {-1, 1})

    def restrict(self, k, s):
        new = self.sgn[k] & s
        if new == self.sgn[k]: return
        self.sgn[k] = new
        if not new: raise PathEnd()
        p = self.atoms[k]
        if new == {0}:
            self.linear_rule(p)
        if 0 not in new and len(p) == 1:
            (m, c), = p.items()
            for v, e in P.mono_vars(m): self.nonzero.add(v)
        if len(p) == 1:
            (m, c), = p.items()
            vs = P.mono_vars(m)
            if len(vs) == 1 and vs[0][1] % 2 == 1:
                x = self.vars[vs[0][0]]
                if -1 not in new: x.nonneg = True
                if new == {1}: x.pos = True

    def linear_rule(self, p):
        for m, c in sorted(p.items(), reverse=True):
            vs = P.mono_vars(m)
            if len(vs) == 1 and vs[0][1] == 1:
                v = vs[0][0]
                if v in self.rules or self.vars[v].kind in ('pi', 'undef'): continue
                rest = {mm: cc for mm, cc in p.items() if mm != m}
                rv = P.pvars(rest)
                if v in rv: continue
                if any(x in self.rules for x in rv): continue
                repl = P.scale(rest, Fraction(-1) / c)
                # v must not be needed by a rule that would feed back into repl
                bad = False
                for i, (e, r) in self.rules.items():
                    if v in P.pvars(r) and i in rv: bad = True
                if bad: continue
                self.set_rule(self.vars[v], 1, repl)
                return

    def assume(self, e, arr, v):
        self.pc.append(e if v else z3.Not(e))
        if arr is not None:
            self.alive &= (arr == (1 if v else 0))
        self.learn(e, v)

    def assume_cond(self, c):
        if not isinstance(c, Cond):
            if not c: raise PathEnd()
            return
        e = z3.simplify(c.e)
        if z3.is_true(e): return
        if z3.is_false(e): raise PathEnd()
        self.assume(e, c.arr, True)

    # ------------------------------------------------------------------ solver
    def atoms_in(self, e):
        key = e.get_id()
        r = self.zcache.get(key)
        if r is not None and r[0] is not None: return r[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x) and z3.is_bool(x):
                nm = x.decl().name()
                if nm[0] in 'nz' and nm[1:].isdigit(): out.add(int(nm[1:]))
            else:
                st.extend(x.children())
        self.zcache[key] = (e, out)
        return out

    def zpoly(self, p):
        if not p: return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            t = None
            for v, e in P.mono_vars(m):
                z = self.vars[v].z
                for _ in range(e):
                    t = z if t is None else t * z
            if t is None: t = zq(c)
            elif c != 1: t = zq(c) * t
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def big(self, p):
        return len(p) > self.biglim

    def linear(self, p):
        for m in p:
            vs = P.mono_vars(m)
            if len(vs) > 1 or (vs and vs[0][1] > 1): return False
        return True

    def has_big(self, exprs):
        return any(self.big(self.atoms[k]) for e in exprs for k in self.atoms_in(e))

    def build(self, exprs, opaque=False):
        """list of z3 formulas: exprs with atoms substituted, plus definitions of all variables used.
        opaque: the sign of a large polynomial stays a free boolean pair (weaker, so unsat stays unsat)"""
        ks = set()
        for e in exprs: ks |= self.atoms_in(e)
        sub = []
        used = set()
        extra = []
        for k in ks:
            p = self.atoms[k]
            if opaque and (self.big(p) or (opaque == 'linear' and not self.linear(p))):
                extra.append(z3.Not(z3.And(self.zvar('n', k), self.zvar('z', k))))
                continue
            zp = self.zcache.get(('ap', k))
            if zp is None:
                zp = self.zpoly(p)
                self.zcache[('ap', k)] = zp
            sub.append((self.zvar('n', k), zp < 0))
            sub.append((self.zvar('z', k), zp == 0))
            used |= P.pvars(p)
        return ([z3.substitute(e, sub) for e in exprs] if sub else list(exprs)) + extra, used

    def closure(self, used):
        out = []
        seen = set()
        st = list(used)
        ids = set()
        while st:
            i = st.pop()
            if i in seen: continue
            seen.add(i)
            v = self.vars[i]
            for c in v.cons:
                if c.get_id() not in ids:
                    ids.add(c.get_id())
                    out.append(c)
            st.extend(v.deps)
            r = self.rules.get(i)
            if r and r[0] == 1:
                out.append(v.z == self.zpoly(r[1]))
                st.extend(P.pvars(r[1]))
        return out, seen

    def relevant_pc(self, used):
        return self.pc

    def query(self, exprs, goal_z, used, timeout, bounds=False, pins=None, feas=False, opaque=False):
        """satisfiability of exprs (with atoms) and goal_z (over variables `used`)"""
        zs, u2 = self.build(exprs, opaque)
        cons, seen = self.closure(used | u2)
        fs = zs + cons + ([goal_z] if goal_z is not None else [])
        if bounds:
            for i in seen:
                v = self.vars[i]
                if v.kind == 'input' and v.data is None:
                    fs += [v.z <= self.bound, v.z >= -self.bound]
        if pins: fs += pins(seen)
        t0 = time.time()
        hasint = any(self.vars[i].isint for i in seen)
        r, m = solve(fs, timeout, hasint, has_bv(exprs))
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.time += dt
        if feas: st.feas += 1
        if r == 'sat': st.sat += 1
        elif r == 'unsat': st.unsat += 1
        else: st.unknown += 1
        return r, m

    def side_feasible(self, e, arr, val):
        if arr is not None and bool((self.alive & (arr == (1 if val else 0))).any()):
            return True, None
        ck = (tuple(self.ex.trace), e.get_id(), val, tuple(x.get_id() for x in self.pc))
        f = e if val else z3.Not(e)
        try:
            t0 = time.time()
            ks = self.atoms_in(f)
            if ks and all(self.linear(self.atoms[k]) for k in ks):
                r, m = self.query(self.pc + [f], None, set(), self.ftimeout, feas=True, opaque='linear')
                if r == 'unsat': return False, None
            r, m = self.query(self.pc + [f], None, set(), self.ftimeout, feas=True, opaque=True)
            if DEBUG:
                fr = self.ex.stack[-1] if getattr(self.ex, 'stack', None) else ''
                print('FEAS %.2f %s %s %s' % (time.time() - t0, r, fr, str(self.build([f])[0][0])[:300].replace(chr(10), ' ')), file=sys.stderr)
        except z3.Z3Exception as ex:
            raise EngineError("solver: %s" % ex)
        if r == 'unsat': return False, None
        hint = None
        if r == 'sat' and not self.has_big([f]):
            hint = self.model_inputs(m)
        return True, hint

    def model_val(self, m, v):
        x = m.eval(v.z, model_completion=False)
        if z3.is_rational_value(x):
            return fl(x)
        if z3.is_algebraic_value(x):
            return fl(x.approx(30))
        return None

    def model_inputs(self, m):
        """values of the inputs under a model, in creation order; unconstrained ones get a sample-like value"""
        out = []
        for i in self.inputs:
            v = self.vars[i]
            r = self.rules.get(i)
            x = self.model_val(m, v)
            out.append(x)
        # angles whose sine/cosine are constrained: take the angle from them
        for b in self.memo.get('trigbases', []):
            mono, N, sv, cv = b
            vs = P.mono_vars(mono)
            if len(vs) == 1 and vs[0][1] == 1 and vs[0][0] in self.inputs and sv is not None:
                k = self.inputs.index(vs[0][0])
                s, c = self.model_val(m, sv), self.model_val(m, cv)
                if s is None and c is None: continue
                if s is None: s = math.sqrt(max(0, 1 - c * c))
                if c is None: c = math.sqrt(max(0, 1 - s * s))
                ang = math.atan2(s, c) * N
                cur = out[k]
                vv = self.vars[vs[0][0]]
                lo, hi = vv.data if vv.data else (None, None)
                per = 2 * PI_F * N
                if lo is not None:
                    while ang < lo - 1e-9: ang += per
                    while ang > hi + 1e-9: ang -= per
                if cur is not None:
                    # keep the model's value when it agrees
                    if abs(math.sin(cur / N) - s) < 1e-6 and abs(math.cos(cur / N) - c) < 1e-6: continue
                out[k] = ang
        fill = []
        for j, x in enumerate(out):
            if x is None:
                v = self.vars[self.inputs[j]]
                if v.kind == 'unit':
                    x = None
                else:
                    x = float(v.arr[3])
            fill.append(x)
        # unit vectors not mentioned: give them a sample
        j = 0
        while j < len(fill):
            if fill[j] is None:
                fill[j] = float(self.vars[self.inputs[j]].arr[3])
            j += 1
        return tuple(fill)

    # ------------------------------------------------------------------ math functions
    def const_of(self, a):
        if not a.den and is_const(a.num): return cval(a.num)
        return None

    def c(self, q):
        return self.fconst(q, 64) if not isinstance(q, float) else self.fconst(q, 64)

    def rkey(self, a):
        return (P.key(self.reduce(a.num)), tuple(sorted(a.den.items())))

    def cmpc(self, a, pred, k):
        return self.fcmp('o' + pred, a, self.c(k))

    def fabs(self, a):
        if self.is_undef(a): return self.undef(64, 'fabs')
        if self.ex.decide(self.cmpc(a, 'lt', 0)): return self.fneg(a)
        return a

    def sqrt(self, a):
        if self.is_undef(a): return self.undef(64, 'sqrt')
        nn = is_nn(a)
        a = self.mk(a.num, a.den, a.arr)
        if not a.num: return a
        if nn:
            p = self.sign_atom(a.num, a.den)
            if not is_const(p):
                k, o = self.atom(p)
                self.sgn[k] = self.sgn[k] & {0, o}
        elif self.ex.decide(self.cmpc(a, 'lt', 0)):
            return self.undef(64, 'sqrt of negative')
        E = {}
        O = {0: 1}
        for f, e in a.den.items():
            E[f] = (e + 1) // 2
            if e & 1: O = P.mul(O, self.factors[f])
        n = self.reduce(P.mul(a.num, O))
        arr = np.sqrt(a.arr)
        if not n: return self.c(0)
        c, q = self.primitive(n)
        neg = c < 0
        if neg:
            c, q = -c, P.neg(q)
        cs = P.isqrt_frac(c)
        if cs is None:
            # keep square part outside
            cf = Fraction(c)
            a_, b_ = cf.numerator * cf.denominator, cf.denominator
            sq = 1
            for pr in (2, 3, 5, 7, 11, 13):
                while a_ % (pr * pr) == 0:
                    a_ //= pr * pr; sq *= pr
            cs = Fraction(sq, b_)
            q = P.scale(q, a_)
        mc = P.mono_content(q)
        out = {0: P.nc(cs)}
        absfs = []
        if mc:
            half = {v: e // 2 for v, e in mc.items() if e >= 2}
            if half:
                q = {m - 2 * P.pack(half): cc for m, cc in q.items()}
                for v, e in half.items():
                    if e % 2 == 0 or self.vars[v].nonneg:
                        out = P.mul(out, P.var(v, e))
                    else:
                        absfs.append((P.var(v, e), self.vars[v].arr ** e))
        if is_const(q):
            k = cval(q)
            r = P.isqrt_frac(k)
            if r is not None: q = {0: 1}; out = P.scale(out, r); root = None
            else: root = self.sqrt_var(q)
        else:
            r = P.poly_sqrt(q)
            if r is None: r = self.rule_root(q)
            if r is not None:
                absfs.append((r, self.peval(r))); root = None
            else: root = self.sqrt_var(q)
        res = RV(out, NOD, np.ones(self.K))
        if root is not None:
            res = RV(P.mul(out, P.var(root.i)), NOD, np.ones(self.K))
        for r, ra in absfs:
            x = self.fabs(RV(r, NOD, ra))
            res = RV(P.mul(res.num, x.num), NOD, res.arr)
        num, den = res.num, NOD
        for f, e in E.items():
            fp = self.factors[f]
            if e & 1:
                x = RV(fp, NOD, self.peval(fp))
                if self.ex.decide(self.cmpc(x, 'lt', 0)): num = P.neg(num)
            den = dict(den)
            den[f] = e
        return self.mk(num, den, arr)

    def rule_root(self, q):
        """a variable whose square is q, if the rewrite rules define one (cos^2 -> 1 - sin^2 and the like)"""
        n = len(q)
        for i, (e, rp) in self.rules.items():
            if e == 2 and len(rp) == n and self.vars[i].kind != 'sqrt' and rp == q: return P.var(i)
        return None

    def sqrt_var(self, q):
        k = ('sqrt', P.key(q))
        v = self.memo.get(k)
        if v is None:
            v = self.newvar('s', 'sqrt')
            v.nonneg = True
            kk, o = self.atom(self.simplify_sign(q))
            if self.sgn[kk] == {o}: v.pos = True
            v.data = q
            a = self.peval(q)
            v.arr = np.sqrt(np.maximum(a, 0))
            v.cons += [v.z >= 0, v.z * v.z == self.zpoly(q)]
            v.deps |= P.pvars(q)
            self.set_rule(v, 2, q)
            self.memo[k] = v
        else:
            kk, o = self.atom(self.simplify_sign(self.reduce(q))) if not is_const(self.reduce(q)) else (None, 1)
            if kk is not None and self.sgn[kk] == {o}: v.pos = True
        return v

    # --- trigonometry
    def base_sc(self, mono, N, extra=None):
        """(sin, cos) of monomial/N (or extra constant multiple)"""
        key = ('trig', mono, N, extra)
        r = self.memo.get(key)
        if r is not None: return r
        vs = P.mono_vars(mono)
        if extra is None and len(vs) == 1 and vs[0][1] == 1:
            v = self.vars[vs[0][0]]
            if v.kind in ('acos', 'asin', 'atan2'):
                s, c = v.data
                if N == 1:
                    r = (s, c)
                elif N == 2:
                    one = self.c(1)
                    ch = self.sqrt(self.fbin('fmul', self.fbin('fadd', one, c), self.c(Fraction(1, 2))))
                    sh = self.sqrt(self.fbin('fmul', self.fbin('fsub', one, c), self.c(Fraction(1, 2))))
                    if v.kind != 'acos':
                        if self.ex.decide(self.cmpc(s, 'lt', 0)): sh = self.fneg(sh)
                    r = (sh, ch)
                if r is not None:
                    self.memo[key] = r
                    return r
        sv = self.newvar('sin', 'sin')
        cv = self.newvar('cos', 'cos')
        ang = self.peval({mono: 1}) / N if extra is None else self.peval({mono: extra})
        sv.arr, cv.arr = np.sin(ang), np.cos(ang)
        self.set_rule(cv, 2, P.sub({0: 1}, P.var(sv.i, 2)))
        con = [sv.z * sv.z + cv.z * cv.z == 1, sv.z >= -1, sv.z <= 1, cv.z >= -1, cv.z <= 1]
        if mono == 0 or (extra is not None and len(vs) == 1 and self.vars[vs[0][0]].kind == 'pi'):
            a = float(ang[0])
            for z, x in ((sv.z, math.sin(a)), (cv.z, math.cos(a))):
                con += [z > zq(Fraction(x) - Fraction(1, 10**14)), z < zq(Fraction(x) + Fraction(1, 10**14))]
        sv.cons += con; cv.cons += con
        sv.deps.add(cv.i); cv.deps.add(sv.i)
        def rng(v): return v.data if v.kind == 'input' else (PI_F, PI_F)
        if vs and all(e == 1 and (self.vars[v].data and self.vars[v].kind == 'input' or self.vars[v].kind == 'pi') for v, e in vs):
            lo, hi = rng(self.vars[vs[0][0]])
            for v, e in vs[1:]:
                l2, h2 = rng(self.vars[v])
                ps = [lo * l2, lo * h2, hi * l2, hi * h2]
                lo, hi = min(ps), max(ps)
            z = self.zpoly({mono: 1})
            ax = []
            if extra is not None: N = 1 / float(extra)
            a0, a1 = lo / N, hi / N
            if -math.pi <= a0 and a1 <= math.pi:
                e = 1e-12
                cs = [math.cos(a0), math.cos(a1)] + ([1.0] if a0 <= 0 <= a1 else [])
                ss = [math.sin(a0), math.sin(a1)] + ([1.0] if a0 <= math.pi / 2 <= a1 else []) + ([-1.0] if a0 <= -math.pi / 2 <= a1 else [])
                ax += [cv.z >= zq(Fraction(min(cs) - e)), cv.z <= zq(Fraction(max(cs) + e)), sv.z >= zq(Fraction(min(ss) - e)), sv.z <= zq(Fraction(max(ss) + e))]
            if lo >= -PI_F * N - 1e-9 and hi <= PI_F * N + 1e-9:
                ax += [z3.Implies(z > 0, sv.z >= 0), z3.Implies(z < 0, sv.z <= 0), z3.Implies(z == 0, cv.z == 1)]
                if hi < PI_F * N and lo > -PI_F * N:
                    ax += [z3.Implies(z > 0, sv.z > 0), z3.Implies(z < 0, sv.z < 0)]
                    if hi <= PI_F * N / 2 + 1e-9 and lo >= -PI_F * N / 2 - 1e-9: cv.nonneg = True; ax += [cv.z >= 0]
                    if lo >= 0: sv.nonneg = True
                    if lo > 0: sv.pos = True
            sv.cons += ax
            sv.deps |= set(v for v, e in vs)
        r = (self.rv(sv), self.rv(cv))
        self.memo.setdefault('trigbases', []).append((mono, N if extra is None else Fraction(1) / Fraction(extra), sv, cv))
        self.memo[key] = r
        return r

    def sc_mult(self, sc, k):
        neg = k < 0
        k = abs(k)
        s, c = self.c(0), self.c(1)
        bs, bc = sc
        # binary-free repeated addition (k small)
        while k:
            s, c = (self.fbin('fadd', self.fbin('fmul', s, bc), self.fbin('fmul', c, bs)),
                    self.fbin('fsub', self.fbin('fmul', c, bc), self.fbin('fmul', s, bs)))
            k -= 1
        if neg: s = self.fneg(s)
        return s, c

    PISC = {Fraction(0): ('0', '1'), Fraction(1, 6): ('h', 'r3'), Fraction(1, 4): ('r2', 'r2'), Fraction(1, 3): ('r3', 'h'), Fraction(1, 2): ('1', '0')}
    def sc_pi(self, q):
        q = q % 2
        if q >= 1:
            s, c = self.sc_pi(q - 1)
            return self.fneg(s), self.fneg(c)
        if q > Fraction(1, 2):
            s, c = self.sc_pi(1 - q)
            return s, self.fneg(c)
        t = self.PISC.get(q)
        if t is None: return None
        def val(x):
            if x == '0': return self.c(0)
            if x == '1': return self.c(1)
            if x == 'h': return self.c(Fraction(1, 2))
            r = self.sqrt(self.c(2 if x == 'r2' else 3))
            return self.fbin('fmul', r, self.c(Fraction(1, 2)))
        return val(t[0]), val(t[1])

    def sincos(self, a):
        a = self.mk(a.num, a.den, a.arr)
        k = ('sincos', self.rkey(a))
        r = self.memo.get(k)
        if r is not None: return r
        if self.is_undef(a):
            r = (self.undef(64, 'trig'), self.undef(64, 'trig'))
            return r
        if a.den:
            v = self.newvar('ang', 'angle')
            v.arr = a.arr
            dz = self.zpoly(self.den_poly(a.den))
            v.cons.append(v.z * dz == self.zpoly(a.num))
            v.deps |= P.pvars(a.num)
            for f in a.den: v.deps |= P.pvars(self.factors[f])
            terms = {1 << (P.EB * v.i): 1}
        else:
            terms = a.num
        s, c = self.c(0), self.c(1)
        for m, co in sorted(terms.items()):
            vs = P.mono_vars(m)
            kinds = [self.vars[v].kind for v, e in vs]
            sc = None
            if 'pi' in kinds:
                others = [(v, e) for (v, e) in vs if self.vars[v].kind != 'pi']
                pe = [e for v, e in vs if self.vars[v].kind == 'pi'][0]
                if not others and pe == 1:
                    sc = self.sc_pi(Fraction(co))
                elif pe == 1 and all(self.vars[v].isint for v, e in others) and Fraction(co) % 2 == 0:
                    continue
            if sc is None:
                N = self.trig_den
                kk = Fraction(co) * N
                if kk.denominator == 1 and abs(kk) <= 16 and m != 0 and not ('pi' in kinds and len(vs) == 1):
                    sc = self.sc_mult(self.base_sc(m, N), int(kk))
                else:
                    sc = self.base_sc(m, 1, abs(Fraction(co)))
                    if co < 0: sc = (self.fneg(sc[0]), sc[1])
            s, c = (self.fbin('fadd', self.fbin('fmul', s, sc[1]), self.fbin('fmul', c, sc[0])),
                    self.fbin('fsub', self.fbin('fmul', c, sc[1]), self.fbin('fmul', s, sc[0])))
        s = RV(s.num, s.den, np.sin(a.arr)); c = RV(c.num, c.den, np.cos(a.arr))
        self.memo[k] = (s, c)
        if not a.den: self.memo.setdefault('angles', []).append((a, s, c))
        return s, c

    def domain_unit(self, x):
        """x in [-1,1] on this path?"""
        if self.ex.decide(self.cmpc(x, 'gt', 1)): return False
        if self.ex.decide(self.cmpc(x, 'lt', -1)): return False
        return True

    def zrv(self, a):
        n = self.zpoly(a.num)
        if not a.den: return n
        return n / self.zpoly(self.den_poly(a.den))

    def deps_of(self, a):
        s = P.pvars(a.num)
        for f in a.den: s |= P.pvars(self.factors[f])
        return s

    def same_angle(self, s, c):
        """an angle in (-pi, pi] already known to have this sine and cosine, or None"""
        key = ('angle', self.rkey(s), self.rkey(c))
        v = self.memo.get(key)
        if v is not None: return v
        cs, cc = self.const_of(s), self.const_of(c)
        q = {(0, 1): 0, (0, -1): 1, (1, 0): Fraction(1, 2), (-1, 0): Fraction(-1, 2)}.get((cs, cc))
        if q is not None: return self.fbin('fmul', RV(P.var(self.PI().i), NOD, self.PI().arr), self.c(q))
        for a, ms, mc in self.memo.get('angles', []):
            if self.rkey(ms) == key[1] and self.rkey(mc) == key[2]:
                pi = RV(P.var(self.PI().i), NOD, self.PI().arr)
                two = self.fbin('fmul', pi, self.c(2))
                lim = self.fbin('fmul', pi, self.c(3))
                ex = self.ex
                if ex.certain(self.fcmp('ole', a, pi)) and ex.certain(self.fcmp('ogt', a, self.fneg(pi))): r = a
                elif ex.certain(self.fcmp('ole', a, lim)) and ex.certain(self.fcmp('ogt', a, self.fneg(lim))):
                    if ex.decide(self.fcmp('ogt', a, pi)): r = self.fbin('fsub', a, two)
                    elif ex.decide(self.fcmp('ole', a, self.fneg(pi))): r = self.fbin('fadd', a, two)
                    else: r = a
                else: continue
                self.memo[key] = r
                return r
        return None

    def sq1m(self, x):
        return self.sqrt(self.fbin('fsub', self.c(1), self.fbin('fmul', x, x)))

    def acos(self, x):
        k = self.const_of(x)
        if k is not None and k in (0, 1, -1):
            if k == 1: return self.c(0)
            pi = RV(P.var(self.PI().i), NOD, self.PI().arr)
            return pi if k == -1 else self.fbin('fmul', pi, self.c(Fraction(1, 2)))
        key = ('acos', self.rkey(x))
        v = self.memo.get(key)
        if v is not None: return self.rv(v)
        if self.is_undef(x) or not self.domain_unit(x): return self.undef(64, 'acos')
        s = self.sq1m(x)
        r = self.same_angle(s, x)
        if r is not None: return r
        v = self.newvar('acos', 'acos')
        pi = self.PI()
        v.arr = np.arccos(x.arr)
        v.nonneg = True
        v.data = (s, x)
        zx = self.zrv(x)
        v.cons += [v.z >= 0, v.z <= pi.z, (v.z == 0) == (zx == 1), (v.z == pi.z) == (zx == -1), (v.z * 2 > pi.z) == (zx < 0), (v.z * 2 == pi.z) == (zx == 0)]
        v.deps |= self.deps_of(x) | {pi.i}
        self.memo[key] = v
        self.memo[('angle', self.rkey(s), self.rkey(x))] = self.rv(v)
        return self.rv(v)

    def asin(self, x):
        k = self.const_of(x)
        if k is not None and k in (0, 1, -1):
            pi = RV(P.var(self.PI().i), NOD, self.PI().arr)
            return self.fbin('fmul', pi, self.c(Fraction(k, 2)))
        key = ('asin', self.rkey(x))
        v = self.memo.get(key)
        if v is not None: return self.rv(v)
        if self.is_undef(x) or not self.domain_unit(x): return self.undef(64, 'asin')
        c = self.sq1m(x)
        r = self.same_angle(x, c)
        if r is not None: return r
        v = self.newvar('asin', 'asin')
        pi = self.PI()
        v.arr = np.arcsin(x.arr)
        v.data = (x, c)
        zx = self.zrv(x)
        v.cons += [v.z * 2 >= -pi.z, v.z * 2 <= pi.z, (v.z == 0) == (zx == 0), (v.z > 0) == (zx > 0), (v.z * 2 == pi.z) == (zx == 1), (v.z * 2 == -pi.z) == (zx == -1)]
        v.deps |= self.deps_of(x) | {pi.i}
        self.memo[key] = v
        self.memo[('angle', self.rkey(x), self.rkey(c))] = self.rv(v)
        return self.rv(v)

    def atan2(self, y, x):
        key = ('atan2', self.rkey(y), self.rkey(x))
        v = self.memo.get(key)
        if v is not None: return self.rv(v)
        if self.is_undef(x) or self.is_undef(y): return self.undef(64, 'atan2')
        r = self.sqrt(self.fbin('fadd', self.fbin('fmul', x, x), self.fbin('fmul', y, y)))
        if self.ex.decide(self.cmpc(r, 'eq', 0)): return self.c(0)
        s, c = self.fbin('fdiv', y, r), self.fbin('fdiv', x, r)
        v = self.same_angle(s, c)
        if v is not None: return v
        v = self.newvar('atan2', 'atan2')
        pi = self.PI()
        v.arr = np.arctan2(y.arr, x.arr)
        v.data = (s, c)
        zx, zy = self.zrv(x), self.zrv(y)
        v.cons += [v.z > -pi.z, v.z <= pi.z, (v.z == 0) == z3.And(zy == 0, zx >= 0), (v.z > 0) == z3.Or(zy > 0, z3.And(zy == 0, zx < 0)),
                   (v.z == pi.z) == z3.And(zy == 0, zx < 0), (v.z * 2 == pi.z) == z3.And(zx == 0, zy > 0), (v.z * 2 == -pi.z) == z3.And(zx == 0, zy < 0),
                   z3.Implies(zx > 0, z3.And(v.z * 2 < pi.z, v.z * 2 > -pi.z))]
        v.deps |= self.deps_of(x) | self.deps_of(y) | {pi.i}
        self.memo[key] = v
        self.memo[('angle', self.rkey(s), self.rkey(c))] = self.rv(v)
        return self.rv(v)

    def intvar(self, name, arr):
        v = self.newvar(name, 'ivar')
        v.isint = True
        v.arr = arr
        v.cons.append(z3.IsInt(v.z))
        return v

    def fmod(self, x, y):
        if self.is_undef(x) or self.is_undef(y): return self.undef(64, 'fmod')
        key = ('fmod', self.rkey(x), self.rkey(y))
        r = self.memo.get(key)
        if r is not None: return r
        if self.ex.decide(self.cmpc(y, 'eq', 0)): return self.undef(64, 'fmod by zero')
        if self.ex.decide(self.cmpc(y, 'lt', 0)): y = self.fneg(y)
        negx = self.ex.decide(self.cmpc(x, 'lt', 0))
        ax = self.fneg(x) if negx else x
        if self.ex.certain(self.fcmp('olt', ax, self.fbin('fmul', y, self.c(4)))):
            n = 0
            while n < 3 and not self.ex.decide(self.fcmp('olt', ax, self.fbin('fmul', y, self.c(n + 1)))): n += 1
            r = self.fbin('fsub', ax, self.fbin('fmul', y, self.c(n)))
            if negx: r = self.fneg(r)
            self.memo[key] = r
            return r
        v = self.intvar('q', np.trunc(x.arr / y.arr))
        r = self.fbin('fsub', x, self.fbin('fmul', self.rv(v), y))
        r = RV(r.num, r.den, np.fmod(x.arr, y.arr))
        zr, zy = self.zrv(r), self.zrv(y)
        if negx: v.cons += [zr <= 0, zr > -zy, v.z <= 0]
        else: v.cons += [zr >= 0, zr < zy, v.z >= 0]
        v.deps |= self.deps_of(x) | self.deps_of(y)
        self.memo[key] = r
        return r

    def rint_to(self, x, mode):
        if self.is_undef(x): return self.undef(64, mode)
        k = self.const_of(x)
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[mode]
        if k is not None: return self.c(f(k))
        if not x.den and all(Fraction(co).denominator == 1 and all(self.vars[v].isint for v, e in P.mono_vars(m)) for m, co in x.num.items()): return x
        key = (mode, self.rkey(x))
        v = self.memo.get(key)
        if v is None:
            if mode == 'trunc':
                neg = self.ex.decide(self.cmpc(x, 'lt', 0))
            v = self.intvar(mode, {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc}[mode](x.arr))
            zx = self.zrv(x)
            if mode == 'floor' or mode == 'trunc' and not neg: v.cons += [v.z <= zx, zx < v.z + 1]
            else: v.cons += [v.z >= zx, zx > v.z - 1]
            if mode == 'trunc': v.cons += [v.z <= 0] if neg else [v.z >= 0]
            v.deps |= self.deps_of(x)
            self.memo[key] = v
        return self.rv(v)

    def exp2(self, x):
        if self.is_undef(x): return self.undef(64, 'exp2')
        x = self.mk(x.num, x.den, x.arr)
        if x.den: raise EngineError("2^rational function")
        num = {0: 1}
        den = {}
        arr = np.exp2(x.arr)
        for m, co in x.num.items():
            co = Fraction(co)
            if m == 0:
                fl = math.floor(co)
                num = P.scale(num, Fraction(2) ** fl)
                co = co - fl
                if co:
                    v = self.gen_var(('exp2c', co), 'e2c', np.full(self.K, 2.0 ** float(co)), pos=True)
                    if not v.cons:
                        x0 = Fraction(2.0 ** float(co))
                        v.cons += [v.z > zq(x0 - Fraction(1, 10**14)), v.z < zq(x0 + Fraction(1, 10**14))]
                        if co.denominator <= 10:
                            d = co.denominator
                            z = v.z
                            for _ in range(d - 1): z = z * v.z
                            v.cons.append(z == 2 ** co.numerator)
                            self.set_rule(v, d, P.const(2 ** co.numerator))
                    num = P.mul(num, P.var(v.i))
                continue
            # base 2^(monomial/D)
            D = 1
            if co.denominator != 1: D = co.denominator
            k = int(co * D)
            v = self.gen_var(('exp2', m, D), 'e2', np.exp2(self.peval({m: 1}) / D), pos=True)
            if not v.cons:
                v.cons += [v.z > 0]
                z = self.zpoly({m: 1})
                for val, lo in ((0, 1), (D, 2), (-D, Fraction(1, 2))):
                    b = zq(Fraction(lo))
                    v.cons += [(z < val) == (v.z < b), (z == val) == (v.z == b)]
                # half point
                v.cons += [(2 * z < D) == (v.z * v.z < 2), (2 * z == D) == (v.z * v.z == 2)]
                v.deps |= P.pvars({m: 1})
            if k > 0: num = P.mul(num, P.var(v.i, k))
            else:
                f = self.factor(P.var(v.i))
                den[f] = den.get(f, 0) - k
        return self.mk(num, den, arr)

    def gen_var(self, key, name, arr, pos=False):
        v = self.memo.get(key)
        if v is None:
            v = self.newvar(name, name)
            v.arr = arr
            v.pos = pos; v.nonneg = pos
            self.memo[key] = v
        return v

    def math(self, name, a, bits):
        try:
            return self.math_(name, a, bits)
        except P.TooBig as e:
            raise EngineError(str(e))

    def math_(self, name, a, bits):
        if any(x is UNDEF for x in a): return self.undef(64, name)
        if name == 'sqrt': return self.sqrt(a[0])
        if name == 'fabs': return self.fabs(a[0])
        if name == 'sin': return self.sincos(a[0])[0]
        if name == 'cos': return self.sincos(a[0])[1]
        if name == 'tan':
            s, c = self.sincos(a[0])
            return self.fbin('fdiv', s, c)
        if name == 'acos': return self.acos(a[0])
        if name == 'asin': return self.asin(a[0])
        if name == 'atan2': return self.atan2(a[0], a[1])
        if name == 'atan': return self.atan2(a[0], self.c(1))
        if name == 'fmod': return self.fmod(a[0], a[1])
        if name in ('minnum', 'fmin'):
            return a[0] if self.ex.decide(self.fcmp('olt', a[0], a[1])) else a[1]
        if name in ('maxnum', 'fmax'):
            return a[0] if self.ex.decide(self.fcmp('ogt', a[0], a[1])) else a[1]
        if name in ('floor', 'ceil', 'trunc'): return self.rint_to(a[0], name)
        if name == 'copysign':
            x = self.fabs(a[0])
            return self.fneg(x) if self.ex.decide(self.cmpc(a[1], 'lt', 0)) else x
        if name == 'exp2': return self.exp2(a[0])
        if name == 'ldexp':
            if isinstance(a[1], int):
                k = a[1] if a[1] < 1 << 31 else a[1] - (1 << 32)
                return self.fbin('fmul', a[0], self.c(Fraction(2) ** k))
        if name == 'powi':
            k = a[1] if a[1] < 1 << 31 else a[1] - (1 << 32)
            return self.ipow(a[0], k)
        if name == 'pow':
            b, e = self.const_of(a[0]), self.const_of(a[1])
            if e is not None and Fraction(e).denominator == 1 and abs(e) <= 16: return self.ipow(a[0], int(e))
            if e == Fraction(1, 2): return self.sqrt(a[0])
            if b == 2: return self.exp2(a[1])
        if name in ('exp', 'log', 'pow', 'exp10', 'log2', 'log10'):
            if any(self.is_undef(x) for x in a): return self.undef(64, name)
            key = (name,) + tuple(self.rkey(x) for x in a)
            fn = {'exp': np.exp, 'log': np.log, 'pow': np.power, 'log2': np.log2, 'log10': np.log10}.get(name)
            v = self.memo.get(key)
            if v is None:
                v = self.gen_var(key, name, fn(*[x.arr for x in a]))
                for x in a: v.deps |= self.deps_of(x)
                if name == 'exp': v.pos = v.nonneg = True; v.cons += [v.z > 0]
                if name == 'pow':
                    if self.ex.decide(self.cmpc(a[0], 'lt', 0)): return self.undef(64, 'pow of negative')
                    zb, ze = self.zrv(a[0]), self.zrv(a[1])
                    v.nonneg = True
                    v.cons += [v.z >= 0, (v.z == 0) == z3.And(zb == 0, ze > 0), z3.Implies(zb == 1, v.z == 1), z3.Implies(ze == 0, v.z == 1),
                               z3.Implies(z3.And(zb < 1, ze > 0), v.z < 1), z3.Implies(z3.And(zb > 1, ze > 0), v.z > 1),
                               z3.Implies(z3.And(zb > 0, zb < 1, ze < 0), v.z > 1), z3.Implies(z3.And(zb > 1, ze < 0), v.z < 1)]
            return self.rv(v)
        raise EngineError("math function " + name)

    def ipow(self, a, k):
        if k < 0: return self.fbin('fdiv', self.c(1), self.ipow(a, -k))
        r = self.c(1)
        for _ in range(k): r = self.fbin('fmul', r, a)
        return r

    # ------------------------------------------------------------------ conversions
    def fptrunc(self, v, f, t):
        if t >= 64: return v
        k = self.const_of(v)
        if k is not None:
            if float(np.float32(float(k))) == float(k): return v
        self.trunc_n += 1
        d = self.newvar('delta', 'delta')
        with np.errstate(all='ignore'):   # the samples are really rounded
            q = np.float32(v.arr).astype(float) / v.arr - 1
        d.arr = np.where(np.isfinite(q), q, 0.0)
        d.cons += [d.z <= zq(Fraction(1, 2**25)), d.z >= zq(Fraction(-1, 2**25))]
        one = RV({0: 1, 1 << (P.EB * d.i): 1}, NOD, 1 + d.arr)
        self.notes.add("conversion to single precision reached: modelled as a relative error of at most 2^-25")
        return self.fbin('fmul', v, one)

    def fpext(self, v, f, t):
        return v

    def itofp(self, v, ibits, fbits, signed):
        if isinstance(v, RI): return v.v
        if isinstance(v, Cond):
            return self.c(1 if self.ex.decide(v) else 0)
        if isinstance(v, SI):
            return self.c(self.ex.concretise(v))
        raise EngineError("itofp %r" % (v,))

    def fptoi(self, v, bits, signed):
        x = self.rint_to(v, 'trunc')
        k = self.const_of(x)
        if k is not None: return int(k) & ((1 << bits) - 1)
        return RI(x, bits)

    def bits_of(self, v, bits): return None
    def from_bits(self, v, bits): return None

    def ri_val(self, a, bits):
        if isinstance(a, RI): return a.v
        if isinstance(a, bool): a = int(a)
        if isinstance(a, int):
            if a >> (bits - 1): a -= 1 << bits
            return self.c(a)
        if isinstance(a, (SI, Cond)):
            raise EngineError("mixed integer")
        raise EngineError("ri_val %r" % (a,))

    def ri_bin(self, op, bits, a, b):
        self.notes.add("integer arithmetic on symbolic integers does not wrap")
        if op in ('shl',) and isinstance(b, int):
            return RI(self.fbin('fmul', a.v, self.c(1 << b)), bits)
        x, y = self.ri_val(a, bits), self.ri_val(b, bits)
        if op == 'add': return RI(self.fbin('fadd', x, y), bits)
        if op == 'sub': return RI(self.fbin('fsub', x, y), bits)
        if op == 'mul': return RI(self.fbin('fmul', x, y), bits)
        if op in ('srem', 'urem', 'sdiv', 'udiv'):
            r = self.fmod(x, y)
            if op in ('srem', 'urem'): return RI(r, bits)
            return RI(self.fbin('fdiv', self.fbin('fsub', x, r), y), bits)
        raise EngineError("integer operation %s on a symbolic integer" % op)

    def ri_cmp(self, pred, bits, a, b):
        x, y = self.ri_val(a, bits), self.ri_val(b, bits)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if pred[0] == 'u' and pred not in ('eq', 'ne'):
            self.notes.add("unsigned comparison of symbolic integers assumes non-negative operands")
        return self.fcmp('o' + p, x, y)

    def some_value(self, si):
        return None

def zq(c):
    if type(c) is Fraction:
        return z3.Q(c.numerator, c.denominator)
    return z3.RealVal(c)

def has_bv(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_bv(x): return True
        st.extend(x.children())
    return False

def solve(fs, timeout, hasint=False, bv=False):
    """(status, model)"""
    if bv and has_bv(fs):
        g = z3.Goal()
        g.add(*fs)
        try:
            r = z3.TryFor(z3.Then('simplify', 'bit-blast', 'simplify'), 5000)(g)
            fs = list(r[0])
        except z3.Z3Exception:
            pass
    if not fs: 
        s = z3.Solver(); s.check(); return 'sat', s.model()
    if hasint:
        s = z3.Solver()
    else:
        s = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout))
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.sat: return 'sat', s.model()
    if r == z3.unsat: return 'unsat', None
    return 'unknown', None
