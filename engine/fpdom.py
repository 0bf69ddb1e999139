"""Bit-exact domain: every floating-point value is a z3 IEEE-754 term (binary32/binary64, round to nearest even)."""
import math, struct, time
import numpy as np
import z3
from .symexec import Cond, SI, EngineError, PathEnd, UNDEF, c_not, c_and, c_or

np.seterr(all='ignore')
SORT = {32: z3.Float32(), 64: z3.Float64()}
NPT = {32: np.float32, 64: np.float64}
RM = z3.RNE()

class FV:
    __slots__ = ('e', 'bits', 'arr', 'undef', 'narrow')
    def __init__(self, e, bits, arr, undef=False):
        self.e = e; self.bits = bits; self.arr = arr; self.undef = undef; self.narrow = False

SPECIAL = [0.0, -0.0, 1.0, -1.0, 1e-30, -1e-30, 0.5, 2.0, -2.0, 1e30, -1e30, 3.0, 1.4e-45, -1.4e-45, 255.0, 0.999]

class FPDomain:
    has_ite = True
    def __init__(self, ex, hints, cfg):
        self.ex = ex
        self.hints = hints
        self.K0 = cfg.get('samples', 24)
        self.K = self.K0 + len(hints)
        self.seed = cfg.get('seed', 1)
        self.stats = cfg['stats']
        self.ftimeout = cfg.get('ftimeout', 2000)
        self.alive = np.ones(self.K, dtype=bool)
        self.pc = []
        self.cons = []
        self.inputs = []       # (kind, z3 term, arr)
        self.events = []
        self.notes = set()
        self.nfresh = 0
        self.atoms = []
        self.sgn = []

    # inputs -------------------------------------------------------------
    def rng(self, n):
        return np.random.RandomState((self.seed * 1000003 + n * 7919) & 0x7fffffff)

    def hint_fill(self, a, n):
        for j, h in enumerate(self.hints):
            if n < len(h) and h[n] is not None: a[self.K0 + j] = h[n]

    def input_fp(self, bits):
        n = len(self.inputs)
        z = z3.FP('x_%d' % n, SORT[bits])
        r = self.rng(n)
        a = np.empty(self.K)
        for j in range(self.K):
            k = r.randint(4)
            a[j] = SPECIAL[r.randint(len(SPECIAL))] if k == 0 else np.round(r.normal() * 3) if k == 1 else r.normal() * 3 if k == 2 else r.uniform(-1, 2)
        self.hint_fill(a, n)
        a = a.astype(NPT[bits])
        self.cons.append(z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))))
        self.inputs.append(('f', z, a))
        self.events.append(('r', n))
        return FV(z, bits, a)

    def input_real(self, lo=None, hi=None):
        v = self.input_fp(64)
        if lo is not None:
            self.cons += [z3.fpGEQ(v.e, z3.FPVal(lo, SORT[64])), z3.fpLEQ(v.e, z3.FPVal(hi, SORT[64]))]
            a = self.rng(len(self.inputs) + 77).uniform(lo, hi, size=self.K)
            a[0] = lo; a[1] = hi
            self.hint_fill(a, len(self.inputs) - 1)
            k, z, _ = self.inputs[-1]
            self.inputs[-1] = (k, z, a)
            v = FV(z, 64, a)
        return v

    def input_unit(self, dim):
        raise EngineError("unit vectors are not available in the bit-exact domain")

    def input_int(self, lo, hi, ev='i'):
        n = len(self.inputs)
        z = z3.BitVec('n_%d' % n, 32)
        r = self.rng(n)
        a = r.randint(lo, hi + 1 if hi < 2**31 - 1 else hi, size=self.K).astype(float)
        a[0] = lo; a[1] = hi
        self.hint_fill(a, n)
        self.cons += [z >= lo, z <= hi]
        self.inputs.append(('i', z, a))
        self.events.append((ev, n))
        return SI(z, np.where(a < 0, a + 2.0**32, a))

    def rand_int(self):
        self.notes.add("rand() returns an arbitrary integer in [0, RAND_MAX]")
        return self.input_int(0, 2147483647)

    def fresh(self, bits, undef):
        self.nfresh += 1
        z = z3.FP('f_%d' % self.nfresh, SORT[bits])
        return FV(z, bits, np.full(self.K, np.nan), undef)

    def undef(self, bits, why): return self.fresh(bits or 64, True)
    def is_undef(self, a): return a is UNDEF or a.undef
    def unknown_cond(self, why):
        self.nfresh += 1
        return Cond(z3.Bool('unk_%d' % self.nfresh), np.full(self.K, -1))

    def fconst(self, x, bits):
        x = float(x)
        if bits == 32: x = float(np.float32(x))
        if x != x: e = z3.fpNaN(SORT[bits])
        elif math.isinf(x): e = z3.fpPlusInfinity(SORT[bits]) if x > 0 else z3.fpMinusInfinity(SORT[bits])
        elif x == 0: e = z3.fpMinusZero(SORT[bits]) if math.copysign(1, x) < 0 else z3.fpPlusZero(SORT[bits])
        else:
            u = struct.unpack('<I', struct.pack('<f', x))[0] if bits == 32 else struct.unpack('<Q', struct.pack('<d', x))[0]
            e = z3.simplify(z3.fpBVToFP(z3.BitVecVal(u, bits), SORT[bits]))
        return FV(e, bits, np.full(self.K, x, dtype=NPT[bits]))

    def const_of(self, v):
        e = z3.simplify(v.e)
        if z3.is_fp_value(e): return self.fpval(e, v.bits)
        return None

    # operations -----------------------------------------------------------
    def fbin(self, op, a, b):
        if op == 'frem': return self.math('fmod', [a, b], a.bits)
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
        g = {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide}[op]
        return FV(f(RM, a.e, b.e), a.bits, g(a.arr, b.arr).astype(NPT[a.bits]), a.undef or b.undef)

    def fneg(self, a):
        return FV(z3.fpNeg(a.e), a.bits, -a.arr, a.undef)

    def ite(self, c, a, b):
        if a is UNDEF: a = self.undef(b.bits, '')
        if b is UNDEF: b = self.undef(a.bits, '')
        arr = np.where(c.arr < 0, np.nan, np.where(c.arr == 1, a.arr, b.arr)).astype(NPT[a.bits])
        return FV(z3.If(c.e, a.e, b.e), a.bits, arr, a.undef or b.undef)

    def fcmp(self, pred, a, b):
        if pred == 'true': return True
        if pred == 'false': return False
        if a is UNDEF or b is UNDEF or a.undef or b.undef: return self.unknown_cond('fcmp undefined')
        if pred == 'oeq' and a is b: pass
        nan = z3.Or(z3.fpIsNaN(a.e), z3.fpIsNaN(b.e))
        x, y = a.arr, b.arr
        ns = np.isnan(x) | np.isnan(y)
        p = pred[1:]
        if pred == 'ord': return self.mk(z3.Not(nan), ~ns, x, y)
        if pred == 'uno': return self.mk(nan, ns, x, y)
        e, r = {'eq': (z3.fpEQ(a.e, b.e), x == y), 'ne': (z3.Not(z3.fpEQ(a.e, b.e)), x != y), 'lt': (z3.fpLT(a.e, b.e), x < y),
                'le': (z3.fpLEQ(a.e, b.e), x <= y), 'gt': (z3.fpGT(a.e, b.e), x > y), 'ge': (z3.fpGEQ(a.e, b.e), x >= y)}[p]
        if pred == 'one': e = z3.And(e, z3.Not(nan))
        if pred[0] == 'u' and pred != 'une': e = z3.Or(e, nan)
        return self.mk(e, r, x, y)

    def mk(self, e, r, x, y):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        # a NaN sample stands for "not known"
        arr = np.where(np.isnan(x) | np.isnan(y), -1, r.astype(int))
        return Cond(e, arr)

    def same(self, a, b):
        if a is UNDEF or b is UNDEF or a.undef or b.undef: return self.unknown_cond('undefined value')
        e = z3.Or(z3.fpEQ(a.e, b.e), z3.And(z3.fpIsNaN(a.e), z3.fpIsNaN(b.e)))
        arr = np.where(np.isnan(a.arr) | np.isnan(b.arr), -1, (a.arr == b.arr).astype(int))
        return Cond(e, arr)

    def rel(self, kind, v):
        a, b = v[0], v[1]
        if kind == 'vp_le': c = self.fcmp('ole', a, b)
        elif kind == 'vp_eq': c = self.fcmp('oeq', a, b)
        else:
            d = self.math('fabs', [self.fbin('fsub', a, b)], 64)
            c = self.fcmp('ole', d, v[2])
        return c if isinstance(c, Cond) else Cond(z3.BoolVal(c), np.full(self.K, int(c)))

    def math(self, name, a, bits):
        if any(x is UNDEF for x in a): return self.undef(bits, name)
        und = any(isinstance(x, FV) and x.undef for x in a)
        t = NPT[bits]
        if name == 'fabs': return FV(z3.fpAbs(a[0].e), bits, np.abs(a[0].arr), und)
        if name == 'sqrt': return FV(z3.fpSqrt(RM, a[0].e), bits, np.sqrt(a[0].arr).astype(t), und)
        if name in ('minnum', 'fmin', 'maxnum', 'fmax'):
            p = 'olt' if 'min' in name else 'ogt'
            c = self.fcmp(p, a[0], a[1])
            if not isinstance(c, Cond): return a[0] if c else a[1]
            e = z3.If(z3.fpIsNaN(a[0].e), a[1].e, z3.If(z3.fpIsNaN(a[1].e), a[0].e, z3.If(c.e, a[0].e, a[1].e)))
            return FV(e, bits, (np.fmin if 'min' in name else np.fmax)(a[0].arr, a[1].arr).astype(t), und)
        if name == 'copysign':
            e = z3.If(z3.Xor(z3.fpIsNegative(a[0].e), z3.fpIsNegative(a[1].e)), z3.fpNeg(a[0].e), a[0].e)
            return FV(e, bits, np.copysign(a[0].arr, a[1].arr), und)
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}.get(name, RM)
            g = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'nearbyint': np.rint}.get(name)
            arr = g(a[0].arr).astype(t) if g else np.full(self.K, np.nan)
            return FV(z3.fpRoundToIntegral(m, a[0].e), bits, arr, und)
        if name == 'fmod':
            # exact, so: sign of x, |r| < |y|, |r| <= |x|, r = x when |x| < |y|
            x, y = a
            r = self.fresh(bits, und)
            ax, ay, ar = z3.fpAbs(x.e), z3.fpAbs(y.e), z3.fpAbs(r.e)
            ok = z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e), z3.fpIsNaN(y.e), z3.fpIsZero(y.e), z3.fpIsInf(y.e)))
            self.cons += [z3.Implies(ok, z3.And(z3.fpLT(ar, ay), z3.fpLEQ(ar, ax), z3.fpIsNegative(r.e) == z3.fpIsNegative(x.e),
                                               z3.Implies(z3.fpLT(ax, ay), r.e == x.e),
                                               z3.Implies(z3.And(z3.fpLEQ(ay, ax), z3.fpLT(ax, z3.fpAdd(RM, ay, ay)), z3.Not(z3.fpIsInf(z3.fpAdd(RM, ay, ay)))),
                                                          ar == z3.fpSub(RM, ax, ay)),
                                               z3.Implies(z3.fpEQ(ax, ay), z3.fpIsZero(r.e)))),
                          z3.Implies(z3.And(z3.fpIsInf(y.e), z3.Not(z3.fpIsNaN(x.e)), z3.Not(z3.fpIsInf(x.e))), r.e == x.e),
                          z3.Implies(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e), z3.fpIsNaN(y.e), z3.fpIsZero(y.e)), z3.fpIsNaN(r.e))]
            # the remainder of two floats is a multiple of the smaller one's unit in the last place, so a float itself
            def narrow(v):
                k = self.const_of(v)
                return getattr(v, 'narrow', False) or (k is not None and float(np.float32(k)) == k)
            if bits == 64 and narrow(x) and narrow(y):
                f = z3.FP('f_n%d' % self.nfresh, SORT[32])
                self.cons.append(r.e == z3.fpFPToFP(RM, f, SORT[64]))
            r.arr = np.fmod(x.arr, y.arr).astype(t)
            self.notes.add("fmod is over-approximated by its range, sign and small-quotient cases")
            return r
        # an unconstrained result: whatever the library function returns
        r = self.fresh(bits, und)
        f = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'acos': np.arccos, 'asin': np.arcsin, 'atan2': np.arctan2, 'atan': np.arctan,
             'exp': np.exp, 'exp2': np.exp2, 'log': np.log, 'pow': np.power}.get(name)
        if f: r.arr = f(*[x.arr for x in a]).astype(t)
        key = (name,) + tuple(x.e.get_id() for x in a)
        memo = self.__dict__.setdefault('memo', {})
        if key in memo: return memo[key][0]
        memo[key] = (r, [x.e for x in a])
        if name in ('acos', 'asin'):
            one = z3.FPVal(1.0, SORT[bits])
            bad = z3.Or(z3.fpGT(z3.fpAbs(a[0].e), one), z3.fpIsNaN(a[0].e))
            self.cons += [bad == z3.fpIsNaN(r.e)]
        elif name in ('sin', 'cos'):
            fin = z3.Not(z3.Or(z3.fpIsNaN(a[0].e), z3.fpIsInf(a[0].e)))
            self.cons += [z3.Implies(fin, z3.fpLEQ(z3.fpAbs(r.e), z3.FPVal(1.0, SORT[bits])))]
        elif name not in ('exp', 'exp2', 'log', 'pow', 'tan', 'atan', 'atan2'):
            raise EngineError("math function " + name)
        self.notes.add("%s is an unconstrained function apart from its domain and range" % name)
        return r

    # conversions ------------------------------------------------------------
    def fptrunc(self, v, f, t):
        return FV(z3.fpFPToFP(RM, v.e, SORT[t]), t, v.arr.astype(NPT[t]), v.undef)
    def fpext(self, v, f, t):
        r = FV(z3.fpFPToFP(RM, v.e, SORT[t]), t, v.arr.astype(NPT[t]), v.undef)
        r.narrow = True
        return r
    def itofp(self, v, ibits, fbits, signed):
        if isinstance(v, Cond): v = self.ex.to_int(v, ibits)
        e = (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RM, v.e, SORT[fbits])
        A = v.arr if v.arr is not None else np.full(self.K, np.nan)
        if signed:
            h = 2.0 ** (ibits - 1)
            A = np.where(A >= h, A - 2.0 ** ibits, A)
        return FV(e, fbits, A.astype(NPT[fbits]))
    def fptoi(self, v, bits, signed):
        k = self.const_of(v)
        if k is not None and not (k != k or math.isinf(k)): return int(k) & ((1 << bits) - 1)
        e = (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), v.e, z3.BitVecSort(bits))
        if v.undef: return UNDEF
        lim = 2.0 ** (bits - 1) if signed else 2.0 ** bits
        x = np.trunc(v.arr.astype(float))
        ok = (np.abs(x) < lim) if signed else (x >= 0) & (x < lim)
        return SI(e, np.where(ok, np.where(x < 0, x + 2.0 ** bits, x), np.nan))
    def bits_of(self, v, bits):
        return SI(z3.fpToIEEEBV(v.e), None)
    def from_bits(self, v, bits):
        return FV(z3.fpBVToFP(v.e, SORT[bits]), bits, np.full(self.K, np.nan))
    def ri_bin(self, *a): raise EngineError("mixed integer")
    ri_cmp = ri_bin

    def some_value(self, si):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*(self.pc + self.cons))
        if s.check() != z3.sat: return None
        return s.model().eval(si.e, model_completion=True).as_long()

    # path conditions ----------------------------------------------------------
    def assume(self, e, arr, v):
        self.pc.append(e if v else z3.Not(e))
        if arr is not None: self.alive &= (arr == (1 if v else 0))

    def assume_cond(self, c):
        if not isinstance(c, Cond):
            if not c: raise PathEnd()
            return
        e = z3.simplify(c.e)
        if z3.is_true(e): return
        if z3.is_false(e): raise PathEnd()
        self.assume(e, c.arr, True)

    def query(self, exprs, goal, used, timeout, bounds=False, pins=None, feas=False, opaque=False):
        fs = list(exprs) + self.cons + ([goal] if goal is not None else [])
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(*fs)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        st = self.stats
        st.queries += 1
        st.time += time.time() - t0
        if feas: st.feas += 1
        if r == z3.sat: st.sat += 1; return 'sat', s.model()
        if r == z3.unsat: st.unsat += 1; return 'unsat', None
        st.unknown += 1
        return 'unknown', None

    def side_feasible(self, e, arr, val):
        if arr is not None and bool((self.alive & (arr == (1 if val else 0))).any()): return True, None
        r, m = self.query(self.pc + [e if val else z3.Not(e)], None, set(), self.ftimeout, feas=True)
        if r == 'unsat': return False, None
        return True, (self.model_inputs(m) if r == 'sat' else None)

    def fpval(self, e, bits):
        bv = z3.simplify(z3.fpToIEEEBV(e))
        if not z3.is_bv_value(bv): return None
        u = bv.as_long()
        return struct.unpack('<f', struct.pack('<I', u))[0] if bits == 32 else struct.unpack('<d', struct.pack('<Q', u))[0]

    def model_inputs(self, m):
        out = []
        for kind, z, arr in self.inputs:
            x = m.eval(z, model_completion=True)
            if kind == 'f':
                v = self.fpval(x, z.sort().ebits() + z.sort().sbits())
                out.append(0.0 if v is None or v != v else v)
            else:
                k = x.as_long()
                out.append(float(k - (1 << 32) if k >> 31 else k))
        return tuple(out)
