"""Sparse multivariate polynomials: dict {packed monomial: coefficient}.
A monomial packs one exponent of EB bits per variable into a Python int."""
import heapq
from fractions import Fraction
from math import gcd

EB = 10
EM = (1 << EB) - 1

class TooBig(Exception):
    pass
MAXTERMS = 60000

def nc(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def const(c):
    c = nc(c)
    return {0: c} if c != 0 else {}

def var(i, e=1):
    return {e << (EB * i): 1}

def add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None: r[m] = c
        else:
            x = x + c
            if x == 0: del r[m]
            else: r[m] = nc(x)
    return r

def neg(a):
    return {m: -c for m, c in a.items()}

def sub(a, b):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None: r[m] = -c
        else:
            x = x - c
            if x == 0: del r[m]
            else: r[m] = nc(x)
    return r

def scale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: nc(c * k) for m, c in a.items()}

def mul(a, b):
    if not a or not b: return {}
    if len(a) < len(b): a, b = b, a
    if len(b) == 1:
        (mb, cb), = b.items()
        return {m + mb: nc(c * cb) for m, c in a.items()}
    if len(a) * len(b) > 4000000: raise TooBig("polynomial product")
    r = {}
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = ma + mb
            r[m] = r.get(m, 0) + ca * cb
    r = {m: nc(c) for m, c in r.items() if c != 0}
    if len(r) > MAXTERMS: raise TooBig("polynomial of %d terms" % len(r))
    return r

def power(a, n):
    r = {0: 1}
    for _ in range(n): r = mul(r, a)
    return r

def mono_vars(m):
    """[(var index, exponent)]"""
    out = []
    i = 0
    while m:
        # skip zero fields quickly
        low = (m & -m).bit_length() - 1
        k = low // EB
        i += k
        m >>= EB * k
        e = m & EM
        out.append((i, e))
        m >>= EB
        i += 1
    return out

def pvars(p):
    s = set()
    acc = 0
    for m in p: acc |= m
    for i, e in mono_vars(acc): s.add(i)
    return s

def content(p):
    """rational content (positive)"""
    g = 0
    d = 1
    for c in p.values():
        if type(c) is Fraction:
            d = d * c.denominator // gcd(d, c.denominator)
    for c in p.values():
        g = gcd(g, int(c * d))
        if g == 1 and d == 1: break
    return nc(Fraction(g, d)) if d != 1 else g

def mono_content(p):
    it = iter(p)
    m0 = next(it)
    ex = dict(mono_vars(m0))
    for m in it:
        if not ex: break
        for v in list(ex):
            e = (m >> (EB * v)) & EM
            if e < ex[v]:
                if e == 0: del ex[v]
                else: ex[v] = e
    return ex

def pack(ex):
    m = 0
    for v, e in ex.items(): m |= e << (EB * v)
    return m

def divides(a, b):
    """monomial a divides b"""
    while a:
        low = (a & -a).bit_length() - 1
        k = low // EB
        if (a >> (EB * k)) & EM > (b >> (EB * k)) & EM: return False
        a &= ~(EM << (EB * k))
    return True

def exact_div(p, q, limit=4000):
    """p / q if exact, else None (lex order on packed ints)."""
    if not q: return None
    if len(q) == 1:
        (mq, cq), = q.items()
        r = {}
        for m, c in p.items():
            if not divides(mq, m): return None
            r[m - mq] = nc(Fraction(c) / cq) if cq != 1 else c
        return r
    if not p: return {}
    lq = max(q)
    cq = q[lq]
    if not divides(min(q), min(p)) or not divides(lq, max(p)): return None
    # integer coefficients; q primitive, so the quotient is integer as well (Gauss)
    D = 1
    for c in p.values():
        if type(c) is Fraction: D = D * c.denominator // gcd(D, c.denominator)
    r = {m: int(c * D) for m, c in p.items()} if D != 1 else dict(p)
    if len(p) > 8 and all(type(c) is int for c in q.values()) and not maybe_divides(r, q): return None
    for c in q.values():
        if type(c) is Fraction: prim = False; break
    else:
        g = 0
        for c in q.values():
            g = gcd(g, c)
            if g == 1: break
        prim = g == 1
    rest = [(m, c) for m, c in q.items() if m != lq]
    heap = [-m for m in r]
    heapq.heapify(heap)
    out = {}
    n = 0
    while heap:
        lm = -heapq.heappop(heap)
        c = r.pop(lm, 0)
        if c == 0: continue
        n += 1
        if n > limit: return None
        if lm < lq or not divides(lq, lm): return None
        k = lm - lq
        if cq == 1: f = c
        elif prim:
            f, z = divmod(c, cq)
            if z: return None
        else: f = nc(Fraction(c) / cq)
        out[k] = f
        for m, cc in rest:
            mm = m + k
            x = r.get(mm)
            if x is None:
                r[mm] = -f * cc
                heapq.heappush(heap, -mm)
            else: r[mm] = x - f * cc
    if D != 1: out = {m: nc(Fraction(c) / D) for m, c in out.items()}
    return out

MODP = (1 << 61) - 1
_pt = []
def _point(i):
    while len(_pt) <= i: _pt.append((1103515245 * (len(_pt) + 12345) ** 3 + 987654321) % MODP)
    return _pt[i]

def maybe_divides(p, q):
    """necessary condition for q | p (integer coefficients): divisibility in one variable, the others set to fixed values modulo a prime"""
    acc = 0
    for m in q: acc |= m
    v = min(i for i, e in mono_vars(acc))
    sh = EB * v
    cache = {}
    def uni(a):
        u = {}
        for m, c in a.items():
            e = (m >> sh) & EM
            m ^= e << sh
            x = cache.get(m)
            if x is None:
                x = 1
                for i, k in mono_vars(m): x = x * pow(_point(i), k, MODP) % MODP
                cache[m] = x
            u[e] = (u.get(e, 0) + c * x) % MODP
        return u
    uq = uni(q)
    dq = max(uq)
    if uq[dq] == 0: return True
    up = uni(p)
    inv = pow(uq[dq], -1, MODP)
    for d in range(max(up), dq - 1, -1):
        c = up.get(d, 0)
        if not c: continue
        f = c * inv % MODP
        for e, x in uq.items():
            k = d - dq + e
            up[k] = (up.get(k, 0) - f * x) % MODP
    return not any(up.values())

def isqrt_frac(c):
    from math import isqrt
    c = Fraction(c)
    if c < 0: return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator: return nc(Fraction(a, b))
    return None

def poly_sqrt(p):
    """r with r*r == p, or None"""
    if not p: return {}
    if len(p) > 200: return None
    lm = max(p)
    for v, e in mono_vars(lm):
        if e & 1: return None
    c = isqrt_frac(p[lm])
    if c is None: return None
    h = pack({v: e // 2 for v, e in mono_vars(lm)})
    r = {h: c}
    rem = sub(p, {lm: p[lm]})
    n = 0
    lead = (h, 2 * c)
    while rem:
        n += 1
        if n > 60: return None
        m = max(rem)
        if m < h or not divides(h, m): return None
        k = m - h
        f = nc(Fraction(rem[m]) / lead[1])
        if k >= h: return None
        t = {k: f}
        rem = sub(rem, add(scale(mul(r, t), 2), mul(t, t)))
        r[k] = f
    return r

def key(p):
    return tuple(sorted(p.items()))
