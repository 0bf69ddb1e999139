"""Symbolic executor over parsed LLVM IR.

One path at a time: a path is identified by its list of decisions; every open alternative is put on a
work list and executed again from the start (so no state is copied).  Floating-point values belong to
a domain object (realdom.RealDomain or fpdom.FPDomain); integers are Python ints or SI (z3 bit-vectors),
i1 values are Python bools or Cond.
"""
import time
import numpy as np
import z3
from .irparse import size_align, field_offset, IRError

class EngineError(Exception):
    """The engine cannot encode something: the harness is inconclusive."""

class PathEnd(Exception):
    """This path stops here (assumption failed, infeasible)."""

class Budget(Exception):
    pass

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Cond:
    """Symbolic truth value: z3 Bool plus its value on the samples (1, 0, -1 unknown)."""
    __slots__ = ('e', 'arr')
    def __init__(self, e, arr):
        self.e = e
        self.arr = arr

class SI:
    """Symbolic integer: z3 bit-vector plus values on the samples (float64 array of ints, nan unknown)."""
    __slots__ = ('e', 'arr')
    def __init__(self, e, arr=None):
        self.e = e
        self.arr = arr

def c_not(c):
    if isinstance(c, Cond):
        return Cond(z3.Not(c.e), np.where(c.arr < 0, -1, 1 - c.arr))
    return not c

def c_and(a, b):
    if not isinstance(a, Cond): return b if a else False
    if not isinstance(b, Cond): return a if b else False
    arr = np.where((a.arr == 0) | (b.arr == 0), 0, np.where((a.arr < 0) | (b.arr < 0), -1, 1))
    return Cond(z3.And(a.e, b.e), arr)

def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))

def c_xor(a, b):
    if not isinstance(a, Cond): return c_not(b) if a else b
    if not isinstance(b, Cond): return c_not(a) if b else a
    arr = np.where((a.arr < 0) | (b.arr < 0), -1, a.arr ^ b.arr)
    return Cond(z3.Xor(a.e, b.e), arr)

def c_expr(c):
    return c.e if isinstance(c, Cond) else z3.BoolVal(bool(c))

class Obj:
    __slots__ = ('name', 'size', 'cells', 'zero', 'const', 'dead')
    def __init__(self, name, size, const=False):
        self.name = name
        self.size = size
        self.cells = {}     # offset -> (size, type, value)
        self.zero = None    # set of zeroed byte offsets, or None
        self.const = const
        self.dead = False

class Raw:
    """Bytes copied wholesale: list of (reloff, size, type, value)."""
    __slots__ = ('size', 'cells', 'zero')
    def __init__(self, size, cells, zero):
        self.size = size; self.cells = cells; self.zero = zero

MAXSTEP = 400000

class Executor:
    def __init__(self, mod, dom_factory, opts=None):
        self.mod = mod
        self.dom_factory = dom_factory
        self.opts = opts or {}
        self.funcs_seen = {}
        self.stats = dict(paths=0, steps=0, aborted=0, decisions=0, pruned=0)
        self.errors = []
        self.obligations = {}
        self.deadline = None
        self.obl_cache = {}
        self.feas_cache = {}

    # ------------------------------------------------------------------ top level
    def run(self, fname, handler, maxpaths=5000, deadline=None):
        """handler(kind, *args) receives check events."""
        self.deadline = deadline
        self.handler = handler
        work = [((), ())]
        n = 0
        self.exhausted = True
        while work:
            if n >= maxpaths or (deadline and time.time() > deadline):
                self.exhausted = False
                self.errors.append("path budget: %d paths explored, %d left" % (n, len(work)))
                break
            prefix, hints = work.pop()
            n += 1
            self.prefix = prefix
            self.trace = []
            self.decided = {}
            self.new_work = []
            self.dom = self.dom_factory(self, hints)
            self.mem = {}
            self.heap = {}
            self.steps = 0
            self.choices = []
            try:
                self.init_globals()
                for pr, fn in self.mod.ctors:
                    if fn in self.mod.functions:
                        self.call(fn, [])
                self.heap = {}
                self.call('@' + fname, [])
                if any(not o.dead for o in self.heap): self.handler('memerror', self, "storage never released")
                self.stats['paths'] += 1
                self.handler('pathend', self)
            except PathEnd:
                self.stats['pruned'] += 1
            except EngineError as e:
                self.stats['aborted'] += 1
                self.errors.append(str(e))
            work.extend(self.new_work)
            self.stats['steps'] += self.steps
        return self

    # ------------------------------------------------------------------ decisions
    def decide(self, c, force_both=False):
        if not isinstance(c, Cond):
            return bool(c)
        e = z3.simplify(c.e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        k = self.decided.get(e.get_id())
        if k is not None: return k[1]
        v = self.decide_new(c, e)
        ne = z3.simplify(z3.Not(e))
        self.decided[e.get_id()] = (e, v)
        self.decided[ne.get_id()] = (ne, not v)
        return v

    def decide_new(self, c, e):
        dom = self.dom
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            dom.assume(e, c.arr, v)
            return v
        self.stats['decisions'] += 1
        if self.deadline and time.time() > self.deadline:
            raise EngineError("deadline inside a path")
        t_ok, t_hint = dom.side_feasible(e, c.arr, True)
        f_ok, f_hint = dom.side_feasible(e, c.arr, False)
        if t_ok and f_ok:
            h = dom.hints
            self.new_work.append((tuple(self.trace) + (False,), h + ((f_hint,) if f_hint else ())))
            v = True
        elif t_ok:
            v = True
        elif f_ok:
            v = False
        else:
            raise PathEnd()
        self.trace.append(v)
        dom.assume(e, c.arr, v)
        return v

    def certain(self, c):
        """condition holds on the whole path (decided by the solver; recorded so that replays agree); never forks"""
        if not isinstance(c, Cond): return bool(c)
        e = z3.simplify(c.e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = not self.dom.side_feasible(e, c.arr, False)[0]
        self.trace.append(v)
        if v: self.dom.assume(e, c.arr, True)
        return v

    def choose(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
        else:
            for k in range(n - 1, 0, -1):
                self.new_work.append((tuple(self.trace) + (k,), self.dom.hints))
            v = 0
            self.trace.append(v)
        return v

    # ------------------------------------------------------------------ memory
    def init_globals(self):
        self.gobj = {}
        for name, (t, init, isconst) in self.mod.globals.items():
            self.gobj[name] = Obj(name, size_align(t)[0], isconst)
        for name, (t, init, isconst) in self.mod.globals.items():
            o = self.gobj[name]
            if init is not None:
                self.init_const(o, 0, t, init)

    def init_const(self, o, off, t, v):
        if v[0] == 'const':
            x = v[2]
            if x == 'zero':
                s = store_size(t)
                if o.zero is None: o.zero = set()
                o.zero.update(range(off, off + s))
                return
            if isinstance(x, bytes):
                for i, b in enumerate(x):
                    o.cells[off + i] = (1, ('i', 8), b)
                return
            if x == 'undef':
                return
            o.cells[off] = (store_size(t), t, self.operand_const(t, x))
        elif v[0] == 'agg':
            if t[0] in ('arr', 'vec'):
                es = size_align(t[2])[0]
                for i, e in enumerate(v[2]):
                    self.init_const(o, off + i * es, t[2], e)
            else:
                for i, e in enumerate(v[2]):
                    self.init_const(o, off + field_offset(t, i), t[1][i], e)
        elif v[0] in ('glob', 'gepc'):
            o.cells[off] = (8, ('ptr',), self.operand(v, ('ptr',), {}))
        else:
            raise EngineError("global init %r" % (v,))

    def check_access(self, p, size, what):
        if p is None or p is UNDEF:
            self.handler('memerror', self, "%s through null pointer" % what)
            raise PathEnd()
        if not isinstance(p, tuple):
            raise EngineError("%s through non-pointer %r" % (what, p))
        o, off = p
        if not isinstance(off, int):
            raise EngineError("symbolic address")
        if off < 0 or off + size > o.size:
            self.handler('memerror', self, "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, off, o.name, o.size))
            raise PathEnd()
        if o.dead:
            self.handler('memerror', self, "%s of released storage" % what)
            raise PathEnd()
        return o, off

    def release(self, p, how):
        if p is None or p == 0: return
        if not isinstance(p, tuple): raise EngineError("release of %r" % (p,))
        o, off = p
        if o.dead: msg = "storage released twice"
        elif off != 0 or o not in self.heap: msg = "release of storage that was not allocated"
        elif self.heap[o] != how: msg = "storage allocated by %s released by %s" % (self.heap[o], how)
        else:
            o.dead = True
            return
        self.handler('memerror', self, msg)
        raise PathEnd()

    def split_ints(self, o, off, size):
        """break constant integer cells that straddle [off, off+size) into bytes"""
        for d in range(-15, size):
            cc = o.cells.get(off + d)
            if cc is None or d + cc[0] <= 0: continue
            if (d < 0 or d + cc[0] > size) and cc[1][0] == 'i' and isinstance(cc[2], (int, bool)):
                del o.cells[off + d]
                for b in range(cc[0]):
                    o.cells[off + d + b] = (1, ('i', 8), (int(cc[2]) >> (8 * b)) & 255)
            elif (d < 0 or d + cc[0] > size) and cc[0] == 8 and isinstance(cc[2], SI):
                w = ('i', 64)
                o.cells[off + d] = (4, ('i', 32), self.cast('trunc', w, cc[2], ('i', 32)))
                hi = self.ibin('lshr', 64, cc[2], 32)
                o.cells[off + d + 4] = (4, ('i', 32), self.cast('trunc', w, hi, ('i', 32)))

    def load(self, t, p):
        k = t[0]
        if k == 'struct':
            return [self.load(e, (p[0], p[1] + field_offset(t, i))) for i, e in enumerate(t[1])]
        if k in ('vec', 'arr'):
            es = size_align(t[2])[0]
            return [self.load(t[2], (p[0], p[1] + i * es)) for i in range(t[1])]
        size = store_size(t)
        o, off = self.check_access(p, size, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(c[1], t, c[2])
        if k == 'i':
            self.split_ints(o, off, size)
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return self.retype(c[1], t, c[2])
        if c is None and not any((off + d) in o.cells for d in range(1, size)):
            # nothing stored here: zeroed or uninitialised
            for d in range(1, 16):
                cc = o.cells.get(off - d)
                if cc is not None and cc[0] > d:
                    raise EngineError("partial load inside a cell of %s" % o.name)
            if o.zero is not None and all((off + d) in o.zero for d in range(size)):
                return self.zero_of(t)
            return self.undef_of(t, o.name)
        if k == 'i':
            cells = []
            zero = []
            for d in range(size):
                cc = o.cells.get(off + d)
                if cc is not None:
                    if d + cc[0] > size:
                        if all(isinstance(x[3], int) for x in cells) and isinstance(cc[2], int):
                            pass
                        raise EngineError("misaligned load of %s: %d bytes at %d, cell at %d: %r" % (o.name, size, off, off + d, cc))
                    cells.append((d, cc[0], cc[1], cc[2]))
                elif o.zero is not None and (off + d) in o.zero:
                    zero.append(d)
            if all(c[2][0] == 'i' and isinstance(c[3], int) for c in cells):
                v = 0
                for d, s, tt, x in cells:
                    v |= x << (8 * d)
                if sum(c[1] for c in cells) + len([z for z in zero]) >= size or True:
                    return v
            return Raw(size, cells, zero)
        if k == 'f':   # written byte by byte (pattern filling)
            bs = [o.cells.get(off + d) for d in range(size)]
            if all(b is not None and b[0] == 1 and isinstance(b[2], int) for b in bs):
                return self.retype(('i', 8 * size), t, sum((b[2] & 255) << (8 * d) for d, b in enumerate(bs)))
        raise EngineError("unsupported load of %r at %s+%d" % (t, o.name, off))

    def retype(self, ct, t, v):
        if ct == t or v is UNDEF:
            if v is UNDEF: return self.undef_of(t, 'cell')
            return v
        if isinstance(v, Raw):
            if t[0] == 'i': return v
            if len(v.cells) == 1: return self.retype(v.cells[0][2], t, v.cells[0][3])
            if not v.cells: return self.zero_of(t)
        if ct[0] == 'f' and t[0] == 'i':
            return Raw(store_size(t), [(0, store_size(t), ct, v)], [])
        if ct[0] == 'i' and t[0] == 'f':
            if v == 0 and isinstance(v, int): return self.dom.fconst(0.0, t[1])
            if isinstance(v, int):
                import struct
                if t[1] == 64: return self.dom.fconst(struct.unpack('<d', struct.pack('<Q', v))[0], 64)
                return self.dom.fconst(struct.unpack('<f', struct.pack('<I', v))[0], 32)
        if ct[0] == 'i' and t[0] == 'i':
            if ct[1] == t[1]: return v
            # bool stored as i8 and the like
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int): return v & ((1 << t[1]) - 1) if t[1] > 1 else bool(v & 1)
            if isinstance(v, Cond):
                return self.to_int(v, t[1])
        if ct[0] == 'ptr' and t[0] == 'i': return v
        if ct[0] == 'i' and t[0] == 'ptr':
            if v == 0: return None
            return v
        raise EngineError("retype %r -> %r (%r)" % (ct, t, v))

    def store(self, t, v, p):
        k = t[0]
        if k == 'struct':
            if v is UNDEF: v = [UNDEF] * len(t[1])
            for i, e in enumerate(t[1]):
                self.store(e, v[i], (p[0], p[1] + field_offset(t, i)))
            return
        if k in ('vec', 'arr'):
            es = size_align(t[2])[0]
            if v is UNDEF: v = [UNDEF] * t[1]
            for i in range(t[1]):
                self.store(t[2], v[i], (p[0], p[1] + i * es))
            return
        size = store_size(t)
        o, off = self.check_access(p, size, 'store')
        self.clear(o, off, size)
        if isinstance(v, Raw):
            for d, s, tt, x in v.cells:
                o.cells[off + d] = (s, tt, x)
            if v.zero:
                if o.zero is None: o.zero = set()
                o.zero.update(off + d for d in v.zero)
            return
        o.cells[off] = (size, t, v)

    def clear(self, o, off, size):
        self.split_ints(o, off, size)
        cells = o.cells
        last = [(d, cells[off + d]) for d in range(size) if (off + d) in cells and d + cells[off + d][0] > size]
        if last: raise EngineError("partial overwrite of a cell of %s" % o.name)
        for d in range(size):
            cells.pop(off + d, None)
        if o.zero is not None:
            for d in range(size):
                o.zero.discard(off + d)
        for d in range(1, 16):
            cc = cells.get(off - d)
            if cc is not None:
                if cc[0] > d:
                    raise EngineError("partial overwrite of a cell of %s" % o.name)
                break

    def memcpy(self, d, s, n):
        if n == 0: return
        so, soff = self.check_access(s, n, 'memcpy read')
        do, doff = self.check_access(d, n, 'memcpy write')
        cells = [(k - soff, c) for k, c in so.cells.items() if soff <= k < soff + n]
        for k, c in cells:
            if k + c[0] > n: raise EngineError("memcpy splits a cell")
        zero = [z - soff for z in so.zero if soff <= z < soff + n] if so.zero else []
        self.clear(do, doff, n)
        for k, c in cells:
            do.cells[doff + k] = c
        if zero:
            if do.zero is None: do.zero = set()
            do.zero.update(doff + z for z in zero)

    def memset(self, d, v, n):
        if n == 0: return
        o, off = self.check_access(d, n, 'memset')
        self.clear(o, off, n)
        if v == 0:
            if o.zero is None: o.zero = set()
            o.zero.update(range(off, off + n))
        else:
            for i in range(n):
                o.cells[off + i] = (1, ('i', 8), v)

    def zero_of(self, t):
        if t[0] == 'f': return self.dom.fconst(0.0, t[1])
        if t[0] == 'i': return False if t[1] == 1 else 0
        if t[0] == 'ptr': return None
        if t[0] in ('vec', 'arr'): return [self.zero_of(t[2]) for _ in range(t[1])]
        if t[0] == 'struct': return [self.zero_of(e) for e in t[1]]
        raise EngineError("zero of %r" % (t,))

    def undef_of(self, t, why=''):
        if t[0] == 'f': return self.dom.undef(t[1], why)
        if t[0] in ('vec', 'arr'): return [self.undef_of(t[2], why) for _ in range(t[1])]
        if t[0] == 'struct': return [self.undef_of(e, why) for e in t[1]]
        return UNDEF

    def operand_const(self, t, x):
        if x == 'zero': return self.zero_of(t)
        if x == 'undef':
            if t[0] == 'f': return self.dom.fconst(0.0, t[1]) if False else self.dom.undef(t[1], 'undef')
            if t[0] in ('vec', 'arr'): return [UNDEF] * t[1]
            if t[0] == 'struct': return [UNDEF] * len(t[1])
            return UNDEF
        if t[0] == 'f': return self.dom.fconst(x, t[1])
        if t[0] == 'i' and t[1] == 1: return bool(x)
        if t[0] == 'i' and t[1] == 64 and isinstance(x, int) and (x >> 32) & 0xffffffff == 0xaaaaaaaa:
            return x & 0xffffffff   # filling of padding after a 32-bit field, merged by the compiler into one word
        return x

    def operand(self, v, t, env):
        k = v[0]
        if k == 'reg': return env[v[1]]
        if k == 'const': return self.operand_const(t, v[2])
        if k == 'glob':
            o = self.gobj.get(v[1])
            if o is None:
                return ('fn', v[1])
            return (o, 0)
        if k == 'gepc':
            base = self.operand(v[2], ('ptr',), env)
            return self.gep(self.mod.resolve(v[1]), base, [(('i', 64), self.operand(i, ('i', 64), env)) for i in v[3]])
        if k == 'agg':
            if t[0] in ('vec', 'arr'): return [self.operand(e, t[2], env) for e in v[2]]
            return [self.operand(e, t[1][i], env) for i, e in enumerate(v[2])]
        raise EngineError("operand %r" % (v,))

    def gep(self, et, base, idx):
        if base is None:
            base = (Obj('null', 0), 0)
        if base is UNDEF or not isinstance(base, tuple):
            raise EngineError("gep on %r" % (base,))
        o, off = base
        t = et
        for n, (it, iv) in enumerate(idx):
            if isinstance(iv, SI):
                iv = self.concretise(iv)
            if iv is UNDEF or isinstance(iv, Raw):
                raise EngineError("undefined index")
            if isinstance(iv, bool): iv = int(iv)
            if it[0] == 'i' and iv >= 1 << (it[1] - 1):
                iv -= 1 << it[1]
            if n == 0:
                off += iv * size_align(t)[0]
            elif t[0] == 'struct':
                off += field_offset(t, iv); t = t[1][iv]
            else:
                t = t[2]
                off += iv * size_align(t)[0]
        return (o, off)

    def concretise(self, si):
        """Fork over the values of a symbolic integer."""
        n = si.e.size()
        for _ in range(64):
            v = self.dom.some_value(si)
            if v is None: raise PathEnd()
            c = self.icmp('eq', n, si, v)
            if self.decide(c): return v
        raise EngineError("too many values for a symbolic index")

    # ------------------------------------------------------------------ ints
    def to_bv(self, v, bits):
        if isinstance(v, SI): return v.e
        if isinstance(v, bool): return z3.BitVecVal(int(v), bits)
        if isinstance(v, int): return z3.BitVecVal(v, bits)
        if isinstance(v, Cond): return z3.If(v.e, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
        raise EngineError("to_bv %r" % (v,))

    def to_int(self, c, bits):
        """Cond -> integer of given width (0/1)."""
        if isinstance(c, Cond):
            return SI(z3.If(c.e, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits)), np.where(c.arr < 0, np.nan, c.arr.astype(float)))
        return int(c)

    def norm_si(self, e, arr):
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        return SI(e, arr)

    def arr_of(self, v):
        if isinstance(v, SI): return v.arr if v.arr is not None else np.full(self.dom.K, np.nan)
        if isinstance(v, Cond): return np.where(v.arr < 0, np.nan, v.arr.astype(float))
        return np.full(self.dom.K, float(int(v)))

    def ibin(self, op, bits, a, b):
        if bits == 1:
            if op == 'and': return c_and(a, b)
            if op == 'or': return c_or(a, b)
            if op in ('xor', 'add', 'sub'): return c_xor(a, b)
            raise EngineError("i1 " + op)
        M = (1 << bits) - 1
        if isinstance(a, RI) or isinstance(b, RI):
            return self.dom.ri_bin(op, bits, a, b)
        if isinstance(a, Raw) or isinstance(b, Raw) or a is UNDEF or b is UNDEF:
            raise EngineError("integer %s on %r, %r" % (op, a, b))
        if isinstance(a, tuple) or isinstance(b, tuple):
            # pointer arithmetic through integers
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] is b[0]:
                return (a[1] - b[1]) & M
            if op == 'add' and isinstance(a, tuple) and isinstance(b, int):
                return (a[0], a[1] + (b if b < 1 << 63 else b - (1 << 64)))
            raise EngineError("pointer arithmetic")
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << bits) if a >> (bits - 1) else a
            sb = b - (1 << bits) if b >> (bits - 1) else b
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b
            elif op == 'lshr': r = a >> b
            elif op == 'ashr': r = sa >> b
            elif op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0:
                    self.handler('memerror', self, "integer division by zero")
                    raise PathEnd()
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0): q = -q
                    r = q if op == 'sdiv' else sa - q * sb
            else: raise EngineError(op)
            return r & M
        x, y = self.to_bv(a, bits), self.to_bv(b, bits)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y), 'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y)}[op]
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            nz = self.icmp('ne', bits, b, 0)
            if not self.decide(nz):
                self.handler('memerror', self, "integer division by zero")
                raise PathEnd()
        arr = None
        A, B = self.arr_of(a), self.arr_of(b)
        if not (np.isnan(A).all() or np.isnan(B).all()):
            ok = ~(np.isnan(A) | np.isnan(B))
            arr = np.full(self.dom.K, np.nan)
            for i in np.nonzero(ok)[0]:
                try:
                    arr[i] = self.ibin(op, bits, int(A[i]), int(B[i])) if not (op in ('sdiv', 'udiv', 'srem', 'urem') and int(B[i]) == 0) else np.nan
                except (PathEnd, OverflowError, ValueError):
                    arr[i] = np.nan
        return self.norm_si(f(), arr)

    def icmp(self, pred, bits, a, b):
        if isinstance(a, RI) or isinstance(b, RI):
            return self.dom.ri_cmp(pred, bits, a, b)
        if bits == 'ptr' or isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            if a is UNDEF or b is UNDEF: raise EngineError("pointer compare undef")
            if pred == 'eq' or pred == 'ne':
                if a is None or b is None: r = a is b
                else: r = a[0] is b[0] and a[1] == b[1]
                return r if pred == 'eq' else not r
            if a is not None and b is not None and a[0] is b[0]:
                x, y = a[1], b[1]
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            raise EngineError("pointer order")
        if a is UNDEF or b is UNDEF or isinstance(a, Raw) or isinstance(b, Raw):
            return self.dom.unknown_cond("icmp on undefined")
        if bits == 1:
            if pred == 'eq': return c_not(c_xor(a, b))
            if pred == 'ne': return c_xor(a, b)
            raise EngineError("i1 icmp " + pred)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            return self._icmp(pred, bits, a, b)
        x, y = self.to_bv(a, bits), self.to_bv(b, bits)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        A, B = self.arr_of(a), self.arr_of(b)
        arr = np.full(self.dom.K, -1)
        for i in range(self.dom.K):
            if not (np.isnan(A[i]) or np.isnan(B[i])):
                arr[i] = 1 if self._icmp(pred, bits, int(A[i]), int(B[i])) else 0
        return Cond(e, arr)

    @staticmethod
    def _icmp(pred, bits, a, b):
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred[0] == 's':
            if a >> (bits - 1): a -= 1 << bits
            if b >> (bits - 1): b -= 1 << bits
        p = pred[1:]
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]

    # ------------------------------------------------------------------ instructions
    def call(self, fname, args):
        f = self.mod.functions.get(fname)
        if f is None:
            raise EngineError("no body: " + fname)
        if fname not in self.funcs_seen:
            self.funcs_seen[fname] = f.ninstr
        if getattr(self, 'depth', 0) > 200:
            raise EngineError("call depth")
        env = {}
        for (t, r), a in zip(f.params, args):
            env[r] = a
        blk = f.entry
        prev = None
        O = self.operand
        dom = self.dom
        while True:
            ins_list = f.blocks[blk]
            # phis in parallel
            i = 0
            if ins_list and ins_list[0][0] == 'phi':
                vals = []
                while i < len(ins_list) and ins_list[i][0] == 'phi':
                    ins = ins_list[i]
                    vals.append((ins[1], O(ins[3][prev], ins[2], env)))
                    i += 1
                for d, v in vals:
                    env[d] = v
            n = len(ins_list)
            while i < n:
                ins = ins_list[i]
                i += 1
                self.steps += 1
                if self.steps > MAXSTEP:
                    raise EngineError("step bound %d exceeded in %s (loop not unwound fully)" % (MAXSTEP, fname))
                if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                    raise EngineError("deadline inside a path")
                op = ins[0]
                if op == 'load':
                    env[ins[1]] = self.load(ins[2], O(ins[3], ('ptr',), env))
                elif op == 'store':
                    self.store(ins[2], O(ins[3], ins[2], env), O(ins[4], ('ptr',), env))
                elif op == 'gep':
                    env[ins[1]] = self.gep(ins[2], O(ins[3], ('ptr',), env), [(t, O(v, t, env)) for t, v in ins[4]])
                elif op == 'fbin':
                    t = ins[3]
                    a, b = O(ins[4], t, env), O(ins[5], t, env)
                    if t[0] == 'vec':
                        env[ins[1]] = [self.fbin(ins[2], t[2], x, y) for x, y in zip(a, b)]
                    else:
                        env[ins[1]] = self.fbin(ins[2], t, a, b)
                elif op == 'fcmp':
                    a, b = O(ins[4], ins[3], env), O(ins[5], ins[3], env)
                    if ins[3][0] == 'vec':
                        env[ins[1]] = [dom.fcmp(ins[2], x, y) for x, y in zip(a, b)]
                    else:
                        env[ins[1]] = dom.fcmp(ins[2], a, b)
                elif op == 'fneg':
                    a = O(ins[3], ins[2], env)
                    env[ins[1]] = [dom.fneg(x) for x in a] if ins[2][0] == 'vec' else dom.fneg(a)
                elif op == 'select':
                    c = O(ins[3], ins[2], env)
                    if isinstance(c, list):
                        a, b = O(ins[5], ins[4], env), O(ins[6], ins[4], env)
                        env[ins[1]] = [self.select(cc, ins[4][2], lambda x=x: x, lambda y=y: y) for cc, x, y in zip(c, a, b)]
                    else:
                        env[ins[1]] = self.select(c, ins[4], lambda: O(ins[5], ins[4], env), lambda: O(ins[6], ins[4], env))
                elif op == 'icmp':
                    t = ins[3]
                    env[ins[1]] = self.icmp(ins[2], t[1] if t[0] == 'i' else 'ptr', O(ins[4], t, env), O(ins[5], t, env))
                elif op == 'ibin':
                    t = ins[3]
                    a, b = O(ins[4], t, env), O(ins[5], t, env)
                    if t[0] == 'vec':
                        env[ins[1]] = [self.ibin(ins[2], t[2][1], x, y) for x, y in zip(a, b)]
                    else:
                        env[ins[1]] = self.ibin(ins[2], t[1], a, b)
                elif op == 'cast':
                    env[ins[1]] = self.cast(ins[2], ins[3], O(ins[4], ins[3], env), ins[5])
                elif op == 'br':
                    prev, blk = blk, ins[2]
                    break
                elif op == 'cbr':
                    c = O(ins[2], ('i', 1), env)
                    if c is UNDEF: raise EngineError("branch on undefined value in " + fname)
                    prev, blk = blk, (ins[3] if self.decide(c) else ins[4])
                    break
                elif op == 'switch':
                    v = O(ins[3], ins[2], env)
                    bits = ins[2][1]
                    tgt = ins[4]
                    if v is UNDEF: raise EngineError("switch on undefined value in " + fname)
                    for cv, lab in ins[5]:
                        if self.decide(self.icmp('eq', bits, v, bool(cv) if bits == 1 else cv)):
                            tgt = lab
                            break
                    prev, blk = blk, tgt
                    break
                elif op == 'call':
                    r = self.do_call(ins, env)
                    if ins[1] is not None:
                        env[ins[1]] = r
                elif op == 'ret':
                    return None if ins[2] is None else O(ins[3], ins[2], env)
                elif op == 'alloca':
                    cnt = 1 if ins[3] is None else O(ins[3], ('i', 64), env)
                    if not isinstance(cnt, int): raise EngineError("symbolic alloca")
                    env[ins[1]] = (Obj('%s:%s' % (fname[1:], ins[1]), size_align(ins[2])[0] * cnt), 0)
                elif op == 'extractvalue':
                    v = O(ins[3], ins[2], env)
                    for k in ins[4]: v = v[k] if v is not UNDEF else UNDEF
                    env[ins[1]] = v
                elif op == 'insertvalue':
                    v = O(ins[3], ins[2], env)
                    e = O(ins[5], ins[4], env)
                    env[ins[1]] = self.insval(ins[2], v, e, ins[6])
                elif op == 'extractelement':
                    v = O(ins[3], ins[2], env); k = O(ins[4], ('i', 64), env)
                    env[ins[1]] = v[k]
                elif op == 'insertelement':
                    v = list(O(ins[3], ins[2], env)); k = O(ins[5], ('i', 64), env)
                    v[k] = O(ins[4], ins[2][2], env)
                    env[ins[1]] = v
                elif op == 'shufflevector':
                    a, b = O(ins[3], ins[2], env), O(ins[4], ins[2], env)
                    m = ins[5]
                    if m[0] == 'const' and m[2] == 'zero': mask = [0] * ins[6][1]
                    elif m[0] == 'const' and m[2] == 'undef': mask = ['undef'] * ins[6][1]
                    else: mask = [x[2] for x in m[2]]
                    ab = list(a) + list(b)
                    env[ins[1]] = [ab[k] if isinstance(k, int) else UNDEF for k in mask]
                elif op == 'freeze':
                    env[ins[1]] = O(ins[3], ins[2], env)
                elif op == 'unreachable':
                    raise PathEnd()
                else:
                    raise EngineError("instruction " + op)

    def insval(self, t, v, e, idx):
        n = len(t[1]) if t[0] == 'struct' else t[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            et = t[1][idx[0]] if t[0] == 'struct' else t[2]
            v[idx[0]] = self.insval(et, v[idx[0]], e, idx[1:])
        return v

    def fbin(self, op, t, a, b):
        if a is UNDEF: a = self.dom.undef(t[1], 'undef')
        if b is UNDEF: b = self.dom.undef(t[1], 'undef')
        return self.dom.fbin(op, a, b)

    def select(self, c, t, fa, fb):
        if not isinstance(c, Cond):
            if c is UNDEF: raise EngineError("select on undefined value")
            return fa() if c else fb()
        e = z3.simplify(c.e)
        if z3.is_true(e): return fa()
        if z3.is_false(e): return fb()
        if t[0] == 'i':
            a, b = fa(), fb()
            if a is UNDEF: return b
            if b is UNDEF: return a
            if t[1] == 1:
                return c_or(c_and(c, a), c_and(c_not(c), b))
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            if isinstance(a, Undef): return b
            if not isinstance(a, (int, SI, Cond)) or not isinstance(b, (int, SI, Cond)):
                return a if self.decide(c) else b
            A, B = self.arr_of(a), self.arr_of(b)
            arr = np.where(c.arr < 0, np.nan, np.where(c.arr == 1, A, B))
            return self.norm_si(z3.If(c.e, self.to_bv(a, t[1]), self.to_bv(b, t[1])), arr)
        if t[0] == 'f' and self.dom.has_ite:
            return self.dom.ite(c, fa(), fb())
        return fa() if self.decide(c) else fb()

    def cast(self, op, t, v, t2):
        if t[0] == 'vec' and op != 'bitcast':
            return [self.cast(op, t[2], x, t2[2]) for x in v]
        if op in ('zext', 'sext', 'trunc'):
            if v is UNDEF: return UNDEF
            if isinstance(v, RI): return RI(v.v, t2[1])
            if isinstance(v, Raw):
                if op == 'trunc':
                    n = t2[1] // 8
                    cells = [c for c in v.cells if c[0] + c[1] <= n]
                    if len(cells) == 1 and cells[0][0] == 0 and cells[0][1] == n:
                        return Raw(n, cells, [])
                raise EngineError("cast of raw bytes")
            if op == 'zext':
                if isinstance(v, Cond): return self.to_int(v, t2[1])
                if isinstance(v, SI): return self.norm_si(z3.ZeroExt(t2[1] - t[1], v.e), v.arr)
                return int(v)
            if op == 'sext':
                if isinstance(v, Cond):
                    M = (1 << t2[1]) - 1
                    return SI(z3.If(v.e, z3.BitVecVal(M, t2[1]), z3.BitVecVal(0, t2[1])), np.where(v.arr < 0, np.nan, v.arr * float(M)))
                if isinstance(v, SI):
                    A = v.arr
                    if A is not None:
                        h = float(1 << (t[1] - 1))
                        A = np.where(A >= h, A + float((1 << t2[1]) - (1 << t[1])), A)
                    return self.norm_si(z3.SignExt(t2[1] - t[1], v.e), A)
                v = int(v)
                if v >> (t[1] - 1): v |= ((1 << t2[1]) - 1) ^ ((1 << t[1]) - 1)
                return v
            if op == 'trunc':
                if isinstance(v, SI):
                    A = v.arr
                    if A is not None:
                        A = np.where(np.isnan(A), np.nan, np.mod(A, float(1 << t2[1])))
                    r = self.norm_si(z3.Extract(t2[1] - 1, 0, v.e), A)
                    if t2[1] == 1:
                        if isinstance(r, int): return bool(r)
                        return Cond(r.e == 1, np.where(np.isnan(A), -1, A).astype(int) if A is not None else np.full(self.dom.K, -1))
                    return r
                if isinstance(v, tuple): return v
                r = int(v) & ((1 << t2[1]) - 1)
                return bool(r) if t2[1] == 1 else r
        if op in ('ptrtoint', 'inttoptr'):
            return v
        if op == 'bitcast':
            if t == t2: return v
            if isinstance(v, Raw) or t[0] in ('f', 'i', 'ptr') and t2[0] in ('f', 'i', 'ptr'):
                if t[0] == 'f' and t2[0] == 'i':
                    r = self.dom.bits_of(v, t[1])
                    if r is not None: return r
                if t[0] == 'i' and t2[0] == 'f' and isinstance(v, SI):
                    r = self.dom.from_bits(v, t2[1])
                    if r is not None: return r
                return self.retype(t, t2, v)
            if t[0] == 'vec' and t2[0] in ('f', 'i') or t[0] in ('f', 'i') and t2[0] == 'vec':
                o = Obj('bitcast', 64)
                self.store(t, v, (o, 0))
                return self.load(t2, (o, 0))
            raise EngineError("bitcast %r %r" % (t, t2))
        if v is UNDEF:
            if t2[0] == 'f': return self.dom.undef(t2[1], 'undef')
            return UNDEF
        if op == 'fptrunc': return self.dom.fptrunc(v, t[1], t2[1])
        if op == 'fpext': return self.dom.fpext(v, t[1], t2[1])
        if op == 'sitofp' or op == 'uitofp':
            if isinstance(v, bool): v = int(v) if op == 'uitofp' else -int(v)
            elif isinstance(v, int) and op == 'sitofp' and v >> (t[1] - 1): v -= 1 << t[1]
            if isinstance(v, int): return self.dom.fconst(float(v), t2[1])
            if isinstance(v, Raw): raise EngineError("itofp of raw bytes")
            return self.dom.itofp(v, t[1], t2[1], op == 'sitofp')
        if op == 'fptosi' or op == 'fptoui':
            return self.dom.fptoi(v, t2[1], op == 'fptosi')
        raise EngineError("cast " + op)

    # ------------------------------------------------------------------ calls
    def do_call(self, ins, env):
        _, dst, rt, callee, args = ins
        if callee[0] == 'reg':
            fv = env[callee[1]]
            if isinstance(fv, tuple) and fv[0] == 'fn': name = fv[1]
            else: raise EngineError("indirect call")
        elif callee[0] == 'glob':
            name = callee[1]
        else:
            raise EngineError("call of %r" % (callee,))
        if name in self.mod.functions:
            a = [self.operand(v, t, env) if v is not None else None for t, v in args]
            return self.call(name, a)
        n = name[1:].strip('"')
        if n.startswith('llvm.'):
            b = n[5:]
            if b.startswith(('lifetime', 'experimental.noalias', 'dbg', 'invariant', 'assume', 'prefetch', 'donothing')):
                return None
        a = [self.operand(v, t, env) if v is not None else None for t, v in args]
        if n.startswith('llvm.'):
            if b.startswith('memcpy') or b.startswith('memmove'):
                if not isinstance(a[2], int): a[2] = self.concretise(a[2])
                return self.memcpy(a[0], a[1], a[2])
            if b.startswith('memset'):
                if not isinstance(a[2], int): a[2] = self.concretise(a[2])
                return self.memset(a[0], a[1], a[2])
            base = b.split('.')[0]
            if base in ('smax', 'smin', 'umax', 'umin'):
                bits = rt[1]
                p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base]
                c = self.icmp(p, bits, a[0], a[1])
                return self.select(c, rt, lambda: a[0], lambda: a[1])
            if base == 'abs':
                c = self.icmp('slt', rt[1], a[0], 0)
                return self.select(c, rt, lambda: self.ibin('sub', rt[1], 0, a[0]), lambda: a[0])
            if base in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and '.with.overflow' in b:
                bits = rt[1][0][1] if isinstance(rt[1], (list, tuple)) else rt[2][0][1]
                x, y = [v if isinstance(v, int) else self.concretise(v) for v in a[:2]]
                M = 1 << bits
                if base[0] == 's':
                    x, y = [v - M if v >> (bits - 1) else v for v in (x, y)]
                r = x * y if base[1:] == 'mul' else x + y if base[1:] == 'add' else x - y
                o = not (0 <= r < M) if base[0] == 'u' else not (-(M >> 1) <= r < M >> 1)
                return [r % M, o]
            if base in ('expect',): return a[0]
            if base in ('trap', 'ubsantrap'):
                self.handler('memerror', self, "array index out of range or missing return value")
                raise PathEnd()
            if base == 'fmuladd':
                return self.dom.fbin('fadd', self.dom.fbin('fmul', a[0], a[1]), a[2])
            if rt[0] == 'vec':
                return [self.dom.math(base, [x[i] for x in a], rt[2][1]) for i in range(rt[1])]
            return self.dom.math(base, a, rt[1] if rt[0] == 'f' else None)
        if n.startswith('vp_'):
            return self.handler(n, self, *a)
        if n == 'rand':
            return self.dom.rand_int()
        if n in ('_Znwm', '_Znam', 'malloc'):
            sz = a[0] if isinstance(a[0], int) else self.concretise(a[0])
            o = Obj('heap%d' % self.steps, sz)
            self.heap[o] = {'_Znwm': 'new', '_Znam': 'new[]'}.get(n, n)
            return (o, 0)
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            return self.release(a[0], {'f': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new'}.get('f' if n == 'free' else n, 'new[]'))
        if n in ('__cxa_atexit', '_ZSt17__throw_bad_allocv'):
            return 0 if n == '__cxa_atexit' else None
        if n in ('memcpy', 'memmove'):
            self.memcpy(a[0], a[1], a[2]); return a[0]
        if n == 'memset':
            self.memset(a[0], a[1], a[2]); return a[0]
        if n.endswith('f') and n[:-1] in ('sin', 'cos', 'tan', 'sqrt', 'fabs', 'acos', 'asin', 'atan2', 'atan', 'fmod', 'pow', 'exp', 'exp2', 'log', 'floor', 'ceil', 'fmin', 'fmax'):
            return self.dom.math(n[:-1], a, 32)
        if rt[0] == 'f':
            if rt[1] == 80 and n.endswith('l'): n = n[:-1]
            return self.dom.math(n, a, rt[1])
        raise EngineError("external function " + n)

def store_size(t):
    return 10 if t[0] == 'f' and t[1] == 80 else size_align(t)[0]

class RI:
    """Mathematical integer held as a real-domain value (no wrap-around; listed as an assumption)."""
    __slots__ = ('v', 'bits')
    def __init__(self, v, bits=32):
        self.v = v
        self.bits = bits
