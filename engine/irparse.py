"""Parser for the subset of textual LLVM 18 IR that clang emits for the harnesses.

Types are tuples: ('i',n) ('f',bits) ('ptr',) ('arr',n,t) ('vec',n,t) ('struct',(t..),packed)
('void',) ('label',) ('meta',) ('func',).
Operands are tuples: ('reg',name) ('glob',name) ('const',type,pyvalue) where pyvalue is an int,
a ('fp',bits-pattern-as-python-float) , None (null), 'undef', 'zero', a list (aggregate),
or ('gep', ...) constant expressions.
"""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<reg>%(?:"[^"]*"|[-\w$.]+))
 |(?P<glob>@(?:"[^"]*"|[-\w$.]+))
 |(?P<meta>![-\w.]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[-A-Za-z$._][-\w$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError("tokenize: " + s[i:i+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        r = s[i:i+80].lstrip()
        if r.startswith(';'):
            break
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'inreg', 'nofree', 'dead_on_unwind', 'writable', 'noext'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'nofpclass', 'range', 'captures', 'memory', 'initializes'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CMPS = {'eq','ne','ugt','uge','ult','ule','sgt','sge','slt','sle'}

class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r got %r in %r" % (s, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def end(self):
        return self.i >= len(self.t)

    # types
    def type(self):
        t = self._type0()
        while self.peek() == '*':
            self.next()
            t = ('ptr',)
        if self.peek() == '(' and t[0] != 'ptr' and self.allow_func:
            # function type
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            return ('func', t)
        return t
    allow_func = False

    def _type0(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'void': return ('void',)
            if v == 'ptr':
                if self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
                return ('ptr',)
            if v == 'float': return ('f', 32)
            if v == 'double': return ('f', 64)
            if v == 'half': return ('f', 16)
            if v == 'x86_fp80': return ('f', 80)
            if v == 'label': return ('label',)
            if v == 'metadata': return ('meta',)
            if v == 'opaque': return ('opaque',)
            if re.match(r'i\d+$', v): return ('i', int(v[1:]))
        elif k == 'reg':
            return ('named', v)
        elif v == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        elif v == '{':
            ts = []
            if not self.accept('}'):
                while True:
                    ts.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            return ('struct', tuple(ts), False)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                ts = []
                if not self.accept('}'):
                    while True:
                        ts.append(self.type())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                return ('struct', tuple(ts), True)
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        raise IRError("type: %r" % (v,))

    def attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTRS and self.kind() == 'word':
                self.next()
            elif v == 'align' and self.kind() == 'word':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif v in PAREN_ATTRS and self.kind() == 'word':
                self.next()
                self.expect('(')
                d = 1
                while d:
                    x = self.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            else:
                return

    # values
    def value(self, t):
        t = self.m.resolve(t)
        k, v = self.t[self.i]
        self.i += 1
        if k == 'reg': return ('reg', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if t[0] == 'f':
                return ('const', t, parse_fp(v, t[1]))
            if t[0] == 'i':
                if v.startswith('0x'):
                    return ('const', t, int(v, 16))
                return ('const', t, int(v) & ((1 << t[1]) - 1))
            raise IRError("num const of type %r" % (t,))
        if k == 'str':
            return ('const', t, parse_cstr(v))
        if k == 'meta':
            # metadata operand: skip (maybe !{...} / !DIExpression())
            return ('const', t, None)
        if k == 'word':
            if v in ('true', 'false'): return ('const', ('i', 1), 1 if v == 'true' else 0)
            if v == 'null': return ('const', ('ptr',), None)
            if v in ('undef', 'poison'): return ('const', t, 'undef')
            if v == 'zeroinitializer': return ('const', t, 'zero')
            if v == 'getelementptr':
                self.accept('inbounds')
                self.accept('nuw')
                self.expect('(')
                et = self.type(); self.expect(',')
                self.type(); base = self.value(('ptr',))
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append(self.value(it))
                self.expect(')')
                return ('gepc', et, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                self.expect('(')
                ft = self.type(); x = self.value(ft); self.expect('to'); self.type(); self.expect(')')
                return x
        if v == '[' or v == '<' or v == '{':
            if v == '<' and self.peek() == '{':
                self.next(); close = '}'
                extra = True
            else:
                close = {'[': ']', '<': '>', '{': '}'}[v]
                extra = False
            els = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    els.append(self.value(et))
                    if self.accept(close): break
                    self.expect(',')
            if extra: self.expect('>')
            return ('agg', t, els)
        raise IRError("value: %r type %r in %r" % (v, t, ' '.join(x[1] for x in self.t)[:200]))

    def tvalue(self):
        t = self.type()
        self.attrs()
        return (self.m.resolve(t), self.value(t))


def parse_fp(v, bits):
    if v.startswith('0x'):
        if v[2] == 'K':
            # 80-bit extended: taken as the nearest double
            h = int(v[3:], 16)
            e, m = (h >> 64) & 0x7fff, h & ((1 << 64) - 1)
            if e == 0x7fff: r = float('inf') if not m & ((1 << 63) - 1) else float('nan')
            else:
                from fractions import Fraction
                q = Fraction(m) * (Fraction(2) ** (max(e, 1) - 16383 - 63))
                try: r = float(q)
                except OverflowError: r = 1.7976931348623157e308
            return -r if h >> 79 else r
        if v[2] in 'LMHR':
            raise IRError("fp const " + v)
        return struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    return float(v)

def parse_cstr(v):
    s = v[2:-1] if v.startswith('c') else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params   # list of (type, regname)
        self.blocks = {}       # label -> list of instr
        self.entry = None
        self.ninstr = 0

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.ctors = []
        self._rcache = {}
        self.parse(text)

    def resolve(self, t):
        if t[0] == 'named':
            r = self._rcache.get(t)
            if r is None:
                r = self._rcache[t] = self.resolve(self.types[t[1]])
            return r
        if t[0] == 'arr' or t[0] == 'vec':
            return (t[0], t[1], self.resolve(t[2]))
        if t[0] == 'struct':
            return ('struct', tuple(self.resolve(x) for x in t[1]), t[2])
        return t

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        body = []
        # types first (may be referenced before definition textually)
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                p = P(tokenize(rest), self)
                self.types[name.strip()] = p.type()
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                p = P(tokenize(l), self)
                for k, v in p.t:
                    if k == 'glob':
                        self.declares[v] = l
                        break
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                body.append((l, lines[i+1:j]))
                i = j
            i += 1
        for hdr, ls in body:
            self.parse_function(hdr, ls)

    def parse_global(self, l):
        p = P(tokenize(l), self)
        name = p.next()
        p.expect('=')
        isconst = False
        external = False
        while True:
            v = p.peek()
            if v in ('global', 'constant'):
                isconst = v == 'constant'
                p.next(); break
            if v == 'external' or v == 'extern_weak':
                external = True
            if v == 'alias' or v == 'ifunc':
                return
            p.next()
            if p.peek() == '(':
                while p.next() != ')': pass
        t = self.resolve(p.type())
        init = None
        if not external and not p.end() and p.peek() != ',':
            init = p.value(t)
        if name == '@llvm.global_ctors':
            if init and init[0] == 'agg':
                for e in init[2]:
                    pr = e[2][0][2]; fn = e[2][1]
                    self.ctors.append((pr, fn[1]))
                self.ctors.sort(key=lambda x: x[0])
            return
        if name.startswith('@llvm.'):
            return
        self.globals[name] = (t, init, isconst)

    def parse_function(self, hdr, ls):
        p = P(tokenize(hdr), self)
        p.next()
        # skip linkage etc until a type followed eventually by @name
        while True:
            v = p.peek(); k = p.kind()
            if k == 'word' and (re.match(r'i\d+$', v) or v in ('void', 'ptr', 'float', 'double', 'half', 'x86_fp80')):
                break
            if k == 'reg' or v in ('{', '[', '<'):
                break
            if v in PAREN_ATTRS or v == 'align':
                p.attrs(); continue
            p.next()
        ret = self.resolve(p.type())
        name = p.next()
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    t = p.type(); p.attrs()
                    if p.kind() == 'reg':
                        r = p.next()
                    else:
                        r = '%' + str(len(params))
                    params.append((self.resolve(t), r))
                if p.accept(')'): break
                p.expect(',')
        f = Function(name, ret, params)
        # implicit entry label number
        unnamed = sum(1 for t, r in params if r[1:].isdigit())
        cur = '%' + str(unnamed)
        f.entry = cur
        blk = f.blocks[cur] = []
        first = True
        k = 0
        while k < len(ls):
            l = ls[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
                if m:
                    lab = '%' + m.group(1)
                    if first and not blk:
                        del f.blocks[cur]
                        f.entry = lab
                    cur = lab
                    blk = f.blocks[cur] = []
                    first = False
                    continue
            first = False
            if l.strip().startswith('switch'):
                while ']' not in l:
                    l += ' ' + ls[k].strip(); k += 1
            ins = self.parse_instr(l)
            if ins is not None:
                blk.append(ins)
                f.ninstr += 1
        self.functions[name] = f

    def parse_instr(self, l):
        toks = tokenize(l)
        p = P(toks, self)
        dst = None
        if p.kind() == 'reg' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        R = self.resolve
        if op == 'alloca':
            t = R(p.type())
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    it = p.type(); cnt = p.value(it)
            return ('alloca', dst, t, cnt)
        if op == 'load':
            p.accept('volatile')
            t = R(p.type()); p.expect(',')
            pt, pv = p.tvalue()
            return ('load', dst, t, pv)
        if op == 'store':
            p.accept('volatile')
            t, v = p.tvalue(); p.expect(',')
            pt, pv = p.tvalue()
            return ('store', None, t, v, pv)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            et = R(p.type()); p.expect(',')
            bt, bv = p.tvalue()
            idx = []
            while p.peek() == ',' and p.kind(1) != 'meta':
                p.next()
                idx.append(p.tvalue())
            return ('gep', dst, et, bv, idx)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FMF: p.next()
            t = R(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return ('fbin', dst, op, t, a, b)
        if op == 'fneg':
            while p.peek() in FMF: p.next()
            t = R(p.type()); a = p.value(t)
            return ('fneg', dst, t, a)
        if op == 'fcmp':
            while p.peek() in FMF: p.next()
            pred = p.next(); t = R(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return ('fcmp', dst, pred, t, a, b)
        if op == 'icmp':
            p.accept('samesign')
            pred = p.next(); t = R(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return ('icmp', dst, pred, t, a, b)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): p.next()
            t = R(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return ('ibin', dst, op, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast',
                  'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nsw', 'nuw') or p.peek() in FMF: p.next()
            t, a = p.tvalue(); p.expect('to'); t2 = R(p.type())
            return ('cast', dst, op, t, a, t2)
        if op == 'select':
            while p.peek() in FMF: p.next()
            ct, c = p.tvalue(); p.expect(',')
            t, a = p.tvalue(); p.expect(',')
            t2, b = p.tvalue()
            return ('select', dst, ct, c, t, a, b)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('br', None, p.next())
            ct, c = p.tvalue(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return ('cbr', None, c, a, b)
        if op == 'switch':
            t, v = p.tvalue(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[2], p.next()))
            return ('switch', None, t, v, d, cases)
        if op == 'phi':
            while p.peek() in FMF: p.next()
            t = R(p.type())
            inc = {}
            while True:
                p.expect('['); v = p.value(t); p.expect(','); lab = p.next(); p.expect(']')
                inc[lab] = v
                if not p.accept(','): break
                if p.kind() == 'meta': break
            return ('phi', dst, t, inc)
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
            p.attrs()
            p.allow_func = True
            t = p.type()
            p.allow_func = False
            if t[0] == 'func': t = t[1]
            t = R(t)
            callee = (p.kind(), p.next())
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at == ('meta',):
                        # skip metadata argument
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x in '({': d += 1
                            elif x in ')}': d -= 1
                        args.append((at, None))
                    else:
                        p.attrs()
                        args.append((R(at), p.value(at)))
                    if p.accept(')'): break
                    p.expect(',')
            if op == 'invoke':
                raise IRError("invoke")
            return ('call', dst, t, callee, args)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, None, None)
            t, v = p.tvalue()
            return ('ret', None, t, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'extractvalue':
            t, v = p.tvalue()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta': break
                idx.append(int(p.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t, v = p.tvalue(); p.expect(','); t2, e = p.tvalue()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta': break
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, t2, e, idx)
        if op == 'extractelement':
            t, v = p.tvalue(); p.expect(','); it, iv = p.tvalue()
            return ('extractelement', dst, t, v, iv)
        if op == 'insertelement':
            t, v = p.tvalue(); p.expect(','); t2, e = p.tvalue(); p.expect(','); it, iv = p.tvalue()
            return ('insertelement', dst, t, v, e, iv)
        if op == 'shufflevector':
            t, a = p.tvalue(); p.expect(','); t2, b = p.tvalue(); p.expect(','); mt, mv = p.tvalue()
            return ('shufflevector', dst, t, a, b, mv, mt)
        if op == 'freeze':
            t, a = p.tvalue()
            return ('freeze', dst, t, a)
        raise IRError("instr: " + l)


def size_align(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        s = 1
        while s < b: s *= 2
        return s, s
    if k == 'f':
        n = 16 if t[1] == 80 else t[1] // 8
        return n, n
    if k == 'ptr':
        return 8, 8
    if k == 'arr':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'vec':
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == 'struct':
        off = 0
        al = 1
        for e in t[1]:
            s, a = size_align(e)
            if not t[2]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        if not t[2]:
            off = (off + al - 1) // al * al
        return off, al
    raise IRError("size of %r" % (t,))

_offs = {}
def field_offset(t, i):
    key = (t, i)
    r = _offs.get(key)
    if r is not None: return r
    off = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(e)
        if not t[2]:
            off = (off + a - 1) // a * a
        if j == i:
            _offs[key] = off
            return off
        off += s
    raise IRError("field")

def parse_file(fn):
    with open(fn) as f: return Module(f.read())
