"""Parser for textual LLVM IR (as emitted by rustc) with lazy function parsing."""
import re
from terms import f2b, b2f

TOK = re.compile(r'''\s+|/\*.*?\*/|(?P<s>c?"(?:[^"\\]|\\.)*")|(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))|(?P<attr>\#[0-9]+)|(?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?(?![a-zA-Z_.]))|(?P<w>[a-zA-Z_$.][-a-zA-Z$._0-9]*|0x[0-9A-Fa-f]+|[fsu]0x[A-Fa-f0-9]+|[-+]?(?:inf|nan)\b[^,\s)\]}>]*|[-+]?qnan|0x[A-Z][0-9A-Fa-f]+)|(?P<p>\.\.\.|[()\[\]{}<>,=*|:])''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        if s[pos] == ';':
            break
        k = m(s, pos)
        if not k:
            raise Exception('tokenize: %r at %r' % (s[pos:pos + 60], s[:80]))
        pos = k.end()
        if k.lastgroup:
            out.append(k.group())
    return out


class Ty:
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs', 'packed')


_tys = {}


def _mkty(k, n=0, el=None, packed=False):
    key = (k, n, el if not isinstance(el, list) else tuple(el), packed)
    t = _tys.get(key)
    if t: return t
    t = Ty(); t.k = k; t.n = n; t.el = el; t.packed = packed; t.offs = None
    if k == 'i':
        b = (n + 7) // 8
        s = 1
        while s < b: s *= 2
        t.size = s if b not in () else b
        t.align = min(s, 16)
    elif k == 'f':
        t.size = n // 8; t.align = t.size
    elif k == 'p':
        t.size = 8; t.align = 8; t.n = 64
    elif k == 'a':
        t.size = n * el.size; t.align = el.align
    elif k == 'v':
        if el.k == 'i' and el.n == 1:
            t.size = (n + 7) // 8
        else:
            t.size = n * el.size
        t.align = t.size
    elif k == 's':
        o = 0; al = 1; offs = []
        for e in el:
            if not packed:
                o = (o + e.align - 1) // e.align * e.align
                al = max(al, e.align)
            offs.append(o); o += e.size
        t.size = (o + al - 1) // al * al; t.align = al; t.offs = offs
    else:
        t.size = 0; t.align = 1
    _tys[key] = t
    return t


VOID = _mkty('void')
PTR = _mkty('p')
I1 = _mkty('i', 1)
I64 = _mkty('i', 64)
I32 = _mkty('i', 32)
I8 = _mkty('i', 8)
F32 = _mkty('f', 32)
F64 = _mkty('f', 64)
META = _mkty('meta')
LABEL = _mkty('label')


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Exception('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:300]))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

    def type(self):
        x = self.next()
        c = x[0]
        if c == 'i' and x[1:].isdigit():
            t = _mkty('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif x == 'float': t = F32
        elif x == 'double': t = F64
        elif x == 'void': t = VOID
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == '[':
            n = int(self.next()); self.expect('x')
            t = _mkty('a', n, self.type()); self.expect(']')
        elif x == '{':
            els = []
            if not self.eat('}'):
                while True:
                    els.append(self.type())
                    if self.eat('}'): break
                    self.expect(',')
            t = _mkty('s', 0, tuple(els))
        elif x == '<':
            if self.eat('{'):
                els = []
                if not self.eat('}'):
                    while True:
                        els.append(self.type())
                        if self.eat('}'): break
                        self.expect(',')
                self.expect('>')
                t = _mkty('s', 0, tuple(els), True)
            else:
                n = int(self.next()); self.expect('x')
                t = _mkty('v', n, self.type()); self.expect('>')
        elif c == '%':
            t = self.m.named_type(x)
        elif x in ('half', 'fp128', 'x86_fp80', 'bfloat', 'token', 'opaque', 'target'):
            t = _mkty('opaque')
        else:
            raise Exception('type %r in %s' % (x, ' '.join(self.t)[:200]))
        # function type suffix
        if self.peek() == '(' and t is not None and self._functype_ahead():
            self.skip_parens()
        return t

    def _functype_ahead(self):
        # only treat "T (...)" as function type if followed by a callee value
        d = 0; j = self.i
        while j < len(self.t):
            if self.t[j] == '(': d += 1
            elif self.t[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        nxt = self.t[j + 1] if j + 1 < len(self.t) else None
        return nxt is not None and (nxt[0] in '%@') and self.t[self.i + 1] != '%'

    # operands: ('r', name) | ('c', value)
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        return ('c', self.const(ty, x))

    def const(self, ty, x=None):
        if x is None: x = self.next()
        k = ty.k
        c = x[0]
        if c == '@':
            return self.m.addr_of(x)
        if x == 'null': return 0
        if x == 'true': return 1
        if x == 'false': return 0
        if x in ('undef', 'poison', 'zeroinitializer', 'none'):
            return self.zero(ty)
        if k == 'i':
            if x[0] in '-0123456789':
                return int(x) & ((1 << ty.n) - 1)
            if x[:3] in ('u0x', 's0x'):
                return int(x[3:], 16) & ((1 << ty.n) - 1)
        if k == 'f':
            return self.fconst(x, ty.n)
        if x[0:2] == 'c"':
            return ('bytes', cstr(x))
        if x == '[' or x == '<' or x == '{':
            close = {'[': ']', '<': '>', '{': '}'}[x]
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; close = '}'
            vals = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    vals.append(self.const(et))
                    if self.eat(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return tuple(vals)
        if x == 'splat':
            self.expect('('); et = self.type(); v = self.const(et); self.expect(')')
            return (v,) * ty.n
        if x in ('getelementptr',):
            while self.peek() != '(':
                if self.peek() == 'inrange':
                    self.next(); self.skip_parens(); continue
                self.next()
            self.expect('(')
            st = self.type(); self.expect(',')
            pt = self.type(); base = self.const(pt)
            off = 0
            first = True; cur = st
            while self.eat(','):
                it = self.type(); idx = self.const(it)
                if idx >> (it.n - 1): idx -= 1 << it.n
                if first:
                    off += idx * cur.size; first = False
                elif cur.k == 's':
                    off += cur.offs[idx]; cur = cur.el[idx]
                else:
                    cur = cur.el
                    off += idx * cur.size
            self.expect(')')
            return (base + off) & ((1 << 64) - 1)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'ptrtoaddr'):
            self.expect('('); ft = self.type(); v = self.const(ft); self.expect('to'); tt = self.type(); self.expect(')')
            if tt.k in 'ip' and not isinstance(v, tuple): return v & ((1 << tt.n) - 1)
            return v
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            while self.peek() != '(': self.next()
            self.expect('('); t1 = self.type(); a = self.const(t1); self.expect(','); t2 = self.type(); b = self.const(t2); self.expect(')')
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[x]
            return r & ((1 << t1.n) - 1)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.const(ty)
        if x == 'blockaddress':
            self.skip_parens(); return 0
        raise Exception('const %r of %s in %s' % (x, k, ' '.join(self.t)[:300]))

    def fconst(self, x, n):
        if x.startswith('f0x'):
            return int(x[3:], 16)
        if x.startswith('0x'):
            bits = int(x[2:], 16)
            if n == 32:
                return f2b(b2f(bits, 64), 32)
            return bits
        if x in ('+inf', 'inf'): return f2b(float('inf'), n)
        if x == '-inf': return f2b(float('-inf'), n)
        if 'nan' in x: return f2b(float('nan'), n)
        return f2b(float(x), n)

    def zero(self, ty):
        k = ty.k
        if k in 'ifp': return 0
        if k == 'a':
            return (self.zero(ty.el),) * ty.n
        if k == 'v': return (self.zero(ty.el),) * ty.n
        if k == 's': return tuple(self.zero(e) for e in ty.el)
        return 0


def cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    b = s.encode('utf-8')
    n = len(b)
    while i < n:
        ch = b[i]
        if ch == 92:
            if b[i + 1] == 92:
                out.append(92); i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ch); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')


class Func:
    __slots__ = ('name', 'params', 'blocks', 'order', 'nslots', 'slots', 'attrs', 'rty', 'code')


SKIPW = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
         'inreg', 'returned', 'immarg', 'nofree', 'allocptr', 'allocalign', 'nest', 'swiftself', 'dead_on_unwind', 'writable',
         'noext', 'nofpclass', 'inalloca', 'byref', 'preallocated', 'dead_on_return', 'initializes'}
PAREN_ATTR = {'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'align', 'sret', 'byval', 'elementtype',
              'memory', 'nofpclass', 'initializes', 'alignstack', 'dead_on_return'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x is None: return
        if x in PAREN_ATTR or x in SKIPW:
            p.next()
            if p.peek() == '(' :
                p.skip_parens()
            elif x == 'align':
                p.next()
            continue
        if x[0] == '"':
            p.next()
            if p.eat('='): p.next()
            continue
        return


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'nusw', 'inrange'}
LINKAGE = {'private', 'internal', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'hidden', 'protected', 'constant', 'global',
           'external', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr', 'extern_weak', 'available_externally', 'common', 'appending', 'default', 'externally_initialized', 'dllexport', 'noundef'}


class Module:
    def __init__(self, path):
        self.path = path
        self.gtext = {}
        self.ftext = {}
        self.decl = {}
        self.types = {}
        self.tcache = {}
        self.attrs = {}
        self.funcs = {}
        self.addr = {}        # symbol -> address
        self.addr2func = {}
        self.glob_init = {}   # object id -> symbol (lazy)
        self.next_obj = 16
        cur = None
        with open(path, encoding='utf-8') as f:
            for line in f:
                if cur is not None:
                    if line.startswith('}'):
                        cur = None
                    else:
                        cur.append(line)
                    continue
                c = line[:1]
                if c == '@':
                    name, rest = line.split(' = ', 1)
                    self.gtext[name] = rest
                elif c == 'd':
                    if line.startswith('define'):
                        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*\(', line)
                        cur = [line]
                        self.ftext[m.group(1)] = cur
                    elif line.startswith('declare'):
                        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*\(', line)
                        self.decl[m.group(1)] = line
                elif c == '%':
                    name, rest = line.split(' = type ', 1)
                    self.types[name] = rest
                elif line.startswith('attributes '):
                    m = re.match(r'attributes (#\d+) = \{(.*)\}', line)
                    self.attrs[m.group(1)] = m.group(2)

    def named_type(self, x):
        t = self.tcache.get(x)
        if t is None:
            txt = self.types[x]
            t = P(tokenize(txt), self).type() if not txt.startswith('opaque') else _mkty('opaque')
            self.tcache[x] = t
        return t

    def addr_of(self, sym):
        a = self.addr.get(sym)
        if a is None:
            if sym in self.gtext:
                txt = self.gtext[sym]
                # alias?
                if re.search(r'\balias\b', txt.split('"')[0][:120]):
                    m = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', txt)
                    a = self.addr_of(m[-1])
                    self.addr[sym] = a
                    return a
            oid = self.next_obj
            self.next_obj += 1
            a = (oid << 32) + 0x1000
            self.addr[sym] = a
            if sym in self.ftext or sym in self.decl:
                self.addr2func[a] = sym
                if 'extern_weak' in self.decl.get(sym, ''):
                    self.addr[sym] = 0
                    return 0
            else:
                self.glob_init[oid] = sym
        return a

    def global_def(self, sym):
        """-> (type, const value or None, is_const)"""
        txt = self.gtext[sym]
        txt = txt.rstrip('\n')
        p = P(tokenize(txt), self)
        isconst = False
        ext = False
        while True:
            x = p.peek()
            if x == 'thread_local':
                p.next()
                if p.peek() == '(': p.skip_parens()
                continue
            if x in ('constant',): isconst = True
            if x in ('external', 'extern_weak'): ext = True
            if x in LINKAGE:
                p.next(); continue
            break
        ty = p.type()
        if ext or p.peek() is None or p.peek() == ',':
            return ty, None, isconst
        v = p.const(ty)
        return ty, v, isconst

    def func(self, sym):
        f = self.funcs.get(sym)
        if f is None:
            f = self.parse_func(sym)
            self.funcs[sym] = f
        return f

    def parse_func(self, sym):
        lines = self.ftext[sym]
        f = Func()
        f.name = sym; f.code = None
        p = P(tokenize(lines[0]), self)
        # find the symbol token
        while p.peek() != sym: p.next()
        p.next(); p.expect('(')
        f.params = []
        slots = {}
        def slot(n):
            s = slots.get(n)
            if s is None:
                s = len(slots); slots[n] = s
            return s
        n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')'); break
                ty = p.type(); skip_attrs(p)
                if p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%%%d' % n
                n += 1
                f.params.append((slot(nm), ty))
                if p.eat(')'): break
                p.expect(',')
        f.attrs = [t for t in p.t[p.i:] if t[0] == '#']
        blocks = {}
        order = []
        cur = None
        curname = None
        i = 1
        L = lines
        N = len(L)
        while i < N:
            line = L[i]; i += 1
            s = line.strip()
            if not s or s[0] == ';' or s[0] == '#': continue
            if line[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
                curname = '%' + m.group(1)
                cur = []
                blocks[curname] = cur; order.append(curname)
                continue
            if cur is None:
                curname = '%' + str(n)
                cur = []; blocks[curname] = cur; order.append(curname)
            if s.startswith('switch') and ']' not in s:
                while True:
                    l2 = L[i]; i += 1
                    s += ' ' + l2.strip()
                    if l2.strip().startswith(']'): break
            elif ' landingpad ' in s or 'invoke ' in s[:60] or s.startswith('invoke'):
                while i < N and (L[i].startswith('          ') ):
                    s += ' ' + L[i].strip(); i += 1
            cur.append(s)
        f.blocks = blocks; f.order = order; f.slots = slots
        f.nslots = slot
        return f

    # parse one instruction line to Instr with slots resolved
    def parse_instr(self, s, f):
        slot = f.nslots
        p = P(tokenize(s), self)
        ins = Instr(); ins.dst = None; ins.x = None; ins.line = s
        x = p.next()
        if x[0] == '%' and p.peek() == '=':
            ins.dst = slot(x); p.next(); x = p.next()
        while x in ('tail', 'musttail', 'notail'):
            x = p.next()
        ins.op = x

        def val(ty):
            skip_attrs(p)
            v = p.value(ty)
            if v[0] == 'r': return ('r', slot(v[1]))
            return v

        def tval():
            ty = p.type()
            return ty, val(ty)

        if x in BINOPS:
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = val(ty); p.expect(','); b = val(ty)
            ins.ty = ty; ins.a = (a, b)
        elif x == 'fneg':
            while p.peek() in FLAGS: p.next()
            ty = p.type(); ins.ty = ty; ins.a = (val(ty),)
        elif x in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pred = p.next()
            ty = p.type(); a = val(ty); p.expect(','); b = val(ty)
            ins.ty = ty; ins.a = (a, b); ins.x = pred
        elif x in CASTS:
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = val(ty); p.expect('to'); ty2 = p.type()
            ins.ty = ty2; ins.a = (a,); ins.x = ty
        elif x == 'select':
            while p.peek() in FLAGS: p.next()
            ct, c = tval(); p.expect(','); t1, a = tval(); p.expect(','); t2, b = tval()
            ins.ty = t1; ins.a = (c, a, b); ins.x = ct
        elif x == 'freeze':
            ty, a = tval(); ins.ty = ty; ins.a = (a,)
        elif x == 'phi':
            while p.peek() in FLAGS: p.next()
            ty = p.type(); inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                if v[0] == 'r': v = ('r', slot(v[1]))
                p.expect(','); lb = p.next(); p.expect(']')
                inc.append((v, lb))
                if not p.eat(','): break
                if p.peek() != '[': break
            ins.ty = ty; ins.a = inc
        elif x == 'br':
            ty = p.type()
            if ty is LABEL:
                ins.ty = None; ins.a = (); ins.x = (p.next(),)
            else:
                c = val(ty); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
                ins.ty = ty; ins.a = (c,); ins.x = (a, b)
        elif x == 'switch':
            ty = p.type(); c = val(ty); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type(); v = p.const(t2); p.expect(','); p.expect('label'); cases.append((v, p.next()))
            ins.ty = ty; ins.a = (c,); ins.x = (d, cases)
        elif x == 'ret':
            ty = p.type(); ins.ty = ty
            ins.a = () if ty is VOID else (val(ty),)
        elif x in ('unreachable',):
            ins.ty = None; ins.a = ()
        elif x == 'resume':
            ins.ty = None; ins.a = (); ins.op = 'unreachable'
        elif x == 'landingpad':
            ins.ty = None; ins.a = (); ins.op = 'unreachable'
        elif x == 'alloca':
            if p.peek() == 'inalloca': p.next()
            ty = p.type(); cnt = ('c', 1)
            if p.eat(','):
                if p.peek() not in ('align', 'addrspace') and p.peek()[0] != '!':
                    _, cnt = tval()
            ins.ty = ty; ins.a = (cnt,)
        elif x == 'load':
            while p.peek() in ('atomic', 'volatile'): p.next()
            ty = p.type(); p.expect(','); _, a = tval()
            ins.ty = ty; ins.a = (a,)
        elif x == 'store':
            while p.peek() in ('atomic', 'volatile'): p.next()
            ty, v = tval(); p.expect(','); _, a = tval()
            ins.ty = ty; ins.a = (v, a)
        elif x == 'getelementptr':
            while p.peek() in FLAGS or p.peek() == 'inrange':
                p.next()
                if p.peek() == '(': p.skip_parens()
            st = p.type(); p.expect(',')
            pt, base = tval()
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!': break
                idx.append(tval())
            ins.ty = st; ins.a = (base,); ins.x = idx
        elif x in ('extractvalue',):
            ty, a = tval(); path = []
            while p.eat(','):
                if not p.peek().isdigit(): break
                path.append(int(p.next()))
            ins.ty = ty; ins.a = (a,); ins.x = path
        elif x == 'insertvalue':
            ty, a = tval(); p.expect(','); t2, b = tval(); path = []
            while p.eat(','):
                if not p.peek().isdigit(): break
                path.append(int(p.next()))
            ins.ty = ty; ins.a = (a, b); ins.x = path
        elif x == 'extractelement':
            ty, a = tval(); p.expect(','); t2, b = tval()
            ins.ty = ty; ins.a = (a, b)
        elif x == 'insertelement':
            ty, a = tval(); p.expect(','); t2, b = tval(); p.expect(','); t3, c = tval()
            ins.ty = ty; ins.a = (a, b, c)
        elif x == 'shufflevector':
            ty, a = tval(); p.expect(','); t2, b = tval(); p.expect(','); t3, c = tval()
            ins.ty = ty; ins.a = (a, b, c)
        elif x == 'fence':
            ins.ty = None; ins.a = ()
        elif x == 'atomicrmw':
            while p.peek() in ('volatile',): p.next()
            op = p.next(); _, a = tval(); p.expect(','); ty, v = tval()
            ins.ty = ty; ins.a = (a, v); ins.x = op
        elif x == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'): p.next()
            _, a = tval(); p.expect(','); ty, c = tval(); p.expect(','); _, n = tval()
            ins.ty = ty; ins.a = (a, c, n)
        elif x in ('call', 'invoke'):
            while p.peek() in FLAGS: p.next()
            while True:
                q = p.peek()
                if q in ('fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'preserve_nonecc', 'tailcc'):
                    p.next(); continue
                if q == 'addrspace':
                    p.next(); p.skip_parens(); continue
                j = p.i
                skip_attrs(p)
                if p.i == j: break
            rty = p.type()
            if p.peek() == '(' :   # vararg fn type
                p.skip_parens()
            ins.ty = rty
            q = p.next()
            if q == 'asm':
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
                callee = ('asm', p.next())
                p.expect(','); p.next()
            elif q[0] == '%':
                callee = ('r', slot(q))
            elif q[0] == '@':
                callee = ('f', q)
            else:
                p.i -= 1
                callee = ('c', p.const(PTR))
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    ty = p.type()
                    if ty is META:
                        d = 0
                        while True:
                            y = p.peek()
                            if d == 0 and y in (',', ')'): break
                            if y in '([{': d += 1
                            if y in ')]}': d -= 1
                            p.next()
                        args.append((ty, ('c', 0)))
                    else:
                        skip_attrs(p)
                        v = p.value(ty)
                        if v[0] == 'r': v = ('r', slot(v[1]))
                        args.append((ty, v))
                    if p.eat(')'): break
                    p.expect(',')
            rest = p.t[p.i:]
            ins.a = args
            normal = None
            if x == 'invoke':
                k = rest.index('to')
                normal = rest[k + 2]
            noret = False
            for t in rest:
                if t[0] == '#':
                    noret = noret or 'noreturn' in self.attrs.get(t, '')
            ins.x = (callee, normal, noret)
        else:
            raise Exception('instr %r: %s' % (x, s))
        return ins
