"""Hash-consed bit-vector / IEEE-754 terms with constant folding.

A value is either a Python int (concrete bit pattern) or a Term.  Floats are
their IEEE bit patterns; FP operations are terms over those patterns.
"""
import struct, math, ctypes, ctypes.util
from fractions import Fraction

_pk = struct.Struct('<f'); _pi = struct.Struct('<I'); _pd = struct.Struct('<d'); _pq = struct.Struct('<Q')
NAN32 = 0x7fc00000
NAN64 = 0x7ff8000000000000


def b2f(b, w):
    if w == 32:
        return _pk.unpack(_pi.pack(b))[0]
    return _pd.unpack(_pq.pack(b))[0]


def f2b(x, w):
    if x != x:
        return NAN32 if w == 32 else NAN64
    if w == 32:
        try:
            return _pi.unpack(_pk.pack(x))[0]
        except OverflowError:
            return 0x7f800000 if x > 0 else 0xff800000
    return _pq.unpack(_pd.pack(x))[0]


def isnan(b, w):
    if w == 32:
        return (b & 0x7fffffff) > 0x7f800000
    return (b & 0x7fffffffffffffff) > 0x7ff0000000000000


def frac2b(fr, w, zero_neg=False):
    """round an exact Fraction to nearest-even float bits"""
    if fr == 0:
        return (1 << (w - 1)) if zero_neg else 0
    sign = fr < 0
    fr = abs(fr)
    mant, emin, emax = (24, -149, 127) if w == 32 else (53, -1074, 1023)
    n, d = fr.numerator, fr.denominator
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) < (d << max(0, e)):
        e -= 1
    q = max(e - mant + 1, emin)           # value = m * 2^q
    if q >= 0:
        num, den = n, d << q
    else:
        num, den = n << (-q), d
    m, r = divmod(num, den)
    if 2 * r > den or (2 * r == den and (m & 1)):
        m += 1
    if m == (1 << mant):
        m >>= 1
        q += 1
    if q + mant - 1 > emax:
        bits = 0x7f800000 if w == 32 else 0x7ff0000000000000
    else:
        if m < (1 << (mant - 1)):
            bits = m
        else:
            bias = 127 if w == 32 else 1023
            ex = q + mant - 1 + bias
            bits = (ex << (mant - 1)) | (m & ((1 << (mant - 1)) - 1))
    return bits | ((1 << (w - 1)) if sign else 0)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Term:
    __slots__ = ('op', 'args', 'w', 'id', 'x', 'vars', 'size', '_lo', '_hi', '_fr', '_lin')

    def __repr__(self):
        return tostr(self, 4)


_tab = {}
_next = [0]
_EMPTY = frozenset()


def reset_terms():
    _tab.clear()
    _DY.clear()


def mk(op, w, args, x=None):
    key = (op, w, x) + tuple([(a.id,) if isinstance(a, Term) else a for a in args])
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op; t.w = w; t.args = args; t.x = x
        _next[0] += 1
        t.id = _next[0]
        vs = None
        size = 1
        for a in args:
            if isinstance(a, Term):
                size += a.size
                if vs is None:
                    vs = a.vars
                elif a.vars is not vs:
                    if not (a.vars <= vs):
                        vs = vs | a.vars
        t.vars = vs if vs is not None else _EMPTY
        t.size = size
        t._lo = None
        t._fr = None
        t._lin = None
        _tab[key] = t
    return t


def var(name, w, kind, lo=None, hi=None, fr=None):
    """kind: 'f' float var (FP sort), 'i' bitvector; lo/hi signed/unsigned int range hint"""
    key = ('var', w, name)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = 'var'; t.w = w; t.args = (); t.x = (name, kind, lo, hi) if fr is None else (name, kind, None, None, fr[0], fr[1])
        _next[0] += 1
        t.id = _next[0]
        t.vars = frozenset([t.id])
        t.size = 1
        t._lo = None
        t._fr = None
        t._lin = None
        _tab[key] = t
        VARS[t.id] = t
    return t


VARS = {}


def tostr(t, depth):
    if not isinstance(t, Term):
        return str(t)
    if t.op == 'var':
        return t.x[0]
    if depth == 0:
        return '..'
    return '(%s%s %s)' % (t.op, '' if t.x is None else ':' + str(t.x), ' '.join(tostr(a, depth - 1) for a in t.args))


# ------------------------------------------------------------------ integers
def isT(v):
    return isinstance(v, Term)


def mask(w):
    return (1 << w) - 1


def add(a, b, w):
    if not isT(a) and not isT(b):
        return (a + b) & mask(w)
    if not isT(a):
        a, b = b, a
    if not isT(b):
        if b == 0:
            return a
        if a.op == 'add' and not isT(a.args[1]):
            return add(a.args[0], (a.args[1] + b) & mask(w), w)
        if a.op == 'ite' and leafconst(a):
            return ite(a.args[0], add(a.args[1], b, w), add(a.args[2], b, w), w)
    else:
        # constants outermost
        c = 0
        if a.op == 'add' and not isT(a.args[1]): c += a.args[1]; a = a.args[0]
        if b.op == 'add' and not isT(b.args[1]): c += b.args[1]; b = b.args[0]
        if a.id > b.id:
            a, b = b, a
        r = mk('add', w, (a, b))
        c &= mask(w)
        return add(r, c, w) if c else r
    return mk('add', w, (a, b))


def leafconst(t, depth=6):
    """ite tree all of whose leaves are constants (bounded)"""
    if not isT(t):
        return True
    if depth == 0 or t.op != 'ite':
        return False
    return leafconst(t.args[1], depth - 1) and leafconst(t.args[2], depth - 1)


def sub(a, b, w):
    if not isT(b):
        return add(a, (-b) & mask(w), w)
    if not isT(a):
        if b.op == 'ite' and leafconst(b):
            return ite(b.args[0], sub(a, b.args[1], w), sub(a, b.args[2], w), w)
    if a is b:
        return 0
    if isT(a) and a.op == 'add' and a.args[0] is b:
        return a.args[1]
    if w > 8 and isT(a):
        d = lin_diff(b, a)
        if d is not None and lin_range(d)[0] >= 0 and len(d[1]) <= 2 and all(c == 1 and t.w <= w for t, c in d[1].values()):
            r = d[0] & mask(w)
            for t, c in d[1].values(): r = add(zext(t, t.w, w), r, w)
            return r
    return mk('sub', w, (a, b))


def mul(a, b, w):
    if not isT(a) and not isT(b):
        return (a * b) & mask(w)
    if not isT(a):
        a, b = b, a
    if not isT(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'ite' and leafconst(a):
            return ite(a.args[0], mul(a.args[1], b, w), mul(a.args[2], b, w), w)
    elif a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def udiv(a, b, w):
    if not isT(a) and not isT(b):
        return a // b if b else mask(w)
    if not isT(b) and b == 1:
        return a
    if isT(a) and not isT(b) and a.op == 'ite' and leafconst(a):
        return ite(a.args[0], udiv(a.args[1], b, w), udiv(a.args[2], b, w), w)
    return mk('udiv', w, (a, b))


def urem(a, b, w):
    if not isT(a) and not isT(b):
        return a % b if b else a
    if not isT(b) and b and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    if isT(a) and not isT(b) and a.op == 'ite' and leafconst(a):
        return ite(a.args[0], urem(a.args[1], b, w), urem(a.args[2], b, w), w)
    return mk('urem', w, (a, b))


def sdiv(a, b, w):
    if not isT(a) and not isT(b):
        sa, sb = sgn(a, w), sgn(b, w)
        if sb == 0:
            return mask(w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return q & mask(w)
    return mk('sdiv', w, (a, b))


def srem(a, b, w):
    if not isT(a) and not isT(b):
        sa, sb = sgn(a, w), sgn(b, w)
        if sb == 0:
            return a
        r = abs(sa) % abs(sb)
        if sa < 0:
            r = -r
        return r & mask(w)
    return mk('srem', w, (a, b))


def and_(a, b, w):
    if not isT(a) and not isT(b):
        return a & b
    if not isT(a):
        a, b = b, a
    if not isT(b):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == 'zext' and b & mask(a.args[0].w) == mask(a.args[0].w):
            return a
        if a.op == 'ite' and leafconst(a):
            return ite(a.args[0], and_(a.args[1], b, w), and_(a.args[2], b, w), w)
    elif a is b:
        return a
    elif w == 1 and (not_(a) is b):
        return 0
    elif a.id > b.id:
        a, b = b, a
    return mk('and', w, (a, b))


def or_(a, b, w):
    if not isT(a) and not isT(b):
        return a | b
    if not isT(a):
        a, b = b, a
    if not isT(b):
        if b == 0:
            return a
        if b == mask(w):
            return b
        if a.op == 'ite' and leafconst(a):
            return ite(a.args[0], or_(a.args[1], b, w), or_(a.args[2], b, w), w)
    elif a is b:
        return a
    elif w == 1 and (not_(a) is b):
        return 1
    elif a.id > b.id:
        a, b = b, a
    return mk('or', w, (a, b))


def xor(a, b, w):
    if not isT(a) and not isT(b):
        return a ^ b
    if not isT(a):
        a, b = b, a
    if not isT(b):
        if b == 0:
            return a
        if w == 1:
            return not_(a)
    elif a is b:
        return 0
    elif a.id > b.id:
        a, b = b, a
    return mk('xor', w, (a, b))


def not_(a):
    if not isT(a):
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    return mk('not', 1, (a,))


def shl(a, b, w):
    if not isT(a) and not isT(b):
        return (a << b) & mask(w) if b < w else 0
    if not isT(b):
        if b == 0:
            return a
        if b < w:
            return mul(a, 1 << b, w)
    return mk('shl', w, (a, b))


def lshr(a, b, w):
    if not isT(a) and not isT(b):
        return a >> b if b < w else 0
    if not isT(b):
        if b == 0:
            return a
        if b < w:
            return zext(extract(a, w - 1, b), w - b, w)
    return mk('lshr', w, (a, b))


def ashr(a, b, w):
    if not isT(a) and not isT(b):
        return (sgn(a, w) >> min(b, w - 1)) & mask(w)
    if not isT(b):
        if b == 0:
            return a
        if b < w:
            return sext(extract(a, w - 1, b), w - b, w)
    return mk('ashr', w, (a, b))


def extract(a, hi, lo):
    w = hi - lo + 1
    if not isT(a):
        return (a >> lo) & mask(w)
    if lo == 0 and w == a.w:
        return a
    op = a.op
    if op == 'extract':
        l0 = a.x[1]
        return extract(a.args[0], hi + l0, lo + l0)
    if op == 'zext':
        iw = a.args[0].w
        if lo >= iw:
            return 0
        if hi < iw:
            return extract(a.args[0], hi, lo)
        if lo == 0:
            return zext(a.args[0], iw, w)
        return zext(extract(a.args[0], iw - 1, lo), iw - lo, w)
    if op == 'sext' and hi < a.args[0].w:
        return extract(a.args[0], hi, lo)
    if op == 'concat':
        h, l = a.args
        lw = a.x
        if hi < lw:
            return extract(l, hi, lo)
        if lo >= lw:
            return extract(h, hi - lw, lo - lw)
        return concat(extract(h, hi - lw, 0), extract(l, lw - 1, lo), hi - lw + 1, lw - lo)
    if op == 'ite' and leafconst(a):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo), w)
    if lo == 0 and w >= 32 and op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        x, y = (extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
        return {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor}[op](x, y, w)
    return mk('extract', w, (a,), (hi, lo))


def concat(h, l, hw, lw):
    if not isT(h) and not isT(l):
        return (h << lw) | l
    if not isT(h) and h == 0:
        return zext(l, lw, hw + lw)
    if isT(h) and isT(l) and h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.x[1] == l.x[0] + 1:
        return extract(h.args[0], h.x[0], l.x[1])
    hi_, li_ = isT(h) and h.op == 'ite', isT(l) and l.op == 'ite'
    if hi_ and li_:
        if h.args[0] is l.args[0]:
            return ite(h.args[0], concat(h.args[1], l.args[1], hw, lw), concat(h.args[2], l.args[2], hw, lw), hw + lw)
    elif hi_: return ite(h.args[0], concat(h.args[1], l, hw, lw), concat(h.args[2], l, hw, lw), hw + lw)
    elif li_ and isT(h): return ite(l.args[0], concat(h, l.args[1], hw, lw), concat(h, l.args[2], hw, lw), hw + lw)
    return mk('concat', hw + lw, (h, l), lw)


def zext(a, fw, tw):
    if not isT(a) or fw == tw:
        return a
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, tw)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], zext(a.args[1], fw, tw), zext(a.args[2], fw, tw), tw)
    return mk('zext', tw, (a,))


def sext(a, fw, tw):
    if fw == tw:
        return a
    if not isT(a):
        return sgn(a, fw) & mask(tw)
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, tw)
    if a.op == 'sext':
        return sext(a.args[0], a.args[0].w, tw)
    if urange(a)[1] < 1 << (fw - 1):
        return zext(a, fw, tw)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], sext(a.args[1], fw, tw), sext(a.args[2], fw, tw), tw)
    return mk('sext', tw, (a,))


def ite(c, a, b, w):
    if not isT(c):
        return a if c else b
    if a is b or (not isT(a) and not isT(b) and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, w)
    if w == 1:
        if not isT(a):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if not isT(b):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if isT(a) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isT(b) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b or (not isT(a) and not isT(b) and a == b):
        return a
    return mk('ite', w, (c, a, b))


def urange(t):
    """unsigned range [lo,hi] of a value (sound)"""
    if not isT(t):
        return t, t
    if t._lo is not None:
        return t._lo, t._hi
    w = t.w
    lo, hi = 0, mask(w)
    op = t.op
    if op == 'var':
        if t.x[2] is not None and t.x[2] >= 0:
            lo, hi = t.x[2], t.x[3]
    elif op == 'zext':
        lo, hi = urange(t.args[0])
    elif op == 'ite':
        a, b = urange(t.args[1]), urange(t.args[2])
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
    elif op == 'add':
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[1] + b[1] <= hi:
            lo, hi = a[0] + b[0], a[1] + b[1]
        elif not isT(t.args[1]):
            k = t.args[1] - (1 << w)      # adding a negative constant
            if a[0] + k >= 0:
                lo, hi = a[0] + k, a[1] + k
    elif op == 'sub':
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[0] - b[1] >= 0:
            lo, hi = a[0] - b[1], a[1] - b[0]
    elif op == 'mul':
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[1] * b[1] <= hi:
            lo, hi = a[0] * b[0], a[1] * b[1]
    elif op == 'and':
        a, b = urange(t.args[0]), urange(t.args[1])
        hi = min(a[1], b[1])
    elif op == 'shl' and not isT(t.args[1]):
        a = urange(t.args[0])
        if a[1] << t.args[1] <= hi:
            lo, hi = a[0] << t.args[1], a[1] << t.args[1]
    elif op == 'lshr' and not isT(t.args[1]):
        a = urange(t.args[0])
        lo, hi = a[0] >> t.args[1], a[1] >> t.args[1]
    elif op == 'urem':
        b = urange(t.args[1])
        a = urange(t.args[0])
        if b[0] > 0:
            hi = min(b[1] - 1, a[1])
            if a[1] < b[0]:
                lo, hi = a
    elif op == 'udiv':
        a, b = urange(t.args[0]), urange(t.args[1])
        if b[0] > 0:
            lo, hi = a[0] // b[1], a[1] // b[0]
    elif op == 'extract':
        a = urange(t.args[0])
        h, l = t.x
        if a[1] >> (h + 1) == 0:
            lo, hi = a[0] >> l, a[1] >> l
    t._lo, t._hi = lo, hi
    return lo, hi


def srange(t, w):
    if not isT(t):
        v = sgn(t, w)
        return v, v
    if t.op == 'var' and t.x[2] is not None:
        return t.x[2], t.x[3]
    if t.op == 'sext':
        return srange(t.args[0], t.args[0].w)
    if t.op == 'ite':
        a, b = srange(t.args[1], w), srange(t.args[2], w)
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == 'add':
        a, b = srange(t.args[0], w), srange(t.args[1], w)
        lo, hi = a[0] + b[0], a[1] + b[1]
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            return lo, hi
    if t.op == 'sub':
        a, b = srange(t.args[0], w), srange(t.args[1], w)
        lo, hi = a[0] - b[1], a[1] - b[0]
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            return lo, hi
    if t.op == 'mul':
        a, b = srange(t.args[0], w), srange(t.args[1], w)
        ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        lo, hi = min(ps), max(ps)
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            return lo, hi
    u = urange(t)
    if u[1] < (1 << (w - 1)):
        return u
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def lin(t):
    """unsigned value as an integer linear form (const, {id: (atom, coeff)}); exact (no wrap-around)"""
    if not isT(t): return (t, {})
    if t._lin is not None: return t._lin
    op = t.op; w = t.w; a = t.args
    r = None
    if op == 'zext': r = lin(a[0])
    elif op == 'sext':
        if urange(a[0])[1] < 1 << (a[0].w - 1): r = lin(a[0])
    elif op == 'add':
        p, q = urange(a[0]), urange(a[1])
        if p[1] + q[1] <= mask(w): r = lin_add(lin(a[0]), lin(a[1]), 1)
        elif not isT(a[1]) and p[0] + a[1] - (1 << w) >= 0:
            r = lin_add(lin(a[0]), (a[1] - (1 << w), {}), 1)
    elif op == 'sub':
        p, q = urange(a[0]), urange(a[1])
        if p[0] - q[1] >= 0: r = lin_add(lin(a[0]), lin(a[1]), -1)
    elif op == 'mul' and not isT(a[1]):
        if urange(a[0])[1] * a[1] <= mask(w): r = lin_add((0, {}), lin(a[0]), a[1])
    elif op == 'shl' and not isT(a[1]):
        if urange(a[0])[1] << a[1] <= mask(w): r = lin_add((0, {}), lin(a[0]), 1 << a[1])
    if r is None or len(r[1]) > 24: r = (0, {t.id: (t, 1)})
    t._lin = r
    return r


def lin_add(x, y, k):
    d = dict(x[1])
    for i, (t, c) in y[1].items():
        c0 = d[i][1] if i in d else 0
        c1 = c0 + c * k
        if c1: d[i] = (t, c1)
        else: d.pop(i, None)
    return (x[0] + y[0] * k, d)


def lin_range(x):
    lo = hi = x[0]
    for t, c in x[1].values():
        l, h = urange(t)
        if c > 0: lo += l * c; hi += h * c
        else: lo += h * c; hi += l * c
    return lo, hi


def lin_diff(a, b):
    """b - a as a linear form when they share atoms (or None)"""
    p = lin(a); q = lin(b)
    if not p[1] or not q[1]: return None
    if not any(i in q[1] for i in p[1]): return None
    return lin_add(q, p, -1)


def eq(a, b, w):
    if not isT(a) and not isT(b):
        return int(a == b)
    if a is b:
        return 1
    if not isT(a):
        a, b = b, a
    if w == 1:
        if not isT(b):
            return a if b else not_(a)
    if not isT(b):
        op = a.op
        if op == 'ite' and leafconst(a, 12):
            return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 1)
        if op == 'zext':
            iw = a.args[0].w
            if b >> iw:
                return 0
            return eq(a.args[0], b, iw)
        if op == 'sext':
            iw = a.args[0].w
            if sgn(b & mask(iw), iw) & mask(w) != b:
                return 0
            return eq(a.args[0], b & mask(iw), iw)
        if op == 'add' and not isT(a.args[1]):
            return eq(a.args[0], (b - a.args[1]) & mask(w), w)
        if op == 'concat':
            lw = a.x
            h, l = a.args
            return and_(eq(h, b >> lw, w - lw), eq(l, b & mask(lw), lw), 1)
        if op == 'xor' and not isT(a.args[1]):
            return eq(a.args[0], b ^ a.args[1], w)
        lo, hi = urange(a)
        if b < lo or b > hi:
            return 0
        if op == 'mul' and not isT(a.args[1]):
            k = a.args[1]
            al, ah = urange(a.args[0])
            if ah * k <= mask(w):
                if b % k:
                    return 0
                return eq(a.args[0], b // k, w)
    else:
        (l1, h1), (l2, h2) = urange(a), urange(b)
        if h1 < l2 or h2 < l1:
            return 0
        d = lin_diff(a, b) if w > 8 else None
        if d is not None:
            l, h = lin_range(d)
            if l > 0 or h < 0: return 0
            if not d[1]: return int(d[0] == 0)
            if len(d[1]) == 1:
                (t, c), = d[1].values()
                if d[0] % c: return 0
                v = -d[0] // c
                if not 0 <= v <= mask(t.w): return 0
                if t is not a and t is not b: return eq(t, v, t.w)
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0], a.args[0].w)
        if a.id > b.id:
            a, b = b, a
    return mk('eq', 1, (a, b))


def ult(a, b, w):
    if not isT(a) and not isT(b):
        return int(a < b)
    if a is b:
        return 0
    (l1, h1), (l2, h2) = urange(a), urange(b)
    if h1 < l2:
        return 1
    if l1 >= h2:
        return 0
    if isT(a) and not isT(b):
        if a.op == 'ite' and leafconst(a, 12):
            return ite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w), 1)
        if a.op == 'zext' and b <= mask(a.args[0].w):
            return ult(a.args[0], b, a.args[0].w)
        if b == 1:
            return eq(a, 0, w)
    if isT(b) and not isT(a):
        if b.op == 'ite' and leafconst(b, 12):
            return ite(b.args[0], ult(a, b.args[1], w), ult(a, b.args[2], w), 1)
        if b.op == 'zext' and a <= mask(b.args[0].w):
            return ult(a, b.args[0], b.args[0].w)
    if isT(a) and isT(b):
        d = lin_diff(a, b) if w > 8 else None
        if d is not None:
            l, h = lin_range(d)
            if l > 0: return 1
            if h <= 0: return 0
            if len(d[1]) == 1:
                (t, c), = d[1].values()
                # d0 + c*t > 0
                if c > 0:
                    v = -d[0] // c       # t > -d0/c  <=>  t > floor(-d0/c)
                    if v < 0: return 1
                    if v >= mask(t.w): return 0
                    return ult(v, t, t.w)
                v = -(-d[0] // -c)       # t < d0/|c|  <=>  t < ceil(d0/|c|)
                if v <= 0: return 0
                if v > mask(t.w): return 1
                return ult(t, v, t.w)
    if isT(a) and isT(b) and a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0], a.args[0].w)
    return mk('ult', 1, (a, b), w)


def ule(a, b, w):
    return not_(ult(b, a, w))


def slt(a, b, w):
    if not isT(a) and not isT(b):
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return 0
    (l1, h1), (l2, h2) = srange(a, w), srange(b, w)
    if h1 < l2:
        return 1
    if l1 >= h2:
        return 0
    if isT(a) and not isT(b) and a.op == 'ite' and leafconst(a, 12):
        return ite(a.args[0], slt(a.args[1], b, w), slt(a.args[2], b, w), 1)
    if isT(b) and not isT(a) and b.op == 'ite' and leafconst(b, 12):
        return ite(b.args[0], slt(a, b.args[1], w), slt(a, b.args[2], w), 1)
    if isT(a) and not isT(b) and a.op == 'sext':
        iw = a.args[0].w
        if sgn(b & mask(iw), iw) == sgn(b, w):
            return slt(a.args[0], b & mask(iw), iw)
    if isT(a) != isT(b):
        t, k = (a, sgn(b, w)) if isT(a) else (b, sgn(a, w))
        if t.op == 'add' and not isT(t.args[1]):
            c = sgn(t.args[1], w)
            l, h = srange(t.args[0], w)
            m = 1 << (w - 1)
            if -m <= l + c and h + c < m and -m <= k - c < m:
                k = (k - c) & mask(w)
                return slt(t.args[0], k, w) if t is a else slt(k, t.args[0], w)
        if t.op == 'sub' and not isT(t.args[0]):
            c = sgn(t.args[0], w)
            l, h = srange(t.args[1], w)
            m = 1 << (w - 1)
            if -m <= c - h and c - l < m and -m <= c - k < m:      # c - x < k  <=>  c - k < x
                k = (c - k) & mask(w)
                return slt(k, t.args[1], w) if t is a else slt(t.args[1], k, w)
        if t.op == 'zext':
            iw = t.args[0].w
            if k < 0: return int(t is b)
            if k > mask(iw): return int(t is a)
            return ult(t.args[0], k, iw) if t is a else ult(k, t.args[0], iw)
    return mk('slt', 1, (a, b), w)


def sle(a, b, w):
    return not_(slt(b, a, w))


# -------------------------------------------------------------------- floats
def _fin(x):
    return x == x and abs(x) != math.inf


def cfadd(a, b, w):
    return f2b(b2f(a, w) + b2f(b, w), w)


def cfsub(a, b, w):
    return f2b(b2f(a, w) - b2f(b, w), w)


def cfmul(a, b, w):
    return f2b(b2f(a, w) * b2f(b, w), w)


def cfdiv(a, b, w):
    x, y = b2f(a, w), b2f(b, w)
    if y == 0:
        if x != x or x == 0:
            return f2b(math.nan, w)
        s = (a ^ b) >> (w - 1)
        return f2b(-math.inf if s else math.inf, w)
    return f2b(x / y, w)


def cfrem(a, b, w):
    x, y = b2f(a, w), b2f(b, w)
    if y == 0 or x != x or y != y or abs(x) == math.inf:
        return f2b(math.nan, w)
    return f2b(math.fmod(x, y), w)


def cfsqrt(a, w):
    x = b2f(a, w)
    if x != x or x < 0:
        return f2b(math.nan, w)
    return f2b(math.sqrt(x), w)


def notnegz(t, w, d=6):
    """t can never be -0.0"""
    if not isT(t): return t != 1 << (w - 1)
    op = t.op
    if op in ('sitofp', 'uitofp', 'fabs'): return True
    if d == 0: return False
    r = frange(t, w)
    if r[0] > 0 and not r[2]: return True
    if op == 'fmul':
        if t.args[0] is t.args[1]: return True
        return r[0] >= 0 and all(frange(x, w)[0] >= 0 and notnegz(x, w, d - 1) for x in t.args)
    if op == 'fdiv': return r[0] >= 0 and all(frange(x, w)[0] >= 0 and notnegz(x, w, d - 1) for x in t.args)
    if op == 'fadd': return notnegz(t.args[0], w, d - 1) or notnegz(t.args[1], w, d - 1)
    if op == 'fsub': return notnegz(t.args[0], w, d - 1)
    if op == 'ite': return notnegz(t.args[1], w, d - 1) and notnegz(t.args[2], w, d - 1)
    return False


def pow2exp(b, w):
    """constant is +2^e (normal) -> e"""
    mb = 23 if w == 32 else 52
    if b & mask(mb) or b >> (w - 1): return None
    e = b >> mb
    if e == 0 or e == (0xff if w == 32 else 0x7ff): return None
    return e - (127 if w == 32 else 1023)


def pow2c(e, w):
    return (e + (127 if w == 32 else 1023)) << (23 if w == 32 else 52)


def gridexp(t, w, d=12):
    """e such that t is a finite multiple of 2^e (never NaN); or None"""
    if not isT(t):
        x = b2f(t, w)
        if x != x or abs(x) == float('inf'): return None
        if x == 0: return 60
        n, q = x.as_integer_ratio()
        if q > 1: return -(q.bit_length() - 1)
        return (n & -n).bit_length() - 1
    if d == 0: return None
    op = t.op
    if op in ('sitofp', 'uitofp'):
        lo, hi = srange(t.args[0], t.x) if op == 'sitofp' else urange(t.args[0])
        return 0 if max(abs(lo), abs(hi)) <= 1 << 24 else None
    if op in ('fneg', 'fabs'): return gridexp(t.args[0], w, d - 1)
    if op == 'fmul' and not isT(t.args[1]):
        k = pow2exp(t.args[1], w)
        e = gridexp(t.args[0], w, d - 1)
        if k is None or e is None or not -60 <= e + k <= 60: return None
        return e + k
    if op in ('fadd', 'fsub'):
        e = gridexp(t.args[0], w, d - 1)
        if e is None: return None
        f = gridexp(t.args[1], w, d - 1)
        if f is None: return None
        e = min(e, f)
        r = frange(t, w)
        if r[2] or max(abs(r[0]), abs(r[1])) > 2.0 ** (e + 24): return None
        return e
    if op == 'ite':
        e = gridexp(t.args[1], w, d - 1)
        if e is None: return None
        f = gridexp(t.args[2], w, d - 1)
        return None if f is None else min(e, f)
    return None


def fadd(a, b, w):
    if not isT(a) and not isT(b):
        return cfadd(a, b, w)
    if not isT(a):
        a, b = b, a
    if isT(b) and a.id > b.id:
        a, b = b, a
    if not isT(b):
        if b == 1 << (w - 1): return a
        if b == 0 and notnegz(a, w): return a
    elif a is b: return fmul(a, f2b(2.0, w), w)
    t = mk('fadd', w, (a, b))
    if w == 32 and isT(b):
        r = _dconst(t, w)
        if r is not None: return r
    return t


def fsub(a, b, w):
    if not isT(a) and not isT(b):
        return cfsub(a, b, w)
    if not isT(b) and b == 0: return a
    if a is b:
        r = frange(a, w)
        if not r[2] and abs(r[0]) != _FINF and abs(r[1]) != _FINF: return 0
    t = mk('fsub', w, (a, b))
    if w == 32 and isT(a) and isT(b):
        r = _dconst(t, w)
        if r is not None: return r
    return t


def fmul(a, b, w):
    if not isT(a) and not isT(b):
        return cfmul(a, b, w)
    if not isT(a):
        a, b = b, a
    if isT(b) and a.id > b.id:
        a, b = b, a
    if not isT(b):
        if b == f2b(1.0, w): return a
        if b == 0:
            r = frange(a, w)
            if r[0] >= 0 and r[1] < _FINF and not r[2] and (r[0] > 0 or notnegz(a, w)): return 0
        if a.op == 'fmul' and not isT(a.args[1]):
            k = pow2exp(b, w)
            if k is not None and _normal(a, w):
                j = pow2exp(a.args[1], w)
                if j is not None and abs(k) <= 40 and abs(j) <= 40 and abs(j + k) <= 40 and _normal(a.args[0], w): return fmul(a.args[0], pow2c(j + k, w), w)
    return mk('fmul', w, (a, b))


def fdiv(a, b, w):
    if not isT(a) and not isT(b):
        return cfdiv(a, b, w)
    if not isT(b):
        k = pow2exp(b, w)
        if k is not None and abs(k) <= 120: return fmul(a, pow2c(-k, w), w)
    elif not isT(a):
        if a == 0:
            r = frange(b, w)
            if r[0] > 0 and not r[2]: return 0
    else:
        # x*2^i / (x*2^j) = 2^(i-j) for x away from zero, subnormals and overflow
        (x, i), (y, j) = _split2(a, w), _split2(b, w)
        if x is y:
            r = frange(x, w)
            if not r[2] and (r[0] > 0 or r[1] < 0):
                m = (min(abs(r[0]), abs(r[1])), max(abs(r[0]), abs(r[1])))
                if m[0] >= 2.0 ** -60 and m[1] <= 2.0 ** 60: return pow2c(i - j, w)
    return mk('fdiv', w, (a, b))


def _normal(a, w):
    """zero, or a magnitude within 2^-60 .. 2^60"""
    r = frange(a, w)
    if r[2] or max(abs(r[0]), abs(r[1])) > 2.0 ** 60: return False
    if r[0] >= 2.0 ** -60 or r[1] <= -2.0 ** -60: return True
    g = gridexp(a, w)
    return g is not None and g >= -60


def _split2(a, w):
    k = 0
    while isT(a) and a.op == 'fmul' and not isT(a.args[1]):
        e = pow2exp(a.args[1], w)
        if e is None or abs(k + e) > 40: break
        k += e; a = a.args[0]
    return a, k


def frem(a, b, w):
    if not isT(a) and not isT(b):
        return cfrem(a, b, w)
    return mk('uf', w, (a, b), 'fmodf' if w == 32 else 'fmod')


def fsqrt(a, w):
    if not isT(a):
        return cfsqrt(a, w)
    # sqrt(x*x*4^k) = |x|*2^k for x on a dyadic grid (no underflow or overflow; sqrt of a rounded square is exact)
    z = a; k = 0
    if z.op == 'fmul' and not isT(z.args[1]):
        k = pow2exp(z.args[1], w)
        z = z.args[0] if k is not None and k % 2 == 0 and abs(k) <= 40 else None
    if z is not None and isT(z) and z.op == 'fmul' and z.args[0] is z.args[1]:
        g = gridexp(z.args[0], w)
        r = frange(z.args[0], w)
        if g is not None and g >= -25 and not r[2] and max(abs(r[0]), abs(r[1])) < 2.0 ** 40: return fmul(fabs(z.args[0], w), pow2c(k // 2, w), w)
    return mk('fsqrt', w, (a,))


def fneg(a, w):
    if not isT(a):
        return a ^ (1 << (w - 1))
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', w, (a,))


def fabs(a, w):
    if not isT(a):
        return a & mask(w - 1)
    if a.op in ('fabs',):
        return a
    if a.op == 'fneg':
        return fabs(a.args[0], w)
    return mk('fabs', w, (a,))


def fisnan(a, w):
    if not isT(a):
        return int(isnan(a, w))
    if a.op in ('fneg', 'fabs'):
        return fisnan(a.args[0], w)
    if not frange(a, w)[2]:
        return 0
    if a.op == 'ite':
        x, y = a.args[1], a.args[2]
        if not isT(x) or not isT(y):
            return ite(a.args[0], fisnan(x, w), fisnan(y, w), 1)
    return mk('fisnan', 1, (a,), w)


_FINF = float('inf')
_UNB = (-_FINF, _FINF, True)


def frange(t, w):
    """sound float range (lo, hi, may_be_nan)"""
    if not isT(t):
        x = b2f(t, w)
        if x != x: return _UNB
        return (x, x, False)
    if t._fr is not None: return t._fr
    st = [t]
    while st:                      # iterative: terms can be deep
        u = st[-1]
        if u._fr is not None: st.pop(); continue
        todo = []
        if u.op in _FR_REC:
            for a in (u.args[1:] if u.op == 'ite' else u.args):
                if isT(a) and a._fr is None and a.op in _FR_REC: todo.append(a)
        if todo: st.extend(todo)
        else:
            u._fr = _frange(u)
            st.pop()
    return t._fr


_FR_REC = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'ite', 'fsqrt', 'fpext', 'fptrunc', 'fround', 'uf'}


def _frange(t):
    op = t.op; w = t.w; a = t.args
    if op == 'var' and len(t.x) > 4: return (b2f(t.x[4], w), b2f(t.x[5], w), False)
    if op == 'sitofp' or op == 'uitofp':
        lo, hi = srange(a[0], t.x) if op == 'sitofp' else urange(a[0])
        return (b2f(int2f(lo, w), w), b2f(int2f(hi, w), w), False)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        p, q = frange(a[0], w), frange(a[1], w)
        if p[2] or q[2]: return _UNB
        if _FINF in (abs(p[0]), abs(p[1]), abs(q[0]), abs(q[1])): return _UNB
        f = {'fadd': cfadd, 'fsub': cfsub, 'fmul': cfmul, 'fdiv': cfdiv}[op]
        c = [f2b(z, w) for z in (p[0], p[1], q[0], q[1])]
        if op == 'fadd': l, h = [f(c[0], c[2], w)], [f(c[1], c[3], w)]
        elif op == 'fsub': l, h = [f(c[0], c[3], w)], [f(c[1], c[2], w)]
        else:
            if op == 'fdiv' and q[0] <= 0 <= q[1]: return _UNB
            l = h = [f(x, y, w) for x in c[:2] for y in c[2:]]
            if op == 'fmul' and isT(a[0]) and a[0] is a[1]:
                v = [b2f(x, w) for x in (f(c[0], c[0], w), f(c[1], c[1], w))]
                return (0.0 if p[0] <= 0 <= p[1] else min(v), max(v), False)
        return (min(b2f(x, w) for x in l), max(b2f(x, w) for x in h), False)
    if op == 'fneg':
        p = frange(a[0], w); return (-p[1], -p[0], p[2])
    if op == 'fabs':
        p = frange(a[0], w)
        return (0.0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1])), max(abs(p[0]), abs(p[1])), p[2])
    if op == 'ite':
        if w not in (32, 64): return _UNB
        p, q = frange(a[1], w), frange(a[2], w)
        return (min(p[0], q[0]), max(p[1], q[1]), p[2] or q[2])
    if op == 'fsqrt':
        p = frange(a[0], w)
        if p[2] or p[0] < 0: return (0.0, _FINF, True)
        return (b2f(cfsqrt(f2b(p[0], w), w), w), b2f(cfsqrt(f2b(p[1], w), w), w), False)
    if op == 'fpext': return frange(a[0], 32)
    if op == 'fptrunc':
        p = frange(a[0], 64)
        if p[2]: return _UNB
        return (b2f(f2b(p[0], 32), 32), b2f(f2b(p[1], 32), 32), False)
    if op == 'fround':
        p = frange(a[0], w)
        if p[2] or abs(p[0]) == _FINF or abs(p[1]) == _FINF: return _UNB
        return (b2f(cround(f2b(p[0], w), w, 'floor'), w), b2f(cround(f2b(p[1], w), w, 'ceil'), w), False)
    return _UNB


def _ford(b, w):
    return -(b & mask(w - 1)) if b >> (w - 1) else b


def sqrt_le(c, w):
    """largest non-negative float M with fl(sqrt(M)) <= c (c >= 0 finite)"""
    lo, hi = 0, (0x7f7fffff if w == 32 else 0x7fefffffffffffff)
    cx = b2f(c, w)
    if b2f(cfsqrt(hi, w), w) <= cx: return hi
    while lo < hi:
        m = (lo + hi + 1) // 2
        if b2f(cfsqrt(m, w), w) <= cx: lo = m
        else: hi = m - 1
    return lo


def _cmp_sqrt(op, a, b, w):
    """comparison of sqrt(x) with a constant -> comparison of x"""
    if isT(a) and a.op == 'fsqrt' and not isT(b):
        x = a.args[0]; c = b2f(b, w)
        if c == _FINF: return None
        nn = fle(0, x, w)
        if op == 'le':
            if c < 0: return 0
            return and_(nn, fle(x, sqrt_le(b, w), w), 1)
        if c <= 0: return 0
        return and_(nn, fle(x, sqrt_le(b - 1, w), w), 1)
    if isT(b) and b.op == 'fsqrt' and not isT(a):
        x = b.args[0]; c = b2f(a, w)
        if c == _FINF: return None
        if op == 'le':
            if c <= 0: return fle(0, x, w)
            return flt(sqrt_le(a - 1, w), x, w)
        if c < 0: return fle(0, x, w)
        return flt(sqrt_le(a, w), x, w)
    return None


_MONO = {}
_INCR = {'exp', 'expf', 'exp2', 'exp2f', 'tanh', 'tanhf', 'atan', 'atanf'}
_LOGS = {'log', 'logf', 'log10', 'log10f', 'log2', 'log2f'}


def _unord(o, w):
    m = 1 << (w - 1)
    return o - m if o >= m else (m - 1 - o) | m


def _mono(t, w):
    """(x, f, dir, key) when t = f(x) for one symbolic x and f monotone over every non-NaN x; dir 2: even, increasing in |x|"""
    op = t.op; a = t.args
    if op in ('fmul', 'fadd') and not isT(a[1]):
        c = a[1]; v = b2f(c, w)
        if not _fin(v): return None
        if op == 'fadd': return a[0], (lambda x: cfadd(x, c, w)), 1, c
        if v == 0: return None
        return a[0], (lambda x: cfmul(x, c, w)), 1 if v > 0 else -1, c
    if op == 'fmul' and a[0] is a[1]:
        return a[0], (lambda x: cfmul(x, x, w)), 2, 0
    if op == 'fsub':
        if not isT(a[1]):
            c = a[1]
            if not _fin(b2f(c, w)): return None
            return a[0], (lambda x: cfsub(x, c, w)), 1, c
        if not isT(a[0]):
            c = a[0]
            if not _fin(b2f(c, w)): return None
            return a[1], (lambda x: cfsub(c, x, w)), -1, c
        return None
    if op == 'fdiv' and not isT(a[1]):
        c = a[1]; v = b2f(c, w)
        if not _fin(v) or v == 0: return None
        return a[0], (lambda x: cfdiv(x, c, w)), 1 if v > 0 else -1, c
    if op == 'fneg': return a[0], (lambda x: x ^ (1 << (w - 1))), -1, 0
    if op == 'uf' and len(a) == 1:
        n = t.x
        if n in _INCR: return a[0], (lambda x: libm(n, w, [x])), 1, 0
        if n in _LOGS: return a[0], (lambda x: libm(n, w, [x])), 3, 0
    return None


def _cmp_mono(op, a, b, w):
    """f(x) compared with a constant -> x compared with the threshold of f (found by bisection over all floats)"""
    left = not isT(a)           # constant on the left: c < f(x)
    c, t = (a, b) if left else (b, a)
    if isT(c): return None
    m = _mono(t, w)
    if m is None: return None
    x, f, d, k = m
    cv = b2f(c, w)
    if cv != cv: return None
    key = (t.op, t.x, k, d, isT(t.args[0]), op, left, c, w)
    r = _MONO.get(key)
    if r is None:
        # P(x): the comparison holds; monotone in the order of the floats
        if left: P = (lambda o: cv < b2f(f(_unord(o, w)), w)) if op == 'lt' else (lambda o: cv <= b2f(f(_unord(o, w)), w))
        else: P = (lambda o: b2f(f(_unord(o, w)), w) < cv) if op == 'lt' else (lambda o: b2f(f(_unord(o, w)), w) <= cv)
        inf = (0x7f800000 if w == 32 else 0x7ff0000000000000)
        lo, hi = _ord0(inf | (1 << (w - 1)), w), _ord0(inf, w)
        if d in (2, 3): lo = _ord0(0, w)
        up = left == (d in (1, 2, 3))          # P is true from some point upwards
        if up:
            if P(lo): r = ('all', 0)
            elif not P(hi): r = ('none', 0)
            else:
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if P(mid): hi = mid
                    else: lo = mid
                r = ('ge', _unord(hi, w))
        else:
            if P(hi): r = ('all', 0)
            elif not P(lo): r = ('none', 0)
            else:
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if P(mid): lo = mid
                    else: hi = mid
                r = ('le', _unord(lo, w))
        _MONO[key] = r
    kind, v = r
    if kind == 'none': return 0
    y = fabs(x, w) if d == 2 else x
    if kind == 'all': res = not_(fisnan(x, w)) if d != 3 else fle(0, x, w)
    elif kind == 'ge': res = fle(v, y, w)
    else: res = fle(y, v, w) if d != 3 else and_(fle(0, x, w), fle(x, v, w), 1)
    return res


def _ord0(b, w):
    m = 1 << (w - 1)
    return m - 1 - (b ^ m) if b & m else b + m


_DY = {}
DYAD = True


def _s32(lo, hi): return max(abs(lo), abs(hi))


def dyad(t, w):
    """(v, e, lo, hi, lin): t == v * 2^e exactly for a 32-bit signed integer term v in [lo, hi], |v| <= 2^24; or None.
    Only linear combinations, absolute values and choices of integers converted to floating point qualify.
    lin is v as (const, {id: (atom, coeff)})."""
    if w != 32: return None
    if not isT(t):
        x = b2f(t, w)
        if not _fin(x): return None
        if x == 0: return (0, 0, 0, 0, (0, {}))
        n, q = x.as_integer_ratio()
        e = -(q.bit_length() - 1)
        while e >= 0 and n % 2 == 0 and abs(n) > 1 << 24: n >>= 1; e += 1
        if abs(n) > 1 << 24 or not -40 <= e <= 40: return None
        return (n & mask(32), e, n, n, (n, {}))
    r = _DY.get(t.id, 0)
    if r != 0: return r
    r = _dyad(t, w)
    _DY[t.id] = r
    return r


def _datom(v, e, lo, hi):
    if not isT(v):
        n = sgn(v, 32)
        return (v, e, n, n, (n, {}))
    return (v, e, lo, hi, (0, {v.id: (v, 1)}))


def _dbuild(l):
    """32-bit term of a linear form"""
    if not l[1]: return l[0] & mask(32)
    r = None; neg = []
    for i in sorted(l[1]):
        t, c = l[1][i]
        if c < 0: neg.append((t, -c)); continue
        m = t if c == 1 else mul(t, c, 32)
        r = m if r is None else add(r, m, 32)
    if r is None: r = l[0] & mask(32)
    elif l[0]: r = add(r, l[0] & mask(32), 32)
    for t, c in neg:
        r = sub(r, t if c == 1 else mul(t, c, 32), 32)
    return r


def _dyad(t, w):
    op = t.op; a = t.args
    if op in ('sitofp', 'uitofp'):
        iw = t.x; u = a[0]
        lo, hi = srange(u, iw) if op == 'sitofp' else urange(u)
        if _s32(lo, hi) > 1 << 24: return None
        l = _slin(u, iw, op == 'sitofp')
        if l is not None: return (_dbuild(l), 0, lo, hi, l)
        if iw > 32: v = extract(u, 31, 0)
        elif iw < 32: v = sext(u, iw, 32) if op == 'sitofp' else zext(u, iw, 32)
        else: v = u
        return _datom(v, 0, lo, hi)
    if op == 'fmul' and not isT(a[1]):
        k = pow2exp(a[1], w)
        if k is None: return None
        x = dyad(a[0], w)
        if x is None or not -40 <= x[1] + k <= 40: return None
        return (x[0], x[1] + k, x[2], x[3], x[4])
    if op in ('fadd', 'fsub'):
        x = dyad(a[0], w)
        if x is None: return None
        y = dyad(a[1], w)
        if y is None: return None
        z = _dalign(x, y)
        if z is None: return None
        (p, l1, h1, f1), (q, l2, h2, f2), e = z
        lo, hi = (l1 + l2, h1 + h2) if op == 'fadd' else (l1 - h2, h1 - l2)
        l = lin_add(f1, f2, 1 if op == 'fadd' else -1)
        if len(l[1]) <= 12:
            ra, rb = l[0], l[0]
            for u, c in l[1].values():
                sa, sb = srange(u, 32)
                ra += sa * c if c > 0 else sb * c; rb += sb * c if c > 0 else sa * c
            lo = max(lo, ra); hi = min(hi, rb)
            if _s32(lo, hi) > 1 << 24: return None
            return (_dbuild(l), e, lo, hi, l)
        if _s32(lo, hi) > 1 << 24: return None
        return _datom(add(p, q, 32) if op == 'fadd' else sub(p, q, 32), e, lo, hi)
    if op == 'fneg':
        x = dyad(a[0], w)
        if x is None: return None
        l = lin_add((0, {}), x[4], -1)
        return (_dbuild(l), x[1], -x[3], -x[2], l)
    if op == 'fabs':
        x = dyad(a[0], w)
        if x is None: return None
        if x[2] >= 0: return x
        l = lin_add((0, {}), x[4], -1)
        n = _dbuild(l)
        if x[3] <= 0: return (n, x[1], -x[3], -x[2], l)
        return _datom(ite(slt(x[0], 0, 32), n, x[0], 32), x[1], 0, max(-x[2], x[3]))
    if op == 'fround':
        x = dyad(a[0], w)
        if x is None: return None
        v, e, lo, hi = x[:4]
        if e >= 0: return x
        if lo < 0 or e < -24 or hi > 1 << 24: return None
        k = -e
        add_ = {'floor': 0, 'trunc': 0, 'ceil': (1 << k) - 1, 'rna': 1 << (k - 1)}.get(t.x)
        if add_ is None: return None
        return _datom(lshr(add(v, add_, 32), k, 32), 0, (lo + add_) >> k, (hi + add_) >> k)
    if op == 'ite':
        x = dyad(a[1], w)
        if x is None: return None
        y = dyad(a[2], w)
        if y is None: return None
        z = _dalign(x, y)
        if z is None: return None
        (p, l1, h1, _), (q, l2, h2, _), e = z
        if _s32(min(l1, l2), max(h1, h2)) > 1 << 24: return None
        return _datom(ite(a[0], p, q, 32), e, min(l1, l2), max(h1, h2))
    return None


def _slin(u, iw, signed):
    """signed linear form of an integer term over 32-bit atoms, or None"""
    if not isT(u): return (sgn(u, iw) if signed else u, {})
    op = u.op; a = u.args
    lo, hi = srange(u, iw)
    if not signed and lo < 0: return None
    if op == 'var' and iw == 32: return (0, {u.id: (u, 1)})
    if op == 'zext' and urange(a[0])[1] < 1 << (a[0].w - 1): return _slin(a[0], a[0].w, True)
    if op == 'sext': return _slin(a[0], a[0].w, True)
    if op in ('add', 'sub'):
        p, q = srange(a[0], iw), srange(a[1], iw)
        l, h = (p[0] + q[0], p[1] + q[1]) if op == 'add' else (p[0] - q[1], p[1] - q[0])
        if l < -(1 << (iw - 1)) or h >= 1 << (iw - 1): return None
        x = _slin(a[0], iw, True)
        if x is None: return None
        y = _slin(a[1], iw, True)
        if y is None: return None
        return lin_add(x, y, 1 if op == 'add' else -1)
    return None


def _dalign(x, y):
    """both at the smaller exponent, within 32-bit signed range"""
    if not isT(x[0]) and x[0] == 0: x = (0, y[1], 0, 0, (0, {}))
    if not isT(y[0]) and y[0] == 0: y = (0, x[1], 0, 0, (0, {}))
    e = min(x[1], y[1])
    r = []
    for v, k, lo, hi, l in (x, y):
        d = k - e
        if d > 30 or _s32(lo, hi) << d > 1 << 30: return None
        if d: l = lin_add((0, {}), l, 1 << d)
        r.append((_dbuild(l) if d else v, lo << d, hi << d, l))
    return r[0], r[1], e


def _dconst(t, w):
    """the constant value of a sum whose symbolic parts cancel, or None"""
    x = dyad(t.args[0], w)
    if x is None or not x[4][1]: return None
    y = dyad(t.args[1], w)
    if y is None or not any(i in x[4][1] for i in y[4][1]): return None
    r = dyad(t, w)
    if r is None or r[4][1]: return None
    n = r[4][0]
    if n == 0:
        if t.op == 'fsub' or notnegz(t.args[0], w) or notnegz(t.args[1], w): return 0
        return None
    return f2b(float(n) * 2.0 ** r[1], w)


def _dcmp(op, a, b, w):
    """comparison of floating-point terms as one of integers, when both are exact"""
    if not DYAD or w != 32: return None
    if isT(a) and isT(b):
        x = dyad(a, w)
        if x is None: return None
        y = dyad(b, w)
        if y is None: return None
        z = _dalign(x, y)
        if z is None: return None
        p, q = z[0][0], z[1][0]
        if op == 'eq': return eq(p, q, 32)
        return slt(p, q, 32) if op == 'lt' else sle(p, q, 32)
    # against a constant: compare with the neighbouring multiple
    c, t = (a, b) if not isT(a) else (b, a)
    cx = b2f(c, w)
    if not _fin(cx): return None
    if t.op == 'fabs' and op != 'eq' and cx >= 0 and dyad(t.args[0], w) is not None:
        u = t.args[0]; n = c ^ (1 << (w - 1))
        f = flt if op == 'lt' else fle
        if t is a: return and_(f(u, c, w), f(n, u, w), 1)
        return or_(f(c, u, w), f(u, n, w), 1)
    x = dyad(t, w)
    if x is None: return None
    v, e, lo, hi = x[:4]
    k = Fraction(cx) / Fraction(2) ** e
    if op == 'eq':
        return eq(v, int(k) & mask(32), 32) if k.denominator == 1 and lo <= k <= hi else 0
    fl = k.numerator // k.denominator
    ce = -((-k.numerator) // k.denominator)
    if t is a:      # v < k  <=>  v <= ceil(k)-1 ; v <= k <=> v <= floor(k)
        m = ce - 1 if op == 'lt' else fl
        if m >= hi: return 1
        if m < lo: return 0
        return sle(v, m & mask(32), 32)
    m = fl + 1 if op == 'lt' else ce      # k < v <=> v >= floor(k)+1
    if m <= lo: return 1
    if m > hi: return 0
    return sle(m & mask(32), v, 32)


def feq(a, b, w):
    if not isT(a) and not isT(b):
        return int(b2f(a, w) == b2f(b, w))
    if a is b:
        return not_(fisnan(a, w))
    if not isT(a):
        a, b = b, a
    if isT(b) and a.id > b.id:
        a, b = b, a
    if not isT(b) and isnan(b, w):
        return 0
    if not isT(b) and a.op == 'ite' and leafconst(a, 12):
        return ite(a.args[0], feq(a.args[1], b, w), feq(a.args[2], b, w), 1)
    p, q = frange(a, w), frange(b, w)
    if p[1] < q[0] or q[1] < p[0]: return 0
    r = _dcmp('eq', a, b, w)
    if r is not None: return r
    return mk('feq', 1, (a, b), w)


def flt(a, b, w):
    if not isT(a) and not isT(b):
        return int(b2f(a, w) < b2f(b, w))
    if a is b:
        return 0
    if not isT(b):
        if isnan(b, w):
            return 0
        if a.op == 'ite' and leafconst(a, 12):
            return ite(a.args[0], flt(a.args[1], b, w), flt(a.args[2], b, w), 1)
    elif not isT(a):
        if isnan(a, w):
            return 0
        if b.op == 'ite' and leafconst(b, 12):
            return ite(b.args[0], flt(a, b.args[1], w), flt(a, b.args[2], w), 1)
    p, q = frange(a, w), frange(b, w)
    if p[0] >= q[1]: return 0
    if p[1] < q[0] and not p[2] and not q[2]: return 1
    r = _cmp_sqrt('lt', a, b, w)
    if r is not None: return r
    r = _dcmp('lt', a, b, w)
    if r is not None: return r
    r = _cmp_mono('lt', a, b, w)
    if r is not None: return r
    return mk('flt', 1, (a, b), w)


def fle(a, b, w):
    if not isT(a) and not isT(b):
        return int(b2f(a, w) <= b2f(b, w))
    if a is b:
        return not_(fisnan(a, w))
    if not isT(b):
        if isnan(b, w):
            return 0
        if a.op == 'ite' and leafconst(a, 12):
            return ite(a.args[0], fle(a.args[1], b, w), fle(a.args[2], b, w), 1)
    elif not isT(a):
        if isnan(a, w):
            return 0
        if b.op == 'ite' and leafconst(b, 12):
            return ite(b.args[0], fle(a, b.args[1], w), fle(a, b.args[2], w), 1)
    p, q = frange(a, w), frange(b, w)
    if p[0] > q[1]: return 0
    if p[1] <= q[0] and not p[2] and not q[2]: return 1
    r = _cmp_sqrt('le', a, b, w)
    if r is not None: return r
    r = _dcmp('le', a, b, w)
    if r is not None: return r
    r = _cmp_mono('le', a, b, w)
    if r is not None: return r
    return mk('fle', 1, (a, b), w)


def fmin(a, b, w):
    if not isT(a) and not isT(b):
        if isnan(a, w): return b
        if isnan(b, w): return a
        return a if b2f(a, w) < b2f(b, w) else b
    if a is b:
        return a
    p, q = frange(a, w), frange(b, w)
    if not p[2] and not q[2]:
        if p[1] < q[0] or (p[1] == q[0] != 0): return a
        if q[1] < p[0] or (q[1] == p[0] != 0): return b
    return ite(fisnan(a, w), b, ite(fisnan(b, w), a, ite(flt(a, b, w), a, b, w), w), w)


def fmax(a, b, w):
    if not isT(a) and not isT(b):
        if isnan(a, w): return b
        if isnan(b, w): return a
        return a if b2f(a, w) > b2f(b, w) else b
    if a is b:
        return a
    p, q = frange(a, w), frange(b, w)
    if not p[2] and not q[2]:
        if q[1] < p[0] or (q[1] == p[0] != 0): return a
        if p[1] < q[0] or (p[1] == q[0] != 0): return b
    return ite(fisnan(a, w), b, ite(fisnan(b, w), a, ite(flt(b, a, w), a, b, w), w), w)


def int2f(v, w):
    if abs(v) < (1 << 53):
        return f2b(float(v), w)
    return frac2b(Fraction(v), w)


def sitofp(a, iw, fw):
    if not isT(a):
        return int2f(sgn(a, iw), fw)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], sitofp(a.args[1], iw, fw), sitofp(a.args[2], iw, fw), fw)
    return mk('sitofp', fw, (a,), iw)


def uitofp(a, iw, fw):
    if not isT(a):
        return int2f(a, fw)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], uitofp(a.args[1], iw, fw), uitofp(a.args[2], iw, fw), fw)
    return mk('uitofp', fw, (a,), iw)


def fpext(a):
    if not isT(a):
        return f2b(b2f(a, 32), 64)
    return mk('fpext', 64, (a,))


def fptrunc(a):
    if not isT(a):
        return f2b(b2f(a, 64), 32)
    if a.op == 'fpext':
        return a.args[0]
    return mk('fptrunc', 32, (a,))


def _dint(a, fw, iw, signed):
    if not DYAD or iw < 32: return None
    x = dyad(a, fw)
    if x is None: return None
    v, e, lo, hi = x[:4]
    if e > 0:
        if _s32(lo, hi) << e > 1 << 30: return None
        v = shl(v, e, 32); lo <<= e; hi <<= e
    elif e < 0:
        if lo < 0: return None
        v = lshr(v, -e, 32) if -e < 32 else 0
    if lo < 0:
        if signed: return sext(v, 32, iw) if iw > 32 else v
        return ite(slt(v, 0, 32), 0, zext(v, 32, iw) if iw > 32 else v, iw)
    return zext(v, 32, iw) if iw > 32 else v


def fptosi_sat(a, fw, iw):
    if not isT(a):
        if isnan(a, fw): return 0
        x = b2f(a, fw)
        lo, hi = -(1 << (iw - 1)), (1 << (iw - 1)) - 1
        if x <= lo: return lo & mask(iw)
        if x >= hi: return hi
        return int(x) & mask(iw)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], fptosi_sat(a.args[1], fw, iw), fptosi_sat(a.args[2], fw, iw), iw)
    r = _dint(a, fw, iw, True)
    if r is not None: return r
    return mk('fptosi', iw, (a,), fw)


def fptoui_sat(a, fw, iw):
    if not isT(a):
        if isnan(a, fw): return 0
        x = b2f(a, fw)
        hi = (1 << iw) - 1
        if x <= 0: return 0
        if x >= hi: return hi
        return int(x)
    if a.op == 'ite' and leafconst(a):
        return ite(a.args[0], fptoui_sat(a.args[1], fw, iw), fptoui_sat(a.args[2], fw, iw), iw)
    r = _dint(a, fw, iw, False)
    if r is not None: return r
    return mk('fptoui', iw, (a,), fw)


def cround(a, w, mode):
    x = b2f(a, w)
    if not _fin(x) or x == 0:
        return a
    if mode == 'floor': r = math.floor(x)
    elif mode == 'ceil': r = math.ceil(x)
    elif mode == 'trunc': r = math.trunc(x)
    elif mode == 'rne': r = round(x)
    else:  # rna
        r = math.floor(Fraction(abs(x)) + Fraction(1, 2))
        r = r if x > 0 else -r
    b = int2f(int(r), w)
    if r == 0 and (a >> (w - 1)):
        b = 1 << (w - 1)
    return b


def fround(a, w, mode):
    if not isT(a):
        return cround(a, w, mode)
    if a.op == 'fround':
        return a
    if a.op in ('sitofp', 'uitofp'):
        return a
    return mk('fround', w, (a,), mode)


def cfma(a, b, c, w):
    x, y, z = b2f(a, w), b2f(b, w), b2f(c, w)
    if not (_fin(x) and _fin(y) and _fin(z)):
        return f2b(x * y + z, w)
    r = Fraction(x) * Fraction(y) + Fraction(z)
    if r == 0:
        return f2b(x * y + z, w)
    return frac2b(r, w)


def fma(a, b, c, w):
    if not isT(a) and not isT(b) and not isT(c):
        return cfma(a, b, c, w)
    return mk('fma', w, (a, b, c))


_libm = ctypes.CDLL('libm.so.6')
_lf = {}


def libm(name, w, args):
    f = _lf.get(name)
    if f is None:
        f = getattr(_libm, name)
        ct = ctypes.c_float if w == 32 else ctypes.c_double
        f.restype = ct
        f.argtypes = [ct] * len(args)
        _lf[name] = f
    return f2b(f(*[b2f(a, w) for a in args]), w)


def uf(name, w, args):
    if not any(isT(a) for a in args):
        return libm(name, w, args)
    return mk('uf', w, tuple(args), name)


# ---------------------------------------------------------------- evaluation
def c_eq(a, b): return int(a == b)


def eval_op(t, v):
    """evaluate op of t on concrete args v"""
    op = t.op
    w = t.w
    x = t.x
    if op == 'ite': return v[1] if v[0] else v[2]
    if op == 'flt': return int(b2f(v[0], x) < b2f(v[1], x))
    if op == 'fle': return int(b2f(v[0], x) <= b2f(v[1], x))
    if op == 'feq': return int(b2f(v[0], x) == b2f(v[1], x))
    if op == 'not': return v[0] ^ 1
    if op == 'fadd': return cfadd(v[0], v[1], w)
    if op == 'fmul': return cfmul(v[0], v[1], w)
    if op == 'fsub': return cfsub(v[0], v[1], w)
    if op == 'fdiv': return cfdiv(v[0], v[1], w)
    if op == 'fsqrt': return cfsqrt(v[0], w)
    if op == 'fneg': return v[0] ^ (1 << (w - 1))
    if op == 'fabs': return v[0] & mask(w - 1)
    if op == 'fisnan': return int(isnan(v[0], x))
    if op == 'and': return v[0] & v[1]
    if op == 'or': return v[0] | v[1]
    if op == 'xor': return v[0] ^ v[1]
    if op == 'add': return (v[0] + v[1]) & mask(w)
    if op == 'sub': return (v[0] - v[1]) & mask(w)
    if op == 'mul': return (v[0] * v[1]) & mask(w)
    if op == 'udiv': return udiv(v[0], v[1], w)
    if op == 'urem': return urem(v[0], v[1], w)
    if op == 'sdiv': return sdiv(v[0], v[1], w)
    if op == 'srem': return srem(v[0], v[1], w)
    if op == 'shl': return shl(v[0], v[1], w)
    if op == 'lshr': return lshr(v[0], v[1], w)
    if op == 'ashr': return ashr(v[0], v[1], w)
    if op == 'eq': return int(v[0] == v[1])
    if op == 'ult': return int(v[0] < v[1])
    if op == 'slt': return int(sgn(v[0], x) < sgn(v[1], x))
    if op == 'extract': return (v[0] >> x[1]) & mask(w)
    if op == 'concat': return (v[0] << x) | v[1]
    if op == 'zext': return v[0]
    if op == 'sext': return sgn(v[0], t.args[0].w) & mask(w)
    if op == 'sitofp': return int2f(sgn(v[0], x), w)
    if op == 'uitofp': return int2f(v[0], w)
    if op == 'fpext': return fpext(v[0])
    if op == 'fptrunc': return fptrunc(v[0])
    if op == 'fptosi': return fptosi_sat(v[0], x, w)
    if op == 'fptoui': return fptoui_sat(v[0], x, w)
    if op == 'fround': return cround(v[0], w, x)
    if op == 'fma': return cfma(v[0], v[1], v[2], w)
    if op == 'uf': return libm(x, w, v)
    raise Exception('eval ' + op)


def evaluate(t, env, cache):
    """env: var id -> int ; missing variables default to 0"""
    if not isT(t):
        return t
    r = cache.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in cache:
            stack.pop()
            continue
        if u.op == 'var':
            d = u.x[2] if len(u.x) < 5 else u.x[4]
            if d is None: d = 0
            cache[u.id] = env.get(u.id, d & mask(u.w))
            stack.pop()
            continue
        if u.op == 'ite':
            c = u.args[0]
            cv = cache.get(c.id)
            if cv is None:
                stack.append(c)
                continue
            a = u.args[1] if cv else u.args[2]
            if isT(a):
                av = cache.get(a.id)
                if av is None:
                    stack.append(a)
                    continue
            else:
                av = a
            cache[u.id] = av
            stack.pop()
            continue
        vals = []
        ok = True
        for a in u.args:
            if isT(a):
                av = cache.get(a.id)
                if av is None:
                    stack.append(a)
                    ok = False
                else:
                    vals.append(av)
            else:
                vals.append(a)
        if ok:
            cache[u.id] = eval_op(u, vals)
            stack.pop()
    return cache[t.id]
