"""Term -> SMT translation and the decision procedures used by the engine.

Deciding steps are always SMT queries.  Layers:
  * z3 on the bit-precise QF_BVFP encoding (with an exact-integer lane: FP terms
    whose value is provably an integer multiple of a power of two that fits the
    significand are encoded as bit-vector integers - no rounding can occur)
  * cvc5 / bit-blast + kissat portfolio in sub-processes for hard obligations
"""
import time, os, subprocess, tempfile, math
from fractions import Fraction
import z3
from terms import *
from terms import Term
from relax import Relax

RNE = z3.RNE(); RTZ = z3.RTZ(); RNA = z3.RNA(); RTP = z3.RTP(); RTN = z3.RTN()
S32 = z3.Float32(); S64 = z3.Float64()


def fsort(w):
    return S32 if w == 32 else S64


INEX = {'fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'uf', 'fptrunc', 'fround', 'fma'}


class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0
        self.time = 0.0; self.max_time = 0.0; self.refine = 0; self.portfolio = 0; self.cache = 0
        self.relax = 0; self.relax_unsat = 0; self.relax_sat = 0


def fneighbors(c, w):
    """pred/succ of finite float bits c as Fractions (None when infinite)"""
    x = b2f(c, w)

    def ordn(b):
        return -(b & mask(w - 1)) if b >> (w - 1) else b

    def unord(o):
        return o if o >= 0 else ((-o) | (1 << (w - 1)))
    o = ordn(c)
    inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
    lo = None if o - 1 <= -inf else Fraction(b2f(unord(o - 1), w))
    hi = None if o + 1 >= inf else Fraction(b2f(unord(o + 1), w))
    return lo, hi, o


class Tr:
    def __init__(self):
        self.bv = {}
        self.fp = {}
        self.bo = {}
        self.exc = {}
        self.use_exact = True

    def clear(self):
        self.bv.clear(); self.fp.clear(); self.bo.clear(); self.exc.clear()

    # ---- exact lane: (n, width, e, lo, hi, negzero) value = n*2^e
    def _fit(self, n, w, lo, hi):
        need = max(abs(lo), abs(hi)).bit_length() + 1
        if w == need: return n, w
        if w > need: return z3.Extract(need - 1, 0, n), need
        return z3.SignExt(need - w, n), need

    def exconst(self, c, w):
        x = b2f(c, w)
        if x != x or abs(x) == math.inf: return None
        if x == 0: return 0, 0, (c >> (w - 1)) != 0
        fr = Fraction(x)
        n, d = fr.numerator, fr.denominator
        e = -(d.bit_length() - 1)
        while n % 2 == 0:
            n //= 2; e += 1
        return n, e, False

    def ex(self, t, w):
        if not isT(t):
            r = self.exconst(t, w)
            if r is None: return None
            n, e, nz = r
            wd = abs(n).bit_length() + 1
            return (z3.BitVecVal(n, wd), wd, e, n, n, nz)
        if t.id in self.exc: return self.exc[t.id]
        r = self._ex(t, w)
        self.exc[t.id] = r
        return r

    def _align(self, a, e):
        n, w, ea, lo, hi, nz = a
        s = ea - e
        if s == 0: return n, w, lo, hi
        if s > 80: return None
        lo2, hi2 = lo << s, hi << s
        wd = max(abs(lo2), abs(hi2)).bit_length() + 1
        wd = max(wd, w)
        n = z3.SignExt(wd - w, n) if wd > w else n
        return n << s, wd, lo2, hi2

    def _pair(self, a, b):
        e = min(a[2], b[2])
        # zero constants align anywhere
        if a[3] == a[4] == 0: e = b[2]
        elif b[3] == b[4] == 0: e = a[2]
        if a[3] == a[4] == 0: a = (a[0], a[1], e, 0, 0, a[5])
        if b[3] == b[4] == 0: b = (b[0], b[1], e, 0, 0, b[5])
        x = self._align(a, e); y = self._align(b, e)
        if x is None or y is None: return None
        return e, x, y

    def _ex(self, t, w):
        op = t.op
        mant = 24 if w == 32 else 53
        lim = 1 << mant
        if op in ('sitofp', 'uitofp'):
            a = t.args[0]; iw = t.x
            lo, hi = srange(a, iw) if op == 'sitofp' else urange(a)
            if max(abs(lo), abs(hi)) > lim: return None
            n = self.tbv(a)
            wd = a.w
            if op == 'uitofp':
                n = z3.ZeroExt(1, n); wd += 1
            n, wd = self._fit(n, wd, lo, hi)
            return (n, wd, 0, lo, hi, False)
        if op in ('fadd', 'fsub'):
            a = self.ex(t.args[0], w)
            if a is None: return None
            b = self.ex(t.args[1], w)
            if b is None: return None
            pr = self._pair(a, b)
            if pr is None: return None
            e, (x, wx, lx, hx), (y, wy, ly, hy) = pr
            if op == 'fadd': lo, hi = lx + ly, hx + hy
            else: lo, hi = lx - hy, hx - ly
            if max(abs(lo), abs(hi)) > lim or e > 100 or e < (-149 if w == 32 else -1074): return None
            wd = max(wx, wy) + 1
            X = z3.SignExt(wd - wx, x); Y = z3.SignExt(wd - wy, y)
            n = X + Y if op == 'fadd' else X - Y
            n, wd = self._fit(n, wd, lo, hi)
            nz = (a[5] and b[5]) if op == 'fadd' else a[5]
            return (n, wd, e, lo, hi, nz)
        if op == 'fmul':
            a = self.ex(t.args[0], w)
            if a is None: return None
            b = self.ex(t.args[1], w)
            if b is None: return None
            ps = [a[3] * b[3], a[3] * b[4], a[4] * b[3], a[4] * b[4]]
            lo, hi = min(ps), max(ps)
            e = a[2] + b[2]
            if max(abs(lo), abs(hi)) > lim or e > 100 or e < (-149 if w == 32 else -1074): return None
            wd = a[1] + b[1]
            n = z3.SignExt(b[1], a[0]) * z3.SignExt(a[1], b[0])
            n, wd = self._fit(n, wd, lo, hi)
            az = a[3] <= 0 <= a[4]; bz = b[3] <= 0 <= b[4]
            nz = a[5] or b[5] or (az and b[3] < 0) or (bz and a[3] < 0)
            return (n, wd, e, lo, hi, nz)
        if op == 'fdiv':
            b = t.args[1]
            if not isT(b):
                r = self.exconst(b, w)
                if r and abs(r[0]) == 1:
                    a = self.ex(t.args[0], w)
                    if a is None: return None
                    if a[2] - r[1] < (-149 if w == 32 else -1074): return None
                    if r[0] == 1:
                        return (a[0], a[1], a[2] - r[1], a[3], a[4], a[5])
            return None
        if op == 'fneg':
            a = self.ex(t.args[0], w)
            if a is None: return None
            n = -z3.SignExt(1, a[0])
            return (n, a[1] + 1, a[2], -a[4], -a[3], a[3] <= 0 <= a[4])
        if op == 'fabs':
            a = self.ex(t.args[0], w)
            if a is None: return None
            if a[3] >= 0: return a[:5] + (False,)
            n = z3.SignExt(1, a[0])
            n = z3.If(n < 0, -n, n)
            hi = max(abs(a[3]), abs(a[4]))
            return (n, a[1] + 1, a[2], 0, hi, False)
        if op == 'ite':
            a = self.ex(t.args[1], w)
            if a is None: return None
            b = self.ex(t.args[2], w)
            if b is None: return None
            pr = self._pair(a, b)
            if pr is None: return None
            e, (x, wx, lx, hx), (y, wy, ly, hy) = pr
            lo, hi = min(lx, ly), max(hx, hy)
            if max(abs(lo), abs(hi)).bit_length() > 60: return None
            wd = max(wx, wy)
            n = z3.If(self.tb(t.args[0]), z3.SignExt(wd - wx, x) if wd > wx else x, z3.SignExt(wd - wy, y) if wd > wy else y)
            return (n, wd, e, lo, hi, a[5] or b[5])
        if op == 'fpext':
            return self.ex(t.args[0], 32)
        if op == 'fptrunc':
            a = self.ex(t.args[0], 64)
            if a is None or max(abs(a[3]), abs(a[4])) > (1 << 24) or a[2] < -149 or a[2] > 100: return None
            return a
        if op == 'fround' and t.x in ('trunc', 'floor', 'ceil', 'rne', 'rna'):
            a = self.ex(t.args[0], w)
            if a is None: return None
            if a[2] >= 0: return a
            return None
        return None

    def _cmp(self, a, b, w, op):
        """exact compare; returns z3 Bool or None"""
        if not self.use_exact: return None
        # quotient against constant
        for sw in (False, True):
            x, y = (b, a) if sw else (a, b)
            if isT(x) and x.op == 'fdiv' and not isT(y) and not isnan(y, w):
                r = self._divcmp(x, y, w, op, sw)
                if r is not None: return r
        x = self.ex(a, w)
        if x is None: return None
        y = self.ex(b, w)
        if y is None: return None
        pr = self._pair(x, y)
        if pr is None: return None
        e, (p, wp, _, _), (q, wq, _, _) = pr
        wd = max(wp, wq)
        p = z3.SignExt(wd - wp, p) if wd > wp else p
        q = z3.SignExt(wd - wq, q) if wd > wq else q
        if op == 'lt': return p < q
        if op == 'le': return p <= q
        return p == q

    def _qlt(self, A, B, w, c):
        """z3 Bool: fl(A/B) < c   (A,B exact, B>0, c finite float bits)"""
        lo, hi, o = fneighbors(c, w)
        if lo is None: return None
        cx = Fraction(b2f(c, w))
        mid = (lo + cx) / 2
        # tie goes to the even neighbour; pred is even iff its ordinal is even
        tie_pred = ((o - 1) % 2 == 0)
        # A.n*2^A.e < mid * B.n*2^B.e  <=> A.n * 2^k * den < num * B.n
        num, den = mid.numerator, mid.denominator
        k = A[2] - B[2]
        if k >= 0: den <<= k
        else: num <<= -k
        g = math.gcd(abs(num), den)
        if g > 1: num //= g; den //= g
        wl = A[1] + den.bit_length() + 1
        wr = B[1] + abs(num).bit_length() + 1
        wd = max(wl, wr)
        if wd > 200: return None
        L = z3.SignExt(wd - A[1], A[0]) * z3.BitVecVal(den, wd)
        R = z3.SignExt(wd - B[1], B[0]) * z3.BitVecVal(num, wd)
        return (L <= R) if tie_pred else (L < R)

    def _divcmp(self, x, c, w, op, sw):
        A = self.ex(x.args[0], w)
        if A is None: return None
        B = self.ex(x.args[1], w)
        if B is None or B[3] <= 0: return None
        if abs(b2f(c, w)) == math.inf: return None
        if b2f(c, w) == 0:
            # sign of quotient = sign of A (no underflow: |A/B| >= 2^-40 unless 0)
            if A[2] - B[2] < -60: return None
            n = A[0]
            z = z3.BitVecVal(0, A[1])
            if op == 'eq': return n == z
            if op == 'lt': return (z < n) if sw else (n < z)
            return (z <= n) if sw else (n <= z)
        nxt = lambda c, d: self._ordstep(c, d, w)
        if op == 'lt':
            if not sw: return self._qlt(A, B, w, c)
            r = self._qlt(A, B, w, nxt(c, 1))       # c < q  <=> !(q <= c) <=> !(q < succ c)
            return None if r is None else z3.Not(r)
        if op == 'le':
            if not sw: return self._qlt(A, B, w, nxt(c, 1))
            r = self._qlt(A, B, w, c)
            return None if r is None else z3.Not(r)
        r1 = self._qlt(A, B, w, c); r2 = self._qlt(A, B, w, nxt(c, 1))
        if r1 is None or r2 is None: return None
        return z3.And(z3.Not(r1), r2)

    @staticmethod
    def _ordstep(c, d, w):
        o = -(c & mask(w - 1)) if c >> (w - 1) else c
        o += d
        return o if o >= 0 else ((-o) | (1 << (w - 1)))

    # ---- booleans (width-1 terms)
    def tb(self, t):
        if not isT(t):
            return z3.BoolVal(bool(t))
        r = self.bo.get(t.id)
        if r is not None: return r
        op = t.op
        a = t.args
        if op == 'not': r = z3.Not(self.tb(a[0]))
        elif op == 'and': r = z3.And(self.tb(a[0]), self.tb(a[1]))
        elif op == 'or': r = z3.Or(self.tb(a[0]), self.tb(a[1]))
        elif op == 'xor': r = z3.Xor(self.tb(a[0]), self.tb(a[1]))
        elif op == 'eq':
            w = a[0].w if isT(a[0]) else a[1].w
            if w == 1: r = self.tb(a[0]) == self.tb(a[1])
            else: r = self.tbv(a[0], w) == self.tbv(a[1], w)
        elif op == 'ult': r = z3.ULT(self.tbv(a[0], t.x), self.tbv(a[1], t.x))
        elif op == 'slt': r = self.tbv(a[0], t.x) < self.tbv(a[1], t.x)
        elif op in ('flt', 'fle', 'feq'):
            w = t.x
            r = self._cmp(a[0], a[1], w, op[1:])
            if r is None:
                x, y = self.tfp(a[0], w), self.tfp(a[1], w)
                r = z3.fpLT(x, y) if op == 'flt' else z3.fpLEQ(x, y) if op == 'fle' else z3.fpEQ(x, y)
        elif op == 'fisnan':
            w = t.x
            if self.use_exact and self.ex(a[0], w) is not None: r = z3.BoolVal(False)
            else: r = z3.fpIsNaN(self.tfp(a[0], w))
        elif op == 'ite': r = z3.If(self.tb(a[0]), self.tb(a[1]), self.tb(a[2]))
        elif op == 'var':
            r = self.tbv(t) == z3.BitVecVal(1, 1)
        else:
            r = self.tbv(t) == z3.BitVecVal(1, 1)
        self.bo[t.id] = r
        return r

    # ---- bit-vectors
    def tbv(self, t, w=None):
        if not isT(t):
            return z3.BitVecVal(t, w)
        r = self.bv.get(t.id)
        if r is not None: return r
        op = t.op; a = t.args; w = t.w
        if op == 'var':
            if t.x[1] == 'f': r = z3.fpToIEEEBV(self.tfp(t, w))
            else: r = z3.BitVec(t.x[0], w)
        elif op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if w == 1 and op in ('and', 'or', 'xor'):
                r = z3.If(self.tb(t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            else:
                x, y = self.tbv(a[0], w), self.tbv(a[1], w)
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y),
                     'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y), 'and': lambda: x & y,
                     'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        elif op == 'ite': r = z3.If(self.tb(a[0]), self.tbv(a[1], w), self.tbv(a[2], w))
        elif op == 'extract': r = z3.Extract(t.x[0], t.x[1], self.tbv(a[0]))
        elif op == 'concat': r = z3.Concat(self.tbv(a[0], w - t.x), self.tbv(a[1], t.x))
        elif op == 'zext': r = z3.ZeroExt(w - a[0].w, self.tbv(a[0]))
        elif op == 'sext': r = z3.SignExt(w - a[0].w, self.tbv(a[0]))
        elif op == 'fptosi':
            r = self._fptoint(t, True)
        elif op == 'fptoui':
            r = self._fptoint(t, False)
        elif w == 1:
            r = z3.If(self.tb(t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            r = z3.fpToIEEEBV(self.tfp(t, w))
        self.bv[t.id] = r
        return r

    def _fptoint(self, t, signed):
        fw = t.x; iw = t.w; a = t.args[0]
        e = self.ex(a, fw) if self.use_exact else None
        if e is not None and e[2] <= 0 and -e[2] <= 60:
            n, wd, ee, lo, hi, _ = e
            k = -ee
            # truncation toward zero
            l2 = -((-lo) >> k) if lo < 0 else lo >> k
            h2 = -((-hi) >> k) if hi < 0 else hi >> k
            if signed and l2 >= -(1 << (iw - 1)) and h2 < (1 << (iw - 1)) or (not signed and h2 < (1 << iw)):
                W = max(wd, iw) + 1
                N = z3.SignExt(W - wd, n)
                if k:
                    neg = N < 0
                    N = z3.If(neg, -((-N) >> k), N >> k)
                if not signed:
                    N = z3.If(N < 0, z3.BitVecVal(0, W), N)
                return z3.Extract(iw - 1, 0, N)
        x = self.tfp(a, fw)
        S = fsort(fw)
        if signed:
            lo, hi = -(1 << (iw - 1)), (1 << (iw - 1)) - 1
        else:
            lo, hi = 0, (1 << iw) - 1
        # exact float bounds: x >= 2^k  => hi
        top = z3.FPVal(float(hi + 1), S)
        bot = z3.FPVal(float(lo), S)
        conv = z3.fpToSBV(RTZ, x, z3.BitVecSort(iw)) if signed else z3.fpToUBV(RTZ, x, z3.BitVecSort(iw))
        return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, iw),
                     z3.If(z3.fpGEQ(x, top), z3.BitVecVal(hi, iw),
                           z3.If(z3.fpLEQ(x, bot), z3.BitVecVal(lo, iw), conv)))

    # ---- floats
    def tfp(self, t, w):
        if not isT(t):
            return z3.fpBVToFP(z3.BitVecVal(t, w), fsort(w)) if not isnan(t, w) else z3.fpNaN(fsort(w))
        r = self.fp.get(t.id)
        if r is not None: return r
        op = t.op; a = t.args
        S = fsort(w)
        if op == 'var':
            if t.x[1] == 'f': r = z3.FP(t.x[0], S)
            else: r = z3.fpBVToFP(self.tbv(t), S)
        elif self.use_exact and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fabs', 'fneg') and (lambda q: q is not None and not q[5])(self.ex(t, w)):
            n, wd, e, lo, hi, _ = self.ex(t, w)
            mant = 24 if w == 32 else 53
            r = z3.fpSignedToFP(RNE, n, S)
            if e != 0:
                r = z3.fpMul(RNE, r, z3.FPVal(math.ldexp(1.0, e), S))
        elif op == 'fadd': r = z3.fpAdd(RNE, self.tfp(a[0], w), self.tfp(a[1], w))
        elif op == 'fsub': r = z3.fpSub(RNE, self.tfp(a[0], w), self.tfp(a[1], w))
        elif op == 'fmul': r = z3.fpMul(RNE, self.tfp(a[0], w), self.tfp(a[1], w))
        elif op == 'fdiv': r = z3.fpDiv(RNE, self.tfp(a[0], w), self.tfp(a[1], w))
        elif op == 'fsqrt': r = z3.fpSqrt(RNE, self.tfp(a[0], w))
        elif op == 'fneg': r = z3.fpNeg(self.tfp(a[0], w))
        elif op == 'fabs': r = z3.fpAbs(self.tfp(a[0], w))
        elif op == 'ite': r = z3.If(self.tb(a[0]), self.tfp(a[1], w), self.tfp(a[2], w))
        elif op == 'sitofp':
            n = self.tbv(a[0]); lo, hi = srange(a[0], t.x)
            n, _ = self._fit(n, a[0].w, lo, hi) if max(abs(lo), abs(hi)).bit_length() + 1 < a[0].w else (n, 0)
            r = z3.fpSignedToFP(RNE, n, S)
        elif op == 'uitofp':
            n = self.tbv(a[0]); lo, hi = urange(a[0])
            k = max(hi.bit_length(), 2)
            if k < a[0].w: n = z3.Extract(k - 1, 0, n)
            r = z3.fpUnsignedToFP(RNE, n, S)
        elif op == 'fpext': r = z3.fpFPToFP(RNE, self.tfp(a[0], 32), S64)
        elif op == 'fptrunc': r = z3.fpFPToFP(RNE, self.tfp(a[0], 64), S32)
        elif op == 'fround':
            m = {'floor': RTN, 'ceil': RTP, 'trunc': RTZ, 'rne': RNE, 'rna': RNA}[t.x]
            r = z3.fpRoundToIntegral(m, self.tfp(a[0], w))
        elif op == 'fma': r = z3.fpFMA(RNE, self.tfp(a[0], w), self.tfp(a[1], w), self.tfp(a[2], w))
        elif op == 'uf':
            r = z3.FP('uf!%d' % t.id, S)
        else:
            r = z3.fpBVToFP(self.tbv(t), S)
        self.fp[t.id] = r
        return r


def subterms(ts):
    seen = {}
    st = [t for t in ts if isT(t)]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        for a in t.args:
            if isT(a) and a.id not in seen: st.append(a)
    return seen


# contract axioms for libm functions (monotone on their domain, range, anchors)
MONO = {'expf': 1, 'exp': 1, 'logf': 1, 'log': 1, 'log10f': 1, 'log10': 1, 'log2f': 1, 'log2': 1, 'exp2f': 1, 'exp2': 1, 'sqrtf': 1, 'tanhf': 1, 'tanh': 1, 'atanf': 1}


class Solver:
    def __init__(self, quick_ms=4000):
        self.tr = Tr()
        self.st = Stats()
        self.quick_ms = quick_ms
        self.cache = {}
        self.lemmas = []      # concrete-point lemmas for UFs (terms)
        self.lemset = set()

    # -- variable range constraints
    def varcons(self, subs):
        out = []
        for t in subs.values():
            if t.op == 'var' and len(t.x) > 4:
                n = self.tr.tfp(t, t.w)
                out.append(z3.fpGEQ(n, self.tr.tfp(t.x[4], t.w))); out.append(z3.fpLEQ(n, self.tr.tfp(t.x[5], t.w)))
            elif t.op == 'var' and t.x[2] is not None:
                n = self.tr.tbv(t)
                lo, hi = t.x[2], t.x[3]
                if lo < 0:
                    out.append(n >= z3.BitVecVal(lo, t.w)); out.append(n <= z3.BitVecVal(hi, t.w))
                else:
                    if lo > 0: out.append(z3.UGE(n, z3.BitVecVal(lo, t.w)))
                    out.append(z3.ULE(n, z3.BitVecVal(hi, t.w)))
        return out

    def ufcons(self, subs):
        out = []
        apps = {}
        for t in subs.values():
            if t.op == 'uf': apps.setdefault(t.x, []).append(t)
        tr = self.tr
        for name, ts in apps.items():
            for t in ts:
                w = t.w; S = fsort(w)
                r = tr.tfp(t, w)
                x = tr.tfp(t.args[0], w)
                z = z3.FPVal(0.0, S); one = z3.FPVal(1.0, S)
                nanx = z3.fpIsNaN(x)
                base = name.rstrip('f') if name.endswith('f') and name != 'f' else name
                if base in ('exp', 'exp2'):
                    out += [z3.fpIsNaN(r) == nanx, z3.Or(nanx, z3.fpGEQ(r, z)),
                            z3.Implies(z3.fpLEQ(x, z), z3.fpLEQ(r, one)), z3.Implies(z3.fpGEQ(x, z), z3.fpGEQ(r, one)),
                            z3.Implies(z3.fpEQ(x, z), z3.fpEQ(r, one)),
                            z3.Implies(z3.fpGEQ(x, z3.FPVal(-80.0, S)), z3.fpGT(r, z))]
                elif base in ('log', 'log10', 'log2'):
                    out += [z3.fpIsNaN(r) == z3.Or(nanx, z3.fpLT(x, z)),
                            z3.Implies(z3.fpEQ(x, z), z3.And(z3.fpIsInf(r), z3.fpIsNegative(r))),
                            z3.Implies(z3.fpEQ(x, one), z3.fpEQ(r, z)),
                            z3.Implies(z3.fpGT(x, one), z3.fpGEQ(r, z)), z3.Implies(z3.And(z3.fpLT(x, one), z3.fpGEQ(x, z)), z3.fpLEQ(r, z)),
                            z3.Implies(z3.And(z3.fpGT(x, z), z3.Not(z3.fpIsInf(x))), z3.Not(z3.fpIsInf(r)))]
                elif base in ('sin', 'cos'):
                    out += [z3.Or(nanx, z3.fpIsInf(x), z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one))))]
                elif base == 'tanh':
                    out += [z3.Or(nanx, z3.And(z3.fpLEQ(r, one), z3.fpGEQ(r, z3.fpNeg(one))))]
                elif base == 'pow':
                    y = tr.tfp(t.args[1], w)
                    out += [z3.Implies(z3.And(z3.fpGEQ(x, z), z3.Not(z3.fpIsNaN(y))), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpGEQ(r, z))),
                            z3.Implies(z3.And(z3.fpGEQ(x, z), z3.fpLEQ(x, one), z3.fpGEQ(y, z)), z3.fpLEQ(r, one)),
                            z3.Implies(z3.And(z3.fpGEQ(x, one), z3.fpGEQ(y, z)), z3.fpGEQ(r, one)),
                            z3.Implies(z3.fpEQ(y, z), z3.fpEQ(r, one)), z3.Implies(z3.fpEQ(x, one), z3.fpEQ(r, one))]
                elif base == 'hypot':
                    y = tr.tfp(t.args[1], w)
                    out += [z3.Implies(z3.Not(z3.Or(nanx, z3.fpIsNaN(y))), z3.And(z3.fpGEQ(r, z3.fpAbs(x)), z3.fpGEQ(r, z3.fpAbs(y))))]
                elif base == 'fmod':
                    y = tr.tfp(t.args[1], w)
                    ok = z3.And(z3.Not(nanx), z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsZero(y)))
                    out += [z3.Implies(ok, z3.And(z3.Not(z3.fpIsNaN(r)), z3.Or(z3.fpIsInf(y), z3.fpLT(z3.fpAbs(r), z3.fpAbs(y))), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)),
                            z3.Or(z3.fpIsZero(r), z3.fpIsNegative(r) == z3.fpIsNegative(x))))]
            for i in range(len(ts)):
                for j in range(i):
                    a, b = ts[i], ts[j]
                    w = a.w
                    same = z3.And(*[z3.fpEQ(tr.tfp(p, w), tr.tfp(q, w)) for p, q in zip(a.args, b.args)])
                    out.append(z3.Implies(same, z3.Or(z3.fpEQ(tr.tfp(a, w), tr.tfp(b, w)), z3.And(z3.fpIsNaN(tr.tfp(a, w)), z3.fpIsNaN(tr.tfp(b, w))))))
                    if name in MONO:
                        xa, xb = tr.tfp(a.args[0], w), tr.tfp(b.args[0], w)
                        ra, rb = tr.tfp(a, w), tr.tfp(b, w)
                        ok = z3.And(z3.Not(z3.fpIsNaN(ra)), z3.Not(z3.fpIsNaN(rb)))
                        out.append(z3.Implies(z3.And(ok, z3.fpLEQ(xa, xb)), z3.fpLEQ(ra, rb)))
                        out.append(z3.Implies(z3.And(ok, z3.fpLEQ(xb, xa)), z3.fpLEQ(rb, ra)))
        return out

    def slice(self, pc, goal):
        """conjuncts of pc sharing variables (transitively) with goal"""
        vs = set()
        for g in goal:
            if isT(g): vs |= g.vars
        rest = [c for c in pc if isT(c)]
        out = []
        while True:
            nxt = []
            grew = False
            for c in rest:
                if not vs.isdisjoint(c.vars):
                    out.append(c)
                    if not c.vars <= vs:
                        vs |= c.vars; grew = True
                else:
                    nxt.append(c)
            rest = nxt
            if not grew: break
        return out, vs

    def check(self, pc, goal, base_env, timeout_ms=None, hard=False):
        """Is pc /\\ goal satisfiable?  pc assumed satisfiable by base_env (maybe None).
        -> ('sat', env) | ('unsat', None) | ('unknown', None); env validated by evaluation."""
        for g in goal:
            if not isT(g) and not g: return 'unsat', None
        goal = [g for g in goal if isT(g)]
        if not goal: return 'sat', base_env
        sl, vs = self.slice(pc, goal)
        conds = goal + sl
        key = frozenset(c.id for c in conds)
        if key in self.cache:
            self.st.cache += 1
            r, e = self.cache[key]
            if r == 'sat':
                env = dict(base_env or {}); env.update(e); return 'sat', env
            if r == 'unsat' or not hard: return r, None
        r, e = self._solve(conds, vs, timeout_ms or self.quick_ms, hard, base_env)
        self.cache[key] = (r, e)
        if r == 'sat':
            env = dict(base_env or {})
            env.update(e)
            return 'sat', env
        return r, None

    def _relax(self, conds, vs, base_env, tmo):
        subs = subterms(conds)
        n = 0
        for t in subs.values():
            if t.op in INEX and self.tr.ex(t, t.w) is None:
                n += 1
                break
        if not n: return None
        self.st.relax += 1
        def accept(env):
            cache = {}
            try:
                return all(evaluate(c, env, cache) for c in conds)
            except KeyError:
                return False
        try:
            k, env = Relax(self).check(conds, vs, base_env, tmo, accept)
        except z3.Z3Exception:
            return None
        if k == 'unsat':
            self.st.relax_unsat += 1
            return ('unsat', None)
        if k == 'sat':
            self.st.relax_sat += 1
            return ('sat', env)
        return None

    def _solve(self, conds, vs, tmo, hard, base_env=None):
        t0 = time.time()
        self.st.queries += 1
        res = ('unknown', None)
        rr = self._relax(conds, vs, base_env, 2000 if not hard else 8000)
        if rr is not None:
            dt = time.time() - t0
            self.st.time += dt
            self.st.max_time = max(self.st.max_time, dt)
            setattr(self.st, rr[0], getattr(self.st, rr[0]) + 1)
            return rr
        try:
            for attempt in range(25):
                subs = subterms(conds)
                s = self.build(conds, subs)
                s.set('timeout', int(tmo))
                r = s.check()
                if r == z3.unsat:
                    res = ('unsat', None); break
                if r == z3.unknown:
                    if hard:
                        from portfolio import run_portfolio
                        self.st.portfolio += 1
                        rr, env = run_portfolio(s, self, vs, hard)
                        if rr == 'unsat': res = ('unsat', None); break
                        if rr != 'sat': break
                    else:
                        break
                else:
                    env = self.model_env(s.model(), vs)
                cache = {}
                if all(evaluate(c, env, cache) for c in conds):
                    res = ('sat', env); break
                # spurious because of UF abstraction: add concrete point lemmas
                new = False
                for t in subs.values():
                    if t.op == 'uf':
                        vals = [evaluate(a, env, cache) for a in t.args]
                        k = (t.id, tuple(vals))
                        if k not in self.lemset:
                            self.lemset.add(k); new = True
                            self.lemmas.append((t, vals, libm(t.x, t.w, vals)))
                self.st.refine += 1
                if not new: break
        except z3.Z3Exception as ex:
            res = ('unknown', None)
        dt = time.time() - t0
        self.st.time += dt
        self.st.max_time = max(self.st.max_time, dt)
        setattr(self.st, res[0], getattr(self.st, res[0]) + 1)
        return res

    def build(self, conds, subs):
        tr = self.tr
        s = z3.SolverFor('QF_BVFP')
        for c in conds: s.add(tr.tb(c))
        for c in self.varcons(subs): s.add(c)
        if any(t.op == 'uf' for t in subs.values()):
            for c in self.ufcons(subs): s.add(c)
            for t, vals, r in self.lemmas:
                if t.id in subs:
                    pre = z3.And(*[self.same(a, v, t.w) for a, v in zip(t.args, vals)])
                    s.add(z3.Implies(pre, self.same(t, r, t.w)))
        return s

    def same(self, a, v, w):
        if not isT(a): return z3.BoolVal(True)
        x = self.tr.tfp(a, w)
        if isnan(v, w): return z3.fpIsNaN(x)
        return x == self.tr.tfp(v, w)      # structural equality (distinguishes +-0)

    def model_env(self, m, vs):
        env = {}
        for vid in vs:
            t = VARS[vid]
            if t.x[1] == 'f':
                e = m.eval(z3.fpToIEEEBV(self.tr.tfp(t, t.w)), model_completion=True)
                fv = m.eval(self.tr.tfp(t, t.w), model_completion=True)
                try:
                    if z3.is_fp(fv) and fv.isNaN(): env[vid] = NAN32 if t.w == 32 else NAN64
                    else: env[vid] = z3.simplify(e).as_long()
                except Exception:
                    env[vid] = z3.simplify(z3.fpToIEEEBV(fv)).as_long()
            else:
                env[vid] = m.eval(self.tr.tbv(t), model_completion=True).as_long()
        return env
