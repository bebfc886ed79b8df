"""Linear-real relaxation of floating-point queries.

Every FP operation is replaced by its exact real result plus a rounding error bounded by IEEE-754 (relative
half-ulp, absolute half-minimum-subnormal), rounding monotonicity and, for products/quotients of two symbolic
operands, the McCormick envelope.  The relaxation only adds behaviours, so `unsat` transfers to the bit-precise query;
`sat` only proposes a candidate assignment which the caller re-evaluates bit-precisely.
"""
from fractions import Fraction as Fr
import math, time
import z3
import terms as T
from terms import isT, b2f, f2b, mask, srange, urange

INF = float('inf')
U = {32: Fr(1, 1 << 24), 64: Fr(1, 1 << 53)}
ETA = {32: Fr(1, 1 << 150), 64: Fr(1, 1 << 1075)}
MAXF = {32: Fr(b2f(0x7f7fffff, 32)), 64: Fr(b2f(0x7fefffffffffffff, 64))}


def rnd(fr, w, up):
    """a float-representable outward bound of fl(fr) as Fraction (monotone rounding: fl(fr) itself)"""
    b = T.frac2b(fr, w)
    x = b2f(b, w)
    if abs(x) == INF: return None
    return Fr(x)


def rv(fr):
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Relax:
    def __init__(self, solver):
        self.tr = solver.tr
        self.n = 0

    def fresh(self, k='Real'):
        self.n += 1
        return z3.Real('x!%d' % self.n) if k == 'Real' else z3.Int('i!%d' % self.n) if k == 'Int' else z3.Bool('b!%d' % self.n)

    # ---- bounds from conjuncts
    def collect(self, conds):
        self.lo = {}; self.hi = {}; self.nn = set()
        todo = []
        def flat(c):
            if not isT(c): return
            if c.op == 'and': flat(c.args[0]); flat(c.args[1])
            elif c.op == 'not' and c.args[0].op == 'or': flat(T.not_(c.args[0].args[0])); flat(T.not_(c.args[0].args[1]))
            else: todo.append(c)
        for c in conds: flat(c)
        def nonnan(t):
            if isT(t):
                self.nn.add(t.id)
                if t.op in ('fabs', 'fneg'): nonnan(t.args[0])
        for c in todo:
            if c.op in ('flt', 'fle', 'feq'):
                for a in c.args: nonnan(a)
            elif c.op == 'not' and c.args[0].op == 'fisnan': nonnan(c.args[0].args[0])
        def up(t, v):
            if isT(t):
                if t.id not in self.hi or v < self.hi[t.id]: self.hi[t.id] = v
                if t.op == 'fabs':
                    up(t.args[0], v); dn(t.args[0], -v)
                if t.op == 'fneg': dn(t.args[0], -v)
        def dn(t, v):
            if isT(t):
                if t.id not in self.lo or v > self.lo[t.id]: self.lo[t.id] = v
                if t.op == 'fneg': up(t.args[0], -v)
        for c in todo:
            neg = c.op == 'not'
            k = c.args[0] if neg else c
            if k.op not in ('flt', 'fle', 'feq'): continue
            a, b = k.args; w = k.x
            if neg:
                if k.op == 'feq': continue
                # not(a<b): b<=a provided neither is NaN
                if any(isT(x) and x.id not in self.nn for x in (a, b)): continue
                a, b = b, a
            va = None if isT(a) else b2f(a, w); vb = None if isT(b) else b2f(b, w)
            if va is not None and va == va:
                dn(b, va)
                if k.op == 'feq': up(b, va)
            if vb is not None and vb == vb:
                up(a, vb)
                if k.op == 'feq': dn(a, vb)

    # ---- floats: -> (expr, lo, hi) Fractions, or None
    def f(self, t, w):
        if not isT(t):
            x = b2f(t, w)
            if x != x or abs(x) == INF: return None
            q = Fr(x)
            return (rv(q), q, q)
        if t.id in self.fc: return self.fc[t.id]
        r = self._f(t, w)
        if r is not None:
            e, lo, hi = r
            l2 = self.lo.get(t.id); h2 = self.hi.get(t.id)
            if l2 is not None and l2 > -INF and Fr(l2) > lo: lo = Fr(l2)
            if h2 is not None and h2 < INF and Fr(h2) < hi: hi = Fr(h2)
            if lo > hi: hi = lo      # infeasible anyway
            r = (e, lo, hi)
        self.fc[t.id] = r
        return r

    def rounded(self, t, E, lo, hi, w, addlike=False):
        """result of rounding exact real E in [lo,hi]"""
        L = rnd(lo, w, False); H = rnd(hi, w, True)
        if L is None or H is None: return None
        v = self.fresh()
        u = U[w]; eta = Fr(0) if addlike else ETA[w]
        c = self.cons
        if lo >= 0:
            c.append(v <= E * rv(1 + u) + rv(eta)); c.append(v >= E * rv(1 - u) - rv(eta))
        elif hi <= 0:
            c.append(v >= E * rv(1 + u) - rv(eta)); c.append(v <= E * rv(1 - u) + rv(eta))
        else:
            m = max(abs(lo), abs(hi)) * u + eta
            c.append(v <= E + rv(m)); c.append(v >= E - rv(m))
            # sign is preserved
            c.append(z3.Implies(E >= 0, v >= 0)); c.append(z3.Implies(E <= 0, v <= 0))
        c.append(v >= rv(L)); c.append(v <= rv(H))
        self.inexact.setdefault(t.op, []).append((t, v))
        return (v, L, H)

    def prod(self, a, b):
        """exact product (real) -> (expr, lo, hi); linear or McCormick"""
        (x, xl, xh), (y, yl, yh) = a, b
        ps = [xl * yl, xl * yh, xh * yl, xh * yh]
        lo, hi = min(ps), max(ps)
        if xl == xh: return (rv(xl) * y, lo, hi)
        if yl == yh: return (rv(yl) * x, lo, hi)
        p = self.fresh()
        c = self.cons
        if x is y or x.eq(y):
            lo = Fr(0) if xl <= 0 <= xh else min(xl * xl, xh * xh)
            c.append(p >= rv(lo))
            m = (xl + xh) / 2
            c.append(p >= rv(2 * m) * x - rv(m * m))
        c += self.env4(p, x, xl, xh, y, yl, yh)
        self.prods.append((p, x, xl, xh, y, yl, yh))
        return (p, lo, hi)

    @staticmethod
    def env4(p, x, xl, xh, y, yl, yh):
        return [p >= rv(xl) * y + rv(yl) * x - rv(xl * yl), p >= rv(xh) * y + rv(yh) * x - rv(xh * yh),
                p <= rv(xh) * y + rv(yl) * x - rv(xh * yl), p <= rv(xl) * y + rv(yh) * x - rv(xl * yh)]

    def refine(self, s, m):
        """sharpen monotone-function anchors and product envelopes at the candidate point; -> number of cuts"""
        n = 0
        def val(e):
            v = m.eval(e, model_completion=True)
            try:
                return Fr(v.numerator_as_long(), v.denominator_as_long())
            except Exception:
                return None
        for t, v, y, ev, slack in self.ufs:
            q = val(y[0])
            vv = val(v)
            if q is None or vv is None: continue
            f0 = ev(T.frac2b(q, t.w))
            if f0 != f0 or abs(f0) == INF: continue
            if abs(Fr(f0) - vv) <= abs(vv) * slack * 2 + ETA[t.w]: continue
            pts = [q]
            # the argument at which the function takes the candidate's value: separates threshold comparisons
            l, h = y[1], y[2]
            for _ in range(60):
                mid = (l + h) / 2
                mb = T.frac2b(mid, t.w)
                fm = ev(mb)
                if fm != fm: break
                if Fr(fm) < vv if abs(fm) != INF else fm < 0: l = mid
                else: h = mid
                if T.frac2b(l, t.w) == T.frac2b(h, t.w): break
            pts += [l, h, (q + l) / 2]
            for q in pts:
                b = T.frac2b(q, t.w)
                if (t.id, b) in self.done: continue
                self.done.add((t.id, b))
                qv = Fr(b2f(b, t.w))
                f = ev(b)
                if f != f or abs(f) == INF: continue
                pv = Fr(f); sl = abs(pv) * slack + ETA[t.w]
                s.add(z3.Implies(y[0] <= rv(qv), v <= rv(pv + sl))); s.add(z3.Implies(y[0] >= rv(qv), v >= rv(pv - sl)))
                n += 1
        for k, (p, x, xl, xh, y, yl, yh) in enumerate(self.prods):
            a = val(x); b = val(y); pv = val(p)
            if None in (a, b, pv): continue
            # simple dyadic neighbour of the point keeps the rationals small
            a = Fr(round(a * (1 << 30)), 1 << 30)
            if abs(a * b - pv) <= abs(pv) * Fr(1, 1 << 26) or not (xl < a < xh): continue
            if (k, a) in self.done: continue
            self.done.add((k, a))
            s.add(z3.Implies(x <= rv(a), z3.And(*self.env4(p, x, xl, a, y, yl, yh))))
            s.add(z3.Implies(x >= rv(a), z3.And(*self.env4(p, x, a, xh, y, yl, yh))))
            n += 1
        return n

    def _f(self, t, w):
        op = t.op; a = t.args
        if op == 'var':
            if t.x[1] != 'f': return None
            l = self.lo.get(t.id); h = self.hi.get(t.id)
            if len(t.x) > 4:
                rl, rh = T.b2f(t.x[4], w), T.b2f(t.x[5], w)
                l = rl if l is None else max(l, rl); h = rh if h is None else min(h, rh)
            elif l is None or h is None or t.id not in self.nn: return None
            if abs(l) == INF or abs(h) == INF: return None
            v = z3.Real('v!' + t.x[0])
            self.vars[t.id] = (t, v)
            self.cons += [v >= rv(Fr(l)), v <= rv(Fr(h))]
            return (v, Fr(l), Fr(h))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x = self.f(a[0], w)
            if x is None: return None
            y = self.f(a[1], w)
            if y is None: return None
            exact = self.tr.use_exact and self.tr.ex(t, w) is not None
            if op == 'fadd': E, lo, hi = x[0] + y[0], x[1] + y[1], x[2] + y[2]
            elif op == 'fsub': E, lo, hi = x[0] - y[0], x[1] - y[2], x[2] - y[1]
            elif op == 'fmul': E, lo, hi = self.prod(x, y)
            else:
                if y[1] <= 0 <= y[2]: return None
                qs = [p / q for p in x[1:] for q in y[1:]]
                lo, hi = min(qs), max(qs)
                if y[1] == y[2]:
                    E = x[0] * rv(1 / y[1])
                else:
                    if max(abs(lo), abs(hi)) > MAXF[w]: return None
                    E = self.fresh()
                    self.cons += [E >= rv(lo), E <= rv(hi)]
                    p, _, _ = self.prod((E, lo, hi), y)
                    self.cons.append(p == x[0])
                    if y[1] > 0:
                        self.cons += [z3.Implies(x[0] <= y[0], E <= 1), z3.Implies(x[0] >= y[0], E >= 1),
                                      z3.Implies(x[0] >= 0, E >= 0), z3.Implies(x[0] <= 0, E <= 0), z3.Implies(x[0] == y[0], E == 1)]
            if op in ('fadd', 'fsub') and lo > hi: return None
            if exact: return (E, lo, hi)
            return self.rounded(t, E, lo, hi, w, op in ('fadd', 'fsub'))
        if op == 'fneg':
            x = self.f(a[0], w)
            return None if x is None else (-x[0], -x[2], -x[1])
        if op == 'fabs':
            x = self.f(a[0], w)
            if x is None: return None
            if x[1] >= 0: return x
            if x[2] <= 0: return (-x[0], -x[2], -x[1])
            return (z3.If(x[0] >= 0, x[0], -x[0]), Fr(0), max(-x[1], x[2]))
        if op == 'ite':
            x = self.f(a[1], w)
            if x is None: return None
            y = self.f(a[2], w)
            if y is None: return None
            return (z3.If(self.b(a[0]), x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]))
        if op == 'fsqrt':
            x = self.f(a[0], w)
            if x is None or x[1] < 0: return None
            S = self.fresh()
            def sq(fr, up):
                # rational bound of sqrt
                n = 1 << 80
                v = math.isqrt(fr.numerator * n * n // fr.denominator)
                return Fr(v + (1 if up else 0), n)
            lo, hi = sq(x[1], False), sq(x[2], True)
            self.cons += [S >= rv(lo), S <= rv(hi)]
            p, _, _ = self.prod((S, lo, hi), (S, lo, hi))
            self.cons.append(p == x[0])
            self.cons += [z3.Implies(x[0] <= 1, S <= 1), z3.Implies(x[0] >= 1, S >= 1), z3.Implies(x[0] <= 1, S >= x[0])]
            return self.rounded(t, S, lo, hi, w)
        if op in ('sitofp', 'uitofp'):
            x = self.i(a[0], op == 'sitofp')
            if x is None: return None
            e, lo, hi = x
            E = z3.ToReal(e)
            if max(abs(lo), abs(hi)) <= 1 / U[w]: return (E, Fr(lo), Fr(hi))
            return self.rounded(t, E, Fr(lo), Fr(hi), w, True)
        if op == 'fpext': return self.f(a[0], 32)
        if op == 'fptrunc':
            x = self.f(a[0], 64)
            if x is None: return None
            return self.rounded(t, x[0], x[1], x[2], 32)
        if op == 'fround':
            x = self.f(a[0], w)
            if x is None: return None
            v = self.fresh('Int')
            V = z3.ToReal(v)
            fl = lambda q: Fr(math.floor(q)); ce = lambda q: Fr(math.ceil(q))
            if t.x == 'floor': self.cons += [V <= x[0], V > x[0] - 1]; return (V, fl(x[1]), fl(x[2]))
            if t.x == 'ceil': self.cons += [V >= x[0], V < x[0] + 1]; return (V, ce(x[1]), ce(x[2]))
            if t.x == 'trunc':
                self.cons += [z3.Implies(x[0] >= 0, z3.And(V <= x[0], V > x[0] - 1)), z3.Implies(x[0] <= 0, z3.And(V >= x[0], V < x[0] + 1))]
                return (V, min(fl(x[1]), ce(x[1])) if x[1] >= 0 else ce(x[1]), fl(x[2]) if x[2] >= 0 else ce(x[2]))
            self.cons += [V <= x[0] + rv(Fr(1, 2)), V >= x[0] - rv(Fr(1, 2))]
            return (V, fl(x[1]), ce(x[2]))
        if op == 'uf':
            return self.uf(t, w)
        return None

    def uf(self, t, w):
        base = t.x[:-1] if w == 32 and t.x.endswith('f') else t.x
        x = self.f(t.args[0], w)
        slack = Fr(1, 1 << 20) if w == 32 else Fr(1, 1 << 48)
        lo = hi = None
        def ev(fr, *more):
            b = T.frac2b(fr, w)
            v = b2f(T.libm(t.x, w, [b] + list(more)), w)
            return v
        if base in ('sin', 'cos', 'tanh'):
            lo, hi = Fr(-1), Fr(1)
            if x is None: return None
        elif base in ('exp', 'exp2', 'log', 'log10', 'log2', 'atan', 'sinh'):
            if x is None: return None
            if base.startswith('log') and x[1] <= 0: return None
            l, h = ev(x[1]), ev(x[2])
            if l != l or h != h or abs(l) == INF or abs(h) == INF: return None
            lo, hi = Fr(l), Fr(h)
        elif base == 'pow' and not isT(t.args[0]):
            # constant base > 1: increasing in the exponent
            c = b2f(t.args[0], w)
            y = self.f(t.args[1], w)
            if not c > 1 or y is None: return None
            def ev2(fr): return b2f(T.libm(t.x, w, [t.args[0], T.frac2b(fr, w)]), w)
            l, h = ev2(y[1]), ev2(y[2])
            if abs(h) == INF or l != l or h != h: return None
            lo, hi = Fr(l), Fr(h)
            lo -= abs(lo) * slack; hi += abs(hi) * slack
            v = self.fresh()
            self.cons += [v >= rv(lo), v <= rv(hi), z3.Implies(y[0] <= 0, v <= 1), z3.Implies(y[0] >= 0, v >= 1)]
            self.ufs.append((t, v, y, lambda b: b2f(T.libm(t.x, w, [t.args[0], b]), w), slack))
            self.powb.append((t, v, y))
            return (v, lo, hi)
        elif base == 'pow':
            if x is None or x[1] < 0 or isT(t.args[1]): return None
            y = b2f(t.args[1], w)
            if not y > 0: return None
            l, h = ev(x[1], t.args[1]), ev(x[2], t.args[1])
            if abs(h) == INF: return None
            lo, hi = Fr(l), Fr(h)
        else:
            return None
        lo -= abs(lo) * slack; hi += abs(hi) * slack
        v = self.fresh()
        self.cons += [v >= rv(lo), v <= rv(hi)]
        if base in ('exp', 'exp2', 'log', 'log10', 'log2', 'pow', 'tanh', 'atan'):
            self.inexact.setdefault('uf:' + t.x + (':' + str(t.args[1]) if len(t.args) > 1 else ''), []).append((t, v))
            self.ufs.append((t, v, x, lambda b: b2f(T.libm(t.x, w, [b] + list(t.args[1:])), w), slack))
            # anchors
            if base.startswith('log'):
                self.cons += [z3.Implies(x[0] <= 1, v <= 0), z3.Implies(x[0] >= 1, v >= 0)]
            if base.startswith('exp'):
                self.cons += [z3.Implies(x[0] <= 0, v <= 1), z3.Implies(x[0] >= 0, v >= 1)]
            if base == 'pow':
                self.cons += [z3.Implies(x[0] <= 1, v <= 1), z3.Implies(x[0] >= 1, v >= 1)]
        return (v, lo, hi)

    # ---- integers -> (expr Int, lo, hi) or None
    def i(self, t, signed):
        if not isT(t):
            return None
        k = (t.id, signed)
        if k in self.ic: return self.ic[k]
        r = self._i(t, signed)
        self.ic[k] = r
        return r

    def iv(self, t, signed, w):
        if not isT(t):
            v = T.sgn(t, w) if signed else t
            return (z3.IntVal(v), v, v)
        return self.i(t, signed)

    def _i(self, t, signed):
        w = t.w
        lo, hi = srange(t, w) if signed else urange(t)
        op = t.op; a = t.args
        if op == 'var' and t.x[1] != 'f':
            if t.x[2] is not None and ((t.x[2] >= 0) or signed):
                v = z3.Int('n!' + t.x[0])
                self.vars[t.id] = (t, v)
                self.cons += [v >= t.x[2], v <= t.x[3]]
                return (v, t.x[2], t.x[3])
        elif op == 'zext':
            r = self.i(a[0], False)
            if r is not None: return r
        elif op == 'sext':
            r = self.i(a[0], True)
            if r is not None and (signed or r[1] >= 0): return r
        elif op in ('add', 'sub', 'mul'):
            for sg in ((True, False) if signed else (False, True)):
                x = self.iv(a[0], sg, w); y = self.iv(a[1], sg, w)
                if x is None or y is None: continue
                if op == 'add': e, l, h = x[0] + y[0], x[1] + y[1], x[2] + y[2]
                elif op == 'sub': e, l, h = x[0] - y[0], x[1] - y[2], x[2] - y[1]
                else:
                    if x[1] != x[2] and y[1] != y[2]: continue
                    ps = [x[1] * y[1], x[1] * y[2], x[2] * y[1], x[2] * y[2]]
                    e, l, h = x[0] * y[0], min(ps), max(ps)
                L, H = (-(1 << (w - 1)), mask(w - 1)) if signed else (0, mask(w))
                SL, SH = (-(1 << (w - 1)), mask(w - 1)) if sg else (0, mask(w))
                if l >= max(L, SL) and h <= min(H, SH): return (e, l, h)
        elif op == 'ite':
            x = self.iv(a[1], signed, w); y = self.iv(a[2], signed, w)
            if x is not None and y is not None:
                return (z3.If(self.b(a[0]), x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]))
        elif op in ('fptosi', 'fptoui'):
            fw = t.x
            x = self.f(a[0], fw)
            if x is not None:
                L, H = (-(1 << (w - 1)), mask(w - 1)) if op == 'fptosi' else (0, mask(w))
                if x[1] > L - 1 and x[2] < H + 1 and (signed == (op == 'fptosi') or x[1] >= 0 and x[2] < mask(w - 1)):
                    v = self.fresh('Int'); V = z3.ToReal(v)
                    self.cons += [z3.Implies(x[0] >= 0, z3.And(V <= x[0], V > x[0] - 1)), z3.Implies(x[0] <= 0, z3.And(V >= x[0], V < x[0] + 1))]
                    return (v, math.trunc(x[1]), math.trunc(x[2]))
        elif w == 1:
            if not signed: return (z3.If(self.b(t), z3.IntVal(1), z3.IntVal(0)), 0, 1)
        elif op == 'udiv' and not signed and not isT(a[1]) and a[1] > 0:
            x = self.i(a[0], False)
            if x is not None:
                v = self.fresh('Int')
                self.cons += [v * a[1] <= x[0], x[0] < v * a[1] + a[1]]
                return (v, x[1] // a[1], x[2] // a[1])
        elif op == 'urem' and not signed and not isT(a[1]) and a[1] > 0:
            x = self.i(a[0], False)
            if x is not None:
                q = self.fresh('Int'); v = x[0] - q * a[1]
                self.cons += [v >= 0, v < a[1]]
                return (v, 0, a[1] - 1)
        if hi - lo < (1 << 62):
            v = self.fresh('Int')
            self.cons += [v >= lo, v <= hi]
            return (v, lo, hi)
        return None

    # ---- booleans
    def b(self, t):
        if not isT(t): return z3.BoolVal(bool(t))
        r = self.bc.get(t.id)
        if r is not None: return r
        op = t.op; a = t.args
        r = None
        if op == 'not': r = z3.Not(self.b(a[0]))
        elif op == 'and': r = z3.And(self.b(a[0]), self.b(a[1]))
        elif op == 'or': r = z3.Or(self.b(a[0]), self.b(a[1]))
        elif op == 'xor': r = z3.Xor(self.b(a[0]), self.b(a[1]))
        elif op == 'ite': r = z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        elif op in ('flt', 'fle', 'feq'):
            w = t.x
            x = self.f(a[0], w); y = self.f(a[1], w)
            if x is not None and y is not None:
                r = x[0] < y[0] if op == 'flt' else x[0] <= y[0] if op == 'fle' else x[0] == y[0]
            else:
                for p, q, sw in ((a[0], a[1], 0), (a[1], a[0], 1)):
                    # comparison with an infinity
                    if not isT(q) and abs(b2f(q, w)) == INF and self.f(p, w) is not None:
                        pos = b2f(q, w) > 0
                        if op == 'feq': r = z3.BoolVal(False)
                        else: r = z3.BoolVal(pos != bool(sw))
        elif op == 'fisnan':
            if a[0].id in self.nn or self.f(a[0], t.x) is not None: r = z3.BoolVal(False)
        elif op in ('eq', 'ult', 'slt'):
            w = a[0].w if isT(a[0]) else a[1].w
            if w == 1 and op == 'eq': r = self.b(a[0]) == self.b(a[1])
            else:
                sgs = (True,) if op == 'slt' else (False,) if op == 'ult' else (False, True)
                for sg in sgs:
                    x = self.iv(a[0], sg, w); y = self.iv(a[1], sg, w)
                    if x is not None and y is not None:
                        r = x[0] == y[0] if op == 'eq' else x[0] < y[0]
                        break
        if r is None:
            r = self.fresh('Bool')
        self.bc[t.id] = r
        return r

    def mono(self):
        c = self.cons
        for i in range(len(self.powb)):
            for j in range(i):
                (p, vp, yp), (q, vq, yq) = self.powb[i], self.powb[j]
                if p.args[0] == q.args[0] and p.w == q.w:
                    c.append(z3.Implies(yp[0] <= yq[0], vp <= vq)); c.append(z3.Implies(yq[0] <= yp[0], vq <= vp))
        for op, ts in self.inexact.items():
            if len(ts) > 24: ts = ts[-24:]
            for i in range(len(ts)):
                for j in range(i):
                    (p, vp), (q, vq) = ts[i], ts[j]
                    if p.w != q.w: continue
                    w = p.w
                    A = [self.f(x, w) if op not in ('fptrunc',) else self.f(x, 64) for x in p.args] if op not in ('sitofp', 'uitofp') else None
                    B = [self.f(x, w) if op not in ('fptrunc',) else self.f(x, 64) for x in q.args] if A is not None else None
                    if A is None or None in A or None in B: continue
                    def le(x, y): return x[0] <= y[0]
                    if op in ('fsqrt', 'fptrunc') or op.startswith('uf:'):
                        c.append(z3.Implies(le(A[0], B[0]), vp <= vq)); c.append(z3.Implies(le(B[0], A[0]), vq <= vp))
                    elif op == 'fadd':
                        for x, y in ((0, 1), (1, 0)):
                            if (p.args[0] is q.args[x]) or (p.args[1] is q.args[y]) or x == 0:
                                c.append(z3.Implies(z3.And(le(A[0], B[x]), le(A[1], B[y])), vp <= vq))
                                c.append(z3.Implies(z3.And(le(B[x], A[0]), le(B[y], A[1])), vq <= vp))
                    elif op == 'fsub':
                        c.append(z3.Implies(z3.And(le(A[0], B[0]), le(B[1], A[1])), vp <= vq))
                        c.append(z3.Implies(z3.And(le(B[0], A[0]), le(A[1], B[1])), vq <= vp))
                    elif op == 'fmul':
                        if all(x[1] >= 0 for x in A + B):
                            for x, y in ((0, 1), (1, 0)):
                                c.append(z3.Implies(z3.And(le(A[0], B[x]), le(A[1], B[y])), vp <= vq))
                                c.append(z3.Implies(z3.And(le(B[x], A[0]), le(B[y], A[1])), vq <= vp))
                        else:
                            for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)):
                                if (p.args[x] is q.args[y]) or (not isT(p.args[x]) and not isT(q.args[y]) and p.args[x] == q.args[y]):
                                    if A[x][1] >= 0:
                                        c.append(z3.Implies(le(A[1 - x], B[1 - y]), vp <= vq)); c.append(z3.Implies(le(B[1 - y], A[1 - x]), vq <= vp))
                                    elif A[x][2] <= 0:
                                        c.append(z3.Implies(le(A[1 - x], B[1 - y]), vp >= vq)); c.append(z3.Implies(le(B[1 - y], A[1 - x]), vq >= vp))
                    elif op == 'fdiv':
                        if A[1][1] > 0 and B[1][1] > 0:
                            if p.args[1] is q.args[1] or (not isT(p.args[1]) and p.args[1] == q.args[1]):
                                c.append(z3.Implies(le(A[0], B[0]), vp <= vq)); c.append(z3.Implies(le(B[0], A[0]), vq <= vp))
                            elif A[0][1] >= 0 and B[0][1] >= 0:
                                c.append(z3.Implies(z3.And(le(A[0], B[0]), le(B[1], A[1])), vp <= vq))
                                c.append(z3.Implies(z3.And(le(B[0], A[0]), le(A[1], B[1])), vq <= vp))

    def check(self, conds, vs, base_env, tmo, accept, maxr=30):
        """-> ('unsat', None) | ('sat', env) | ('unknown', None)"""
        self.fc = {}; self.ic = {}; self.bc = {}; self.cons = []; self.vars = {}; self.inexact = {}; self.powb = []; self.ufs = []; self.prods = []; self.done = set()
        self.collect(conds)
        B = [self.b(c) for c in conds]
        self.mono()
        s = z3.SimpleSolver()
        s.set('timeout', int(tmo))
        for x in B: s.add(x)
        for x in self.cons: s.add(x)
        t_end = time.time() + tmo / 1000.0
        rounds = 0
        while True:
            left = t_end - time.time()
            if left <= 0.01: return 'unknown', None
            s.set('timeout', int(left * 1000))
            r = s.check()
            if r == z3.unsat: return 'unsat', None
            if r != z3.sat: return 'unknown', None
            m = s.model()
            env = {}
            for vid in vs:
                if vid in self.vars:
                    t, v = self.vars[vid]
                    x = m.eval(v, model_completion=True)
                    if t.x[1] == 'f':
                        fr = Fr(x.numerator_as_long(), x.denominator_as_long())
                        env[vid] = T.frac2b(fr, t.w)
                    else:
                        env[vid] = x.as_long() & mask(t.w)
                else:
                    env[vid] = (base_env or {}).get(vid, 0)
            if accept(env): return 'sat', env
            rounds += 1
            if rounds > maxr or not self.refine(s, m): return 'unknown', None
