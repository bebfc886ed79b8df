"""Models of LLVM intrinsics, the allocator, libm, and the harness interface (vp_*)."""
import re
import terms as T
from terms import isT, mask, sgn
import exec as X

PANIC = re.compile(r'9panicking|unwrap_failed|expect_failed|handle_error|handle_alloc_error|capacity_overflow|_fail\b|_fail_|slice_index|begin_panic|panic_fmt|panic_bounds|index_fail|16rust_begin_unwind|7___rustc17rust_begin')
LIBM1 = ['expf', 'exp', 'exp2f', 'exp2', 'logf', 'log', 'log10f', 'log10', 'log2f', 'log2', 'sinf', 'sin', 'cosf', 'cos', 'tanf', 'tan', 'tanhf', 'tanh', 'atanf', 'atan', 'asinf', 'acosf', 'sinhf', 'coshf', 'cbrtf', 'cbrt', 'expm1f', 'log1pf', 'expm1', 'log1p', 'asin', 'acos', 'sinh', 'cosh']
LIBM2 = ['powf', 'pow', 'atan2f', 'atan2', 'hypotf', 'hypot', 'fmodf', 'fmod']
NOPS = ('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.prefetch', 'llvm.invariant', 'llvm.donothing', 'llvm.sideeffect', 'llvm.x86.sse2.pause', 'llvm.pseudoprobe', 'llvm.va_', 'llvm.stackrestore')


def lookup(ex, sym, tys, rty, noret):
    name = sym[1:].strip('"')
    if name.startswith('llvm.'):
        return llvm(ex, name, tys, rty)
    if name.startswith('vp_'):
        return vp(ex, name, tys, rty)
    if name in LIBM1 or name in LIBM2:
        w = rty.n
        return lambda st, a: T.uf(name, w, uq(ex, st, a))
    if name in ('floorf', 'floor', 'ceilf', 'ceil', 'truncf', 'trunc', 'roundf', 'round', 'rintf', 'rint'):
        md = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'rna', 'rint': 'rne'}[name.rstrip('f') if name != 'f' else name]
        return lambda st, a: T.fround(a[0], rty.n, md)
    if name in ('sqrtf', 'sqrt'): return lambda st, a: T.fsqrt(a[0], rty.n)
    if name in ('fminf', 'fmin'): return lambda st, a: T.fmin(a[0], a[1], rty.n)
    if name in ('fmaxf', 'fmax'): return lambda st, a: T.fmax(a[0], a[1], rty.n)
    if name in ('fmaf', 'fma'): return lambda st, a: T.fma(a[0], a[1], a[2], rty.n)
    if name in ('malloc',) or name.endswith('12___rust_alloc') or name == '__rust_alloc':
        return lambda st, a: ex.alloc(st, ex.concretize(st, a[0]))
    if name in ('calloc',):
        return lambda st, a: ex.alloc(st, ex.concretize(st, a[0]) * ex.concretize(st, a[1]))
    if name.endswith('19___rust_alloc_zeroed') or name == '__rust_alloc_zeroed':
        return lambda st, a: ex.alloc(st, ex.concretize(st, a[0]))
    if name in ('free',) or name.endswith('14___rust_dealloc') or name == '__rust_dealloc':
        return lambda st, a: free(ex, st, a[0])
    if name in ('realloc',):
        return lambda st, a: realloc(ex, st, a[0], a[1])
    if name.endswith('14___rust_realloc') or name == '__rust_realloc':
        return lambda st, a: realloc(ex, st, a[0], a[3])
    if name in ('posix_memalign',):
        def pm(st, a):
            p = ex.alloc(st, ex.concretize(st, a[2]))
            ex.store_bytes(st, a[0], 8, p)
            return 0
        return pm
    if name in ('aligned_alloc',): return lambda st, a: ex.alloc(st, ex.concretize(st, a[1]))
    if name in ('memcmp', 'bcmp'):
        return lambda st, a: memcmp(ex, st, a)
    if name in ('memcpy', 'memmove'): 
        def mc(st, a):
            memcpy(ex, st, a); return a[0]
        return mc
    if name in ('strlen',): return lambda st, a: strlen(ex, st, a[0])
    if name in ('syscall', 'getrandom'): return lambda st, a: randomfill(ex, st, name, a)
    if name == '__errno_location':
        return lambda st, a: ex.alloc(st, 8)
    if '16format_inner' in name or name.endswith('12format_inner') or 'format12format_inner' in name:
        if not ex.fmt_real:
            ex.stubs.add('alloc::fmt::format (returns an empty string)')
            def fi(st, a):
                ex.store_bytes(st, a[0], 8, 0)
                ex.store_bytes(st, a[0] + 8, 8, 1)
                ex.store_bytes(st, a[0] + 16, 8, 0)
            return fi
    if name.endswith('4core3fmt5write') and not ex.fmt_real:
        ex.stubs.add('core::fmt::write (writes nothing)')
        return lambda st, a: 0
    if 'hashmap_random_keys' in name:
        def hk(st, a):
            st.tls['hk'] = st.tls.get('hk', 0) + 1
            # hash seeds differ from path to path (they do from run to run natively)
            k = (0x9E3779B97F4A7C15 * (st.tls['hk'] + 7 + pathsalt(st))) & mask(64)
            v = (k, k ^ 0x5851F42D4C957F2D)
            if a:
                ex.store_bytes(st, a[0], 8, v[0]); ex.store_bytes(st, a[0] + 8, 8, v[1]); return None
            return v
        return hk
    if name in ('abort', 'exit', '_exit') or PANIC.search(name) or (noret and sym not in ex.mod.ftext) or (noret and ('4core' in name or '5alloc' in name or '3std' in name)):
        return lambda st, a: panic(ex, st, name, a)
    if sym in ex.mod.ftext:
        return None
    return lambda st, a: unsupported(name)


def unsupported(name):
    raise X.EngineError('external function ' + name)


def uq(ex, st, a):
    if not ex.o.get('uniq'): return a
    return [ex.unique(st, x) if isT(x) else x for x in a]


def panic(ex, st, name, a):
    ex.panics += 1
    mode = st.tls.get('panic_mode', 0)
    if mode == 1:          # panics allowed (documented)
        raise X.PathEnd('panic-ok')
    ex.report(st, 'panic', 'panic', [], detail=name[-80:])
    raise X.PathEnd('panic')


def free(ex, st, p):
    p = ex.concretize(st, p)
    if p == 0: return
    oid = p >> 32
    o = st.objs.get(oid)
    if o is None: raise X.EngineError('free of unknown/freed object')
    del st.objs[oid]
    st.owned.discard(oid)


def realloc(ex, st, p, n):
    n = ex.concretize(st, n)
    p = ex.concretize(st, p)
    if p == 0: return ex.alloc(st, n)
    q = ex.alloc(st, n)
    o = st.objs[p >> 32]
    copy(ex, st, q, p, min(o.size, n))
    free(ex, st, p)
    return q


def copy(ex, st, d, s, n):
    if n == 0: return
    so = ex.robj(st, s >> 32); soff = (s & 0xffffffff) - 0x1000
    if soff < 0 or soff + n > so.size: raise X.EngineError('memcpy source out of bounds')
    data = bytes(so.b[soff:soff + n])
    sy = None
    if so.sym:
        if n < 2 * len(so.sym):
            sy = [(i, so.sym[soff + i]) for i in range(n) if soff + i in so.sym]
        else:
            sy = [(k - soff, v) for k, v in so.sym.items() if soff <= k < soff + n]
    do = ex.wobj(st, d >> 32); doff = (d & 0xffffffff) - 0x1000
    if doff < 0 or doff + n > do.size: raise X.EngineError('memcpy dest out of bounds')
    do.b[doff:doff + n] = data
    if do.sym:
        for i in range(doff, doff + n): do.sym.pop(i, None)
    if sy:
        if do.sym is None: do.sym = {}
        for i, v in sy: do.sym[doff + i] = v


def memcpy(ex, st, a):
    n = ex.concretize(st, a[2])
    if n == 0: return
    d, s = a[0], a[1]
    if isT(d) or isT(s):
        # small symbolic-pointer copies (branchless sorts): element-wise guarded
        if n <= 64:
            k = 4 if n % 4 == 0 else 1
            if n % 8 == 0: k = 8 if n % 4 else 4
            vals = [ex.ldx(st, ex.padd(s, i), k) for i in range(0, n, k)]
            for j, i in enumerate(range(0, n, k)): ex.stx(st, ex.padd(d, i), k, vals[j])
            return
        d = ex.concretize(st, d); s = ex.concretize(st, s)
    copy(ex, st, d, s, n)


def memset(ex, st, a):
    n = ex.concretize(st, a[2])
    if n == 0: return
    d = ex.concretize(st, a[0])
    v = a[1]
    if isT(v):
        for i in range(n): ex.store_bytes(st, d + i, 1, v)
        return
    o = ex.wobj(st, d >> 32); off = (d & 0xffffffff) - 0x1000
    if off < 0 or off + n > o.size: raise X.EngineError('memset out of bounds')
    o.b[off:off + n] = bytes([v]) * n
    if o.sym:
        for i in range(off, off + n): o.sym.pop(i, None)


def memcmp(ex, st, a):
    n = ex.concretize(st, a[2])
    if n == 0: return 0
    r = 0
    for i in reversed(range(n)):
        x = ex.ldx(st, ex.padd(a[0], i), 1); y = ex.ldx(st, ex.padd(a[1], i), 1)
        r = T.ite(T.eq(x, y, 8), r, T.ite(T.ult(x, y, 8), mask(32), 1, 32), 32)
    return r


def strlen(ex, st, p):
    n = 0
    while True:
        v = ex.load_bytes(st, p + n, 1)
        if isT(v): raise X.EngineError('strlen symbolic')
        if v == 0: return n
        n += 1


def pathsalt(st):
    h = 0
    for k, v in sorted((str(k), v) for k, v in st.conc.items() if isinstance(v, int)): h = (h * 31 + v + 1) & 0xffff
    for v in st.choices: h = (h * 37 + v + 1) & 0xffff
    return h


def randomfill(ex, st, name, a):
    if name == 'syscall':
        if a[0] != 318: raise X.EngineError('syscall %s' % a[0])
        a = a[1:]
    buf, n = a[0], ex.concretize(st, a[1])
    st.tls['rnd'] = st.tls.get('rnd', 0) + 1
    p = pathsalt(st)
    for i in range(n): ex.store_bytes(st, buf + i, 1, (i * 37 + st.tls['rnd'] * 101 + 11 + p * (i + 3)) & 255)
    return n


def vmap(ex, ty, f1, n=1):
    """lift scalar fn over vectors"""
    if ty.k == 'v':
        w = ty.el.n
        return lambda st, a: tuple(f1(*[x[i] for x in a[:n]], w) for i in range(ty.n))
    w = ty.n
    return lambda st, a: f1(*a[:n], w)


def uadd_o(a, b, w):
    r = T.add(a, b, w)
    return (r, T.ult(r, a, w) if isT(r) or isT(a) else int(a + b > mask(w)))


def ovf(kind, a, b, w):
    sg = kind[0] == 's'
    op = kind[1:]
    f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op]
    r = f(a, b, w)
    if not isT(a) and not isT(b):
        x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
        v = x + y if op == 'add' else x - y if op == 'sub' else x * y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
        return r, int(not lo <= v <= hi)
    if not sg:
        (l1, h1), (l2, h2) = T.urange(a), T.urange(b)
        if op == 'add':
            if h1 + h2 <= mask(w): return r, 0
            return r, T.ult(r, a, w)
        if op == 'sub':
            return r, T.ult(a, b, w)
        if h1 * h2 <= mask(w): return r, 0
    else:
        (l1, h1), (l2, h2) = T.srange(a, w), T.srange(b, w)
        if op == 'add': lo, hi = l1 + l2, h1 + h2
        elif op == 'sub': lo, hi = l1 - h2, h1 - l2
        else:
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]; lo, hi = min(ps), max(ps)
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)): return r, 0
    W = 2 * w if op == 'mul' else w + 1
    e = T.sext if sg else T.zext
    wide = f(e(a, w, W), e(b, w, W), W)
    return r, T.not_(T.eq(wide, e(r, w, W), W))


def sat(kind, a, b, w):
    r, o = ovf(kind, a, b, w)
    if kind == 'uadd': return T.ite(o, mask(w), r, w)
    if kind == 'usub': return T.ite(o, 0, r, w)
    neg = T.slt(a, 0, w)
    return T.ite(o, T.ite(neg, 1 << (w - 1), (1 << (w - 1)) - 1, w), r, w)


def ctlz(a, w):
    if not isT(a): return w - a.bit_length()
    r = w
    for i in range(w): r = T.ite(T.extract(a, i, i), w - 1 - i, r, w)
    return r


def cttz(a, w):
    if not isT(a): return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in reversed(range(w)): r = T.ite(T.extract(a, i, i), i, r, w)
    return r


def ctpop(a, w):
    if not isT(a): return bin(a).count('1')
    r = 0
    for i in range(w): r = T.add(r, T.zext(T.extract(a, i, i), 1, w), w)
    return r


def bswap(a, w):
    if not isT(a): return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    r = T.extract(a, 7, 0); tw = 8
    for i in range(1, w // 8):
        r = T.concat(r, T.extract(a, 8 * i + 7, 8 * i), tw, 8); tw += 8
    return r


def bitrev(a, w):
    if isT(a):
        r = T.extract(a, 0, 0); tw = 1
        for i in range(1, w):
            r = T.concat(r, T.extract(a, i, i), tw, 1); tw += 1
        return r
    return int(bin(a)[2:].zfill(w)[::-1], 2)


def fsh(left):
    def f(a, b, c, w):
        if isT(c): raise X.EngineError('symbolic funnel shift')
        s = c % w
        if left:
            return T.or_(T.shl(a, s, w), T.lshr(b, w - s, w), w) if s else a
        return T.or_(T.shl(a, w - s, w), T.lshr(b, s, w), w) if s else b
    return f


def llvm(ex, name, tys, rty):
    for n in NOPS:
        if name.startswith(n): return X.NOP
    p = name.split('.')
    b = p[1]
    if b in ('memcpy', 'memmove'): return lambda st, a: memcpy(ex, st, a)
    if b == 'memset': return lambda st, a: memset(ex, st, a)
    if b == 'assume': return X.NOP
    if b == 'expect': return lambda st, a: a[0]
    if b == 'trap' or b == 'ubsantrap': return lambda st, a: panic(ex, st, 'llvm.trap', a)
    if b == 'umin': return vmap(ex, rty, lambda x, y, w: T.ite(T.ult(x, y, w), x, y, w), 2)
    if b == 'umax': return vmap(ex, rty, lambda x, y, w: T.ite(T.ult(x, y, w), y, x, w), 2)
    if b == 'smin': return vmap(ex, rty, lambda x, y, w: T.ite(T.slt(x, y, w), x, y, w), 2)
    if b == 'smax': return vmap(ex, rty, lambda x, y, w: T.ite(T.slt(x, y, w), y, x, w), 2)
    if b == 'abs': return vmap(ex, rty, lambda x, w: T.ite(T.slt(x, 0, w), T.sub(0, x, w), x, w), 1)
    if len(p) > 3 and p[2] == 'with' and p[3] == 'overflow':
        w = tys[0].n
        return lambda st, a: ovf(b, a[0], a[1], w)
    if len(p) > 2 and p[2] == 'sat' and b in ('uadd', 'usub', 'sadd', 'ssub'):
        return vmap(ex, rty, lambda x, y, w: sat(b, x, y, w), 2)
    if b == 'fptosi': return lambda st, a: T.fptosi_sat(a[0], tys[0].n, rty.n)
    if b == 'fptoui': return lambda st, a: T.fptoui_sat(a[0], tys[0].n, rty.n)
    if b == 'ctlz': return vmap(ex, rty, ctlz, 1)
    if b == 'cttz': return vmap(ex, rty, cttz, 1)
    if b == 'ctpop': return vmap(ex, rty, ctpop, 1)
    if b == 'bswap': return vmap(ex, rty, bswap, 1)
    if b == 'bitreverse': return vmap(ex, rty, bitrev, 1)
    if b == 'fshl': return vmap(ex, rty, fsh(True), 3)
    if b == 'fshr': return vmap(ex, rty, fsh(False), 3)
    if b == 'fabs': return vmap(ex, rty, T.fabs, 1)
    if b == 'sqrt': return vmap(ex, rty, T.fsqrt, 1)
    if b in ('floor', 'ceil', 'trunc'): return vmap(ex, rty, lambda x, w: T.fround(x, w, b), 1)
    if b == 'round': return vmap(ex, rty, lambda x, w: T.fround(x, w, 'rna'), 1)
    if b in ('rint', 'nearbyint', 'roundeven'): return vmap(ex, rty, lambda x, w: T.fround(x, w, 'rne'), 1)
    if b in ('minnum', 'minimumnum'): return vmap(ex, rty, T.fmin, 2)
    if b in ('maxnum', 'maximumnum'): return vmap(ex, rty, T.fmax, 2)
    if b == 'minimum': return vmap(ex, rty, lambda x, y, w: T.ite(T.fisnan(x, w), x, T.ite(T.fisnan(y, w), y, T.ite(T.flt(x, y, w), x, y, w), w), w), 2)
    if b == 'maximum': return vmap(ex, rty, lambda x, y, w: T.ite(T.fisnan(x, w), x, T.ite(T.fisnan(y, w), y, T.ite(T.flt(y, x, w), x, y, w), w), w), 2)
    if b == 'copysign':
        def cs(x, y, w):
            s = T.extract(y, w - 1, w - 1)
            return T.ite(s, T.fneg(T.fabs(x, w), w), T.fabs(x, w), w)
        return vmap(ex, rty, cs, 2)
    if b in ('fma', 'fmuladd'): return vmap(ex, rty, T.fma, 3)
    if b in ('exp', 'exp2', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'tanh', 'pow', 'atan', 'atan2', 'sinh', 'cosh', 'asin', 'acos'):
        w = rty.n
        nm = b + ('f' if w == 32 else '')
        return lambda st, a: T.uf(nm, w, uq(ex, st, a))
    if b == 'powi':
        def pw(st, a):
            n = sgn(ex.concretize(st, a[1]), 32); w = rty.n
            if abs(n) > 64: raise X.EngineError('powi')
            # compiler-rt __powisf2
            recip = n < 0; n = abs(n)
            r = T.f2b(1.0, w); x = a[0]
            while True:
                if n & 1: r = T.fmul(r, x, w)
                n >>= 1
                if n == 0: break
                x = T.fmul(x, x, w)
            return T.fdiv(T.f2b(1.0, w), r, w) if recip else r
        return pw
    if p[1] == 'is' and p[2] == 'fpclass':
        w = tys[0].n
        return lambda st, a: fpclass(a[0], a[1], w)
    if p[1] == 'is' and p[2] == 'constant': return lambda st, a: 0
    if b == 'ucmp':
        w = tys[0].n; rw = rty.n
        return lambda st, a: T.ite(T.ult(a[0], a[1], w), mask(rw), T.ite(T.eq(a[0], a[1], w), 0, 1, rw), rw)
    if b == 'scmp':
        w = tys[0].n; rw = rty.n
        return lambda st, a: T.ite(T.slt(a[0], a[1], w), mask(rw), T.ite(T.eq(a[0], a[1], w), 0, 1, rw), rw)
    if b == 'threadlocal': return lambda st, a: a[0]
    if b == 'objectsize': return lambda st, a: mask(64)
    if b == 'load': # load.relative
        def lr(st, a):
            v = ex.load_bytes(st, (a[0] + a[1]) & mask(64), 4)
            return (a[0] + sgn(v, 32)) & mask(64)
        return lr
    if b == 'ptrmask': return lambda st, a: T.and_(a[0], a[1], 64)
    if b == 'vector' and p[2] == 'reduce':
        op = p[3]
        w = tys[0].el.n if tys[0].k == 'v' else (tys[1].el.n if len(tys) > 1 else 0)
        fn = {'add': T.add, 'or': T.or_, 'and': T.and_, 'xor': T.xor, 'mul': T.mul,
              'umax': lambda x, y, w: T.ite(T.ult(x, y, w), y, x, w), 'umin': lambda x, y, w: T.ite(T.ult(x, y, w), x, y, w),
              'smax': lambda x, y, w: T.ite(T.slt(x, y, w), y, x, w), 'smin': lambda x, y, w: T.ite(T.slt(x, y, w), x, y, w),
              'fmax': T.fmax, 'fmin': T.fmin}.get(op)
        if fn:
            def vr(st, a):
                r = a[0][0]
                for e in a[0][1:]: r = fn(r, e, w)
                return r
            return vr
    if name == 'llvm.x86.sse2.pmovmskb.128':
        def mm(st, a):
            r = 0
            for i, e in enumerate(a[0]):
                r = T.or_(r, T.shl(T.zext(T.extract(e, 7, 7), 1, 32), i, 32), 32)
            return r
        return mm
    if b == 'stacksave': return lambda st, a: 0
    return lambda st, a: unsupported(name)


def fpclass(x, m, w):
    # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
    emask = (0xff << 23) if w == 32 else (0x7ff << 52)
    mb = 23 if w == 32 else 52
    inf = emask
    if m == 3: return T.fisnan(x, w)
    if m == 0x3fc: return T.not_(T.fisnan(x, w))
    ab = T.fabs(x, w)
    if m == 504 + 0:  # 0x1f8 finite
        return T.flt(ab, inf, w)
    if m == 516: return T.feq(ab, inf, w)
    if m == 96: return T.feq(x, 0, w)
    r = 0
    sgnb = T.extract(x, w - 1, w - 1)
    isn = T.fisnan(x, w); isinf = T.feq(ab, inf, w); isz = T.feq(x, 0, w)
    minn = 1 << mb
    sub_ = T.and_(T.flt(ab, minn, w), T.not_(isz), 1)
    nor = T.and_(T.fle(minn, ab, w), T.flt(ab, inf, w), 1)
    cls = {0: 0, 1: isn, 2: T.and_(isinf, sgnb, 1), 3: T.and_(nor, sgnb, 1), 4: T.and_(sub_, sgnb, 1), 5: T.and_(isz, sgnb, 1),
           6: T.and_(isz, T.not_(sgnb), 1), 7: T.and_(sub_, T.not_(sgnb), 1), 8: T.and_(nor, T.not_(sgnb), 1), 9: T.and_(isinf, T.not_(sgnb), 1)}
    for i in range(10):
        if m >> i & 1: r = T.or_(r, cls[i], 1)
    return r


# ------------------------------------------------------------------ harness API
def vp(ex, name, tys, rty):
    def inp(st, kind, t):
        st.inputs.append((kind, t)); st.nin += 1
        return t
    if name == 'vp_any_f32':
        return lambda st, a: inp(st, 'f32', T.var('f%d' % st.nin, 32, 'f'))
    if name == 'vp_f32_in':
        def fi(st, a):
            if a[0] == a[1]: return inp(st, 'f32', a[0])
            return inp(st, 'f32', T.var('f%d_%x_%x' % (st.nin, a[0], a[1]), 32, 'f', fr=(a[0], a[1])))
        return fi
    if name == 'vp_any_u32':
        return lambda st, a: inp(st, 'u32', T.var('u%d' % st.nin, 32, 'i'))
    if name == 'vp_any_u64':
        return lambda st, a: inp(st, 'u64', T.var('q%d' % st.nin, 64, 'i'))
    if name == 'vp_any_u8':
        return lambda st, a: inp(st, 'u8', T.var('b%d' % st.nin, 8, 'i'))
    if name == 'vp_int':
        def vi(st, a):
            lo, hi = sgn(a[0], 32), sgn(a[1], 32)
            if lo == hi: return inp(st, 'i32', a[0])
            return inp(st, 'i32', T.var('n%d_%d_%d' % (st.nin, lo, hi), 32, 'i', lo, hi))
        return vi
    if name == 'vp_choose':
        def ch(st, a):
            n = ex.concretize(st, a[0])
            k = ('choose', st.nin)
            if k in st.conc:
                return inp(st, 'u32', st.conc[k])
            if len(st.choices) < len(ex.forced):
                v = ex.forced[len(st.choices)]
                if v >= n: raise X.PathEnd('forced choice out of range')
                sp = ex.o.get('split') or []
                if len(st.choices) < len(sp) and sp[len(st.choices)] < n: raise X.EngineError('split %s does not cover the %d choices' % (sp, n))
                st.choices.append(v)
                return inp(st, 'u32', v)
            raise X.ForkValues([([], (k, v)) for v in range(n)])
        return ch
    if name == 'vp_assume':
        return lambda st, a: ex.assume(st, a[0])
    if name == 'vp_assert':
        return lambda st, a: ex.do_assert(st, a[0], sgn(a[1], 32))
    if name == 'vp_cover':
        def cv(st, a):
            k = 'cover%d' % a[0]
            ex.reached[k] = ex.reached.get(k, 0) + 1
        return cv
    if name == 'vp_obs':
        def ob(st, a): st.tls['obs'] = st.tls.get('obs', ()) + (a[0],)
        return ob
    if name == 'vp_tier':
        return lambda st, a: ex.o.get('tier', 0)
    if name == 'vp_panic_ok':
        def po(st, a): st.tls['panic_mode'] = a[0]
        return po
    if name == 'vp_concretize':
        return lambda st, a: ex.concretize(st, a[0])
    if name == 'vp_fork':     # fork on a boolean, return concrete
        def fk(st, a):
            return ex.concretize(st, a[0])
        return fk
    return lambda st, a: unsupported(name)
