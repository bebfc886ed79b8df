"""Forking symbolic executor for LLVM IR."""
import re, sys, time
import terms as T
from terms import isT, Term, mask, sgn
from ir import Module, VOID, PTR, F32, F64, I1
from solve import Solver

M64 = mask(64)


class Obj:
    __slots__ = ('size', 'b', 'sym', 'live', 'ro')

    def __init__(self, size):
        self.size = size
        self.b = bytearray(size)
        self.sym = None
        self.live = True
        self.ro = False

    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size; o.b = bytearray(self.b); o.sym = dict(self.sym) if self.sym else None
        o.live = self.live; o.ro = self.ro
        return o


class Frame:
    __slots__ = ('code', 'regs', 'blk', 'ip', 'prev', 'dst', 'allocas')

    def clone(self):
        f = Frame.__new__(Frame)
        f.code = self.code; f.regs = list(self.regs); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.dst = self.dst; f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'objs', 'owned', 'next_obj', 'pc', 'pcset', 'env', 'ecache', 'conc', 'inputs', 'steps', 'nin', 'tls', 'choices', 'dbg', 'bdepth')

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.owned = set(); self.owned = set()
        s.next_obj = self.next_obj
        s.pc = list(self.pc); s.pcset = set(self.pcset)
        s.env = self.env; s.ecache = self.ecache
        s.conc = dict(self.conc)
        s.inputs = list(self.inputs); s.steps = self.steps; s.nin = self.nin
        s.tls = dict(self.tls); s.choices = list(self.choices); s.dbg = self.dbg; s.bdepth = self.bdepth
        return s


def tz(t):
    if not isT(t): return (t & -t).bit_length() - 1 if t else 64
    if t.op == 'shl' and not isT(t.args[1]): return min(63, tz(t.args[0]) + t.args[1])
    if t.op == 'mul': return min(63, tz(t.args[0]) + tz(t.args[1]))
    if t.op in ('add', 'sub'): return min(tz(t.args[0]), tz(t.args[1]))
    if t.op == 'ite': return min(tz(t.args[1]), tz(t.args[2]))
    if t.op == 'zext': return tz(t.args[0])
    return 0


class PathEnd(Exception):
    pass


class ForkValues(Exception):
    def __init__(self, alts): self.alts = alts     # list of (cond list, setup fn)


class EngineError(Exception):
    pass


class Halt(Exception):
    pass


PANIC_RE = re.compile(r'panicking|panic_|unwrap_failed|expect_failed|handle_error|handle_alloc_error|capacity_overflow|slice_error_fail|index_fail|_fail(?:ed)?$|rust_begin_unwind|_RNvNtC[^ ]*4core6option|len_mismatch_fail|copy_from_slice_impl')


class Code:
    __slots__ = ('name', 'blocks', 'nregs', 'params', 'entry', 'names', 'slots')


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = opts or {}
        self.solver = Solver(self.o.get('quick_ms', 4000))
        self.max_steps = self.o.get('max_steps', 3000000)
        self.max_paths = self.o.get('max_paths', 200000)
        self.deadline = self.o.get('deadline')
        self.assert_hard = self.o.get('assert_hard', 60)
        self.fmt_real = self.o.get('fmt_real', False)
        self.globals = {}
        self.codes = {}
        self.violations = []
        self.reached = {}
        self.paths = 0; self.completed = 0; self.panics = 0; self.infeasible = 0
        self.total_steps = 0
        self.unknown_asserts = []
        self.bound_hits = []
        self.errors = []
        self.proved = 0
        self.trivial = 0
        self.stubs = set()
        self.entered = set()
        self.known_sites = set()
        self.stop_on_violation = self.o.get('stop_on_violation', True)
        self.forks = 0
        self.samples = []

    # ------------------------------------------------------------- memory
    def init_global(self, oid):
        sym = self.mod.glob_init.get(oid)
        if sym is None:
            raise EngineError('access to unknown object %d' % oid)
        if sym not in self.mod.gtext:
            raise EngineError('external global ' + sym)
        ty, v, isc = self.mod.global_def(sym)
        o = Obj(max(ty.size, 1))
        o.size = ty.size
        if v is not None:
            self.put_const(o.b, 0, ty, v)
        o.ro = isc
        return o

    def put_const(self, b, off, ty, v):
        k = ty.k
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'bytes':
            b[off:off + len(v[1])] = v[1]
            return
        if k in 'ipf':
            b[off:off + ty.size] = v.to_bytes(ty.size, 'little')
        elif k == 'a':
            for i, e in enumerate(v): self.put_const(b, off + i * ty.el.size, ty.el, e)
        elif k == 'v':
            for i, e in enumerate(v): self.put_const(b, off + i * ty.el.size, ty.el, e)
        elif k == 's':
            for e, et, o in zip(v, ty.el, ty.offs): self.put_const(b, off + o, et, e)

    def robj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.globals.get(oid)
            if o is None:
                o = self.init_global(oid)
                self.globals[oid] = o
        return o

    def wobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.robj(st, oid).clone()
            st.objs[oid] = o; st.owned.add(oid)
        elif oid not in st.owned:
            o = o.clone()
            st.objs[oid] = o; st.owned.add(oid)
        return o

    def alloc(self, st, size):
        oid = st.next_obj
        st.next_obj += 1
        st.objs[oid] = Obj(size)
        st.owned.add(oid)
        return (oid << 32) + 0x1000

    def load_bytes(self, st, addr, n):
        """-> value (n bytes)"""
        oid = addr >> 32; off = (addr & 0xffffffff) - 0x1000
        o = st.objs.get(oid)
        if o is None: o = self.robj(st, oid)
        if off < 0 or off + n > o.size or not o.live:
            raise EngineError('out-of-bounds load of %d at obj %d off %d size %d live %s' % (n, oid, off, o.size, o.live))
        sym = o.sym
        if sym:
            hit = False
            for i in range(off, off + n):
                if i in sym: hit = True; break
            if hit:
                e = sym.get(off)
                if e is not None and e[1] == 0 and e[0].w == 8 * n:
                    t = e[0]
                    ok = True
                    for i in range(1, n):
                        f = sym.get(off + i)
                        if f is None or f[0] is not t or f[1] != i: ok = False; break
                    if ok: return t
                v = None; w = 0
                for i in range(n):
                    f = sym.get(off + i)
                    if f is None: bv = o.b[off + i]
                    else: bv = T.extract(f[0], f[1] * 8 + 7, f[1] * 8)
                    v = bv if v is None else T.concat(bv, v, 8, w)
                    w += 8
                return v
        return int.from_bytes(o.b[off:off + n], 'little')

    def store_bytes(self, st, addr, n, v):
        oid = addr >> 32; off = (addr & 0xffffffff) - 0x1000
        o = self.wobj(st, oid)
        if off < 0 or off + n > o.size or not o.live:
            raise EngineError('out-of-bounds store of %d at obj %d off %d size %d live %s' % (n, oid, off, o.size, o.live))
        if isT(v):
            if v.w != 8 * n:
                v = T.zext(v, v.w, 8 * n)
            s = o.sym
            if s is None: s = o.sym = {}
            for i in range(n): s[off + i] = (v, i)
        else:
            s = o.sym
            if s:
                for i in range(off, off + n): s.pop(i, None)
            o.b[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def load(self, st, addr, ty):
        k = ty.k
        if k in 'ifp':
            if ty.n == 1 and k == 'i':
                v = self.ldx(st, addr, 1)
                return T.extract(v, 0, 0) if isT(v) else v & 1
            n = ty.size
            if k == 'i' and ty.n % 8:
                v = self.ldx(st, addr, n)
                return T.extract(v, ty.n - 1, 0)
            if k == 'i' and ty.n != n * 8:
                v = self.ldx(st, addr, ty.n // 8)
                return v
            return self.ldx(st, addr, n)
        if k == 'v':
            if ty.el.k == 'i' and ty.el.n == 1:
                v = self.ldx(st, addr, ty.size)
                return tuple(T.extract(v, i, i) for i in range(ty.n))
            es = ty.el.size
            return tuple(self.load(st, self.padd(addr, i * es), ty.el) for i in range(ty.n))
        if k == 'a':
            es = ty.el.size
            return tuple(self.load(st, self.padd(addr, i * es), ty.el) for i in range(ty.n))
        if k == 's':
            return tuple(self.load(st, self.padd(addr, o), e) for e, o in zip(ty.el, ty.offs))
        raise EngineError('load type ' + k)

    def padd(self, a, o):
        return T.add(a, o, 64) if o else a

    def store(self, st, addr, ty, v):
        k = ty.k
        if k in 'ifp':
            n = ty.size
            if k == 'i' and ty.n % 8 == 0: n = ty.n // 8
            return self.stx(st, addr, n, v)
        if k == 'v' and ty.el.k == 'i' and ty.el.n == 1:
            r = v[0]; w = 1
            for e in v[1:]:
                r = T.concat(e, r, 1, w); w += 1
            return self.stx(st, addr, ty.size, r)
        if k in 'av':
            es = ty.el.size
            for i in range(ty.n): self.store(st, self.padd(addr, i * es), ty.el, v[i])
            return
        if k == 's':
            for e, o, x in zip(ty.el, ty.offs, v): self.store(st, self.padd(addr, o), e, x)
            return
        raise EngineError('store type ' + k)

    def ldx(self, st, addr, n):
        if not isT(addr): return self.load_bytes(st, addr, n)
        if addr.op == 'add' and not isT(addr.args[1]) and addr.id not in st.conc:
            v = self.table_load(st, addr, n)
            if v is not None: return v
        alts = self.addr_alts(st, addr)
        if len(alts) == 1: return self.load_bytes(st, alts[0][1], n)
        v = self.load_bytes(st, alts[-1][1], n)
        for c, a in reversed(alts[:-1]):
            v = T.ite(c, self.load_bytes(st, a, n), v, 8 * n)
        return v

    def table_load(self, st, addr, n):
        """load at constant + small symbolic offset wholly inside one object: ITE over runs of equal values"""
        x, base = addr.args
        lo, hi = T.urange(x)
        k = tz(x)
        if hi - lo > 4096 or (hi - lo) >> k > 300: return None
        oid = (base + lo) >> 32
        off = ((base + lo) & 0xffffffff) - 0x1000
        try:
            o = self.robj(st, oid)
        except EngineError:
            return None
        if not o.live or off < 0 or off + (hi - lo) + n > o.size: return None
        step = 1 << k
        vals = [(v, self.load_bytes(st, base + v, n)) for v in range((lo + step - 1) // step * step, hi + 1, step)]
        runs = []
        for v, b in vals:
            if runs and (runs[-1][2] is b or (not isT(b) and not isT(runs[-1][2]) and runs[-1][2] == b)): runs[-1][1] = v
            else: runs.append([v, v, b])
        r = runs[-1][2]
        for a, b, val in reversed(runs[:-1]):
            r = T.ite(T.ule(x, b, 64), val, r, 8 * n)
        return r

    def stx(self, st, addr, n, v):
        if not isT(addr): return self.store_bytes(st, addr, n, v)
        alts = self.addr_alts(st, addr)
        if len(alts) == 1: return self.store_bytes(st, alts[0][1], n, v)
        if isT(v) and v.w != 8 * n: v = T.zext(v, v.w, 8 * n)
        for c, a in alts:
            old = self.load_bytes(st, a, n)
            self.store_bytes(st, a, n, T.ite(c, v, old, 8 * n))

    def addr_alts(self, st, addr):
        """[(cond, concrete address)] covering all feasible addresses"""
        if addr.id in st.conc: return [(1, st.conc[addr.id])]
        # ite tree
        out = []
        def walk(t, conds, d):
            if not isT(t):
                c = 1
                for x in conds: c = T.and_(c, x, 1)
                out.append((c, t)); return True
            if t.op == 'ite' and d < 12:
                return walk(t.args[1], conds + [t.args[0]], d + 1) and walk(t.args[2], conds + [T.not_(t.args[0])], d + 1)
            return False
        if walk(addr, [], 0):
            # drop infeasible ones cheaply: merge equal addresses
            m = {}
            for c, a in out:
                m[a] = T.or_(m[a], c, 1) if a in m else c
            return [(c, a) for a, c in m.items()]
        vals = self.enum_values(st, addr, 64)
        if vals is None:
            raise EngineError('symbolic address with too many targets')
        return [(T.eq(addr, v, 64), v) for v in vals]

    def enum_values(self, st, t, limit):
        """all feasible concrete values of t under pc (None if > limit)"""
        key = ('enum', t.id, len(st.pc))
        vals = []
        cond = []
        if st.env is not None:
            vals.append(T.evaluate(t, st.env, st.ecache))
            cond.append(T.not_(T.eq(t, vals[0], t.w)))
        while True:
            r, env = self.solver.check(st.pc, cond if cond else [T.eq(t, t, t.w)], st.env) if cond else ('sat', st.env or {})
            if r == 'unsat': return vals
            if r == 'unknown':
                raise EngineError('cannot enumerate values (solver unknown)')
            v = T.evaluate(t, env, {})
            if v in vals: raise EngineError('enumeration loop')
            vals.append(v)
            cond.append(T.not_(T.eq(t, v, t.w)))
            if len(vals) > limit: return None

    def unique(self, st, t):
        """replace a float term by its value when the path condition determines it"""
        v = st.conc.get(t.id)
        if v is not None: return v
        if ('nu', t.id) in st.conc or st.env is None: return t
        v = T.evaluate(t, st.env, st.ecache)
        if T.isnan(v, t.w) or T.b2f(v, t.w) == 0: return t
        r, env = self.solver.check(st.pc, [T.not_(T.feq(t, v, t.w))], st.env)
        if r == 'unsat':
            st.conc[t.id] = v
            return v
        st.conc[('nu', t.id)] = 1
        return t

    def concretize(self, st, t, limit=256):
        """fork so that t is concrete"""
        if not isT(t): return t
        v = st.conc.get(t.id)
        if v is not None: return v
        vals = self.enum_values(st, t, limit)
        if vals is None: raise EngineError('concretize: more than %d values for %r' % (limit, t))
        if len(vals) == 1:
            st.conc[t.id] = vals[0]
            return vals[0]
        raise ForkValues([([T.eq(t, v, t.w)], (t.id, v)) for v in vals])

    # ------------------------------------------------------------- code gen
    def code(self, sym):
        c = self.codes.get(sym)
        if c is None:
            c = self.compile(sym)
            self.codes[sym] = c
        return c

    def compile(self, sym):
        f = self.mod.func(sym)
        c = Code(); c.name = sym
        # branchless sorting code selects pointers by comparison results: fork there, so that addresses stay concrete
        self.in_sort = '5slice4sort' in sym
        bidx = {b: i for i, b in enumerate(f.order)}
        c.blocks = []
        for b in f.order:
            phis = []; body = []; term = None
            for line in f.blocks[b]:
                try:
                    ins = self.mod.parse_instr(line, f)
                except Exception as e:
                    msg = 'parse: %s' % e
                    body.append(self.mk_error(msg))
                    if line.startswith(('br', 'ret', 'switch', 'unreachable')): term = ('unreachable',)
                    continue
                if ins.op == 'phi':
                    phis.append((ins.dst, {bidx.get(lb, 0): v for v, lb in ins.a}))
                elif ins.op in ('br', 'switch', 'ret', 'unreachable', 'invoke'):
                    if ins.op == 'invoke':
                        body.append(self.gen_call(ins))
                        term = ('jmp', bidx[ins.x[1]])
                    elif ins.op == 'br':
                        if len(ins.x) == 1: term = ('jmp', bidx[ins.x[0]])
                        else: term = ('br', ins.a[0], bidx[ins.x[0]], bidx[ins.x[1]])
                    elif ins.op == 'switch':
                        term = ('switch', ins.a[0], ins.ty.n, bidx[ins.x[0]], [(v, bidx[l]) for v, l in ins.x[1]])
                    elif ins.op == 'ret':
                        term = ('ret', ins.a[0] if ins.a else None)
                    else:
                        term = ('unreachable',)
                    break
                else:
                    k = self.gen(ins)
                    if k is not None: body.append(k)
            if term is None: term = ('unreachable',)
            c.blocks.append((self.phi_by_pred(phis), body, term))
        c.nregs = len(f.slots)
        c.params = f.params
        return c

    def phi_by_pred(self, phis):
        if not phis: return None
        m = {}
        for d, inc in phis:
            for b, v in inc.items():
                m.setdefault(b, []).append((d, v[0] == 'r', v[1]))
        return m

    def mk_error(self, msg):
        def err(st, R): raise EngineError(msg)
        return err

    def gen(self, ins):
        op = ins.op
        m = getattr(self, 'g_' + op, None)
        if m: return m(ins)
        if op in BIN: return self.gen_bin(ins)
        if op in ('call',): return self.gen_call(ins)
        return self.mk_error('unsupported ' + ins.line[:120])

    def gen_bin(self, ins):
        fn = BIN[ins.op]; ty = ins.ty; d = ins.dst
        (ka, a), (kb, b) = ins.a
        if ty.k == 'v':
            w = ty.el.n
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                R[d] = tuple(fn(p, q, w) for p, q in zip(x, y))
            return f
        w = ty.n
        if ins.op == 'add':
            mk_ = mask(w)
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                if x.__class__ is int and y.__class__ is int: R[d] = (x + y) & mk_
                else: R[d] = fn(x, y, w)
            return f
        if ins.op == 'fdiv' and self.o.get('uniq'):
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                if isT(y): y = self.unique(st, y)
                if isT(x) and not isT(y): x = self.unique(st, x)
                R[d] = fn(x, y, w)
            return f
        if kb == 'c' and ka == 'r':
            def f(st, R): R[d] = fn(R[a], b, w)
        elif ka == 'r':
            def f(st, R): R[d] = fn(R[a], R[b], w)
        else:
            def f(st, R): R[d] = fn(a, R[b] if kb == 'r' else b, w)
        return f

    def g_fneg(self, ins):
        d = ins.dst; k, a = ins.a[0]; ty = ins.ty
        if ty.k == 'v':
            w = ty.el.n
            def f(st, R): R[d] = tuple(T.fneg(x, w) for x in (R[a] if k == 'r' else a))
            return f
        w = ty.n
        def f(st, R): R[d] = T.fneg(R[a] if k == 'r' else a, w)
        return f

    def g_icmp(self, ins):
        d = ins.dst; (ka, a), (kb, b) = ins.a; pred = ins.x
        fn = ICMP[pred]
        ty = ins.ty
        if ty.k == 'v':
            w = ty.el.n
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                R[d] = tuple(fn(p, q, w) for p, q in zip(x, y))
            return f
        w = ty.n
        if pred == 'eq':
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                if x.__class__ is int and y.__class__ is int: R[d] = 1 if x == y else 0
                else: R[d] = fn(x, y, w)
            return f
        def f(st, R):
            R[d] = fn(R[a] if ka == 'r' else a, R[b] if kb == 'r' else b, w)
        return f

    def g_fcmp(self, ins):
        d = ins.dst; (ka, a), (kb, b) = ins.a; fn = FCMP[ins.x]
        ty = ins.ty
        if ty.k == 'v':
            w = ty.el.n
            def f(st, R):
                x = R[a] if ka == 'r' else a
                y = R[b] if kb == 'r' else b
                R[d] = tuple(fn(p, q, w) for p, q in zip(x, y))
            return f
        w = ty.n
        def f(st, R):
            R[d] = fn(R[a] if ka == 'r' else a, R[b] if kb == 'r' else b, w)
        return f

    def ite_any(self, c, x, y, ty):
        if ty.k in 'ipf': return T.ite(c, x, y, ty.n)
        if ty.k in 'av': return tuple(self.ite_any(c, p, q, ty.el) for p, q in zip(x, y))
        return tuple(self.ite_any(c, p, q, e) for p, q, e in zip(x, y, ty.el))

    def g_select(self, ins):
        d = ins.dst; (kc, c), (ka, a), (kb, b) = ins.a; ty = ins.ty
        vec = ins.x.k == 'v'
        ite_any = self.ite_any
        def f(st, R):
            cv = R[c] if kc == 'r' else c
            x = R[a] if ka == 'r' else a
            y = R[b] if kb == 'r' else b
            if vec:
                R[d] = tuple(ite_any(p, q, r, ty.el) for p, q, r in zip(cv, x, y)); return
            if cv.__class__ is int: R[d] = x if cv else y
            else: R[d] = ite_any(cv, x, y, ty)
        if self.in_sort and not vec and ty.k in 'pi':
            def g(st, R):
                cv = R[c] if kc == 'r' else c
                if cv.__class__ is int: return f(st, R)
                cv = self.forked_bool(st, cv)
                R[d] = (R[a] if ka == 'r' else a) if cv else (R[b] if kb == 'r' else b)
            return g
        return f

    def forked_bool(self, st, c):
        k = ('b', c.id)
        v = st.conc.get(k)
        if v is None:
            v = self.implied(st, c)
            if v is None: raise ForkValues([([c], (k, 1)), ([T.not_(c)], (k, 0))])
        return v

    def g_freeze(self, ins):
        d = ins.dst; k, a = ins.a[0]
        def f(st, R): R[d] = R[a] if k == 'r' else a
        return f

    def cast1(self, op, ft, tt):
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            fw, tw = ft.n, tt.n
            if fw == tw: return lambda v: v
            if fw > tw: return lambda v: T.extract(v, tw - 1, 0)
            return lambda v: T.zext(v, fw, tw)
        if op == 'trunc':
            tw = tt.n; mk_ = mask(tw)
            return lambda v: (v & mk_) if v.__class__ is int else T.extract(v, tw - 1, 0)
        if op == 'zext': return lambda v: T.zext(v, ft.n, tt.n)
        if op == 'sext': return lambda v: T.sext(v, ft.n, tt.n)
        if op == 'fpext': return lambda v: T.fpext(v)
        if op == 'fptrunc': return lambda v: T.fptrunc(v)
        if op == 'sitofp': return lambda v: T.sitofp(v, ft.n, tt.n)
        if op == 'uitofp': return lambda v: T.uitofp(v, ft.n, tt.n)
        if op == 'fptosi': return lambda v: T.fptosi_sat(v, ft.n, tt.n)
        if op == 'fptoui': return lambda v: T.fptoui_sat(v, ft.n, tt.n)
        raise EngineError('cast ' + op)

    def gen_cast(self, ins):
        d = ins.dst; k, a = ins.a[0]; ft, tt = ins.x, ins.ty
        if ins.op == 'bitcast':
            def f(st, R): R[d] = self.bitcast(R[a] if k == 'r' else a, ft, tt)
            return f
        if tt.k == 'v':
            g = self.cast1(ins.op, ft.el, tt.el)
            def f(st, R): R[d] = tuple(g(x) for x in (R[a] if k == 'r' else a))
            return f
        g = self.cast1(ins.op, ft, tt)
        if self.in_sort and ins.op in ('zext', 'sext') and ft.n == 1:
            def f(st, R):
                v = R[a] if k == 'r' else a
                if v.__class__ is not int: v = self.forked_bool(st, v)
                R[d] = g(v)
            return f
        def f(st, R): R[d] = g(R[a] if k == 'r' else a)
        return f
    g_trunc = g_zext = g_sext = g_fpext = g_fptrunc = g_sitofp = g_uitofp = g_fptosi = g_fptoui = g_ptrtoint = g_inttoptr = g_bitcast = g_addrspacecast = g_ptrtoaddr = gen_cast

    def bitcast(self, v, ft, tt):
        if ft.k != 'v' and tt.k != 'v': return v
        if ft.k == 'v':
            w = ft.el.n; r = None; tw = 0
            for e in v:
                r = e if r is None else T.concat(e, r, w, tw)
                tw += w
        else:
            r = v
        if tt.k == 'v':
            w = tt.el.n
            return tuple(T.extract(r, (i + 1) * w - 1, i * w) for i in range(tt.n))
        return r

    def g_alloca(self, ins):
        d = ins.dst; sz = ins.ty.size; k, c = ins.a[0]
        def f(st, R):
            n = R[c] if k == 'r' else c
            a = self.alloc(st, sz * self.concretize(st, n))
            st.frames[-1].allocas.append(a >> 32)
            R[d] = a
        return f

    def g_load(self, ins):
        d = ins.dst; k, a = ins.a[0]; ty = ins.ty
        if ty.k in 'fp' or (ty.k == 'i' and ty.n in (8, 16, 32, 64)):
            n = ty.size; lb = self.load_bytes; ldx = self.ldx
            def f(st, R):
                ad = R[a] if k == 'r' else a
                R[d] = lb(st, ad, n) if ad.__class__ is int else ldx(st, ad, n)
            return f
        def f(st, R): R[d] = self.load(st, R[a] if k == 'r' else a, ty)
        return f

    def g_store(self, ins):
        (kv, v), (k, a) = ins.a; ty = ins.ty
        if ty.k in 'fp' or (ty.k == 'i' and ty.n in (8, 16, 32, 64)):
            n = ty.size
            def f(st, R):
                ad = R[a] if k == 'r' else a
                x = R[v] if kv == 'r' else v
                if ad.__class__ is int: self.store_bytes(st, ad, n, x)
                else: self.stx(st, ad, n, x)
            return f
        def f(st, R): self.store(st, R[a] if k == 'r' else a, ty, R[v] if kv == 'r' else v)
        return f

    def g_getelementptr(self, ins):
        d = ins.dst; kb, base = ins.a[0]; st_ = ins.ty
        const = 0; dyn = []
        cur = st_; first = True
        for it, (k, v) in ins.x:
            if first:
                scale = cur.size; first = False
            elif cur.k == 's':
                const += cur.offs[v]; cur = cur.el[v]; continue
            else:
                cur = cur.el; scale = cur.size
            if k == 'c': const += sgn(v, it.n) * scale
            else: dyn.append((v, it.n, scale))
        const &= M64
        if not dyn:
            def f(st, R):
                b = R[base] if kb == 'r' else base
                R[d] = (b + const) & M64 if b.__class__ is int else T.add(b, const, 64)
            return f
        def f(st, R):
            r = R[base] if kb == 'r' else base
            for v, n, s in dyn:
                x = R[v]
                if x.__class__ is int:
                    x = (sgn(x, n) * s) & M64
                    r = (r + x) & M64 if r.__class__ is int else T.add(r, x, 64)
                else:
                    if n < 64: x = T.sext(x, n, 64)
                    r = T.add(r, T.mul(x, s, 64), 64)
            if const: r = (r + const) & M64 if r.__class__ is int else T.add(r, const, 64)
            R[d] = r
        return f

    def g_extractvalue(self, ins):
        d = ins.dst; k, a = ins.a[0]; path = ins.x
        def f(st, R):
            v = R[a] if k == 'r' else a
            for i in path: v = v[i]
            R[d] = v
        return f

    def g_insertvalue(self, ins):
        d = ins.dst; (ka, a), (kb, b) = ins.a; path = ins.x
        def ins_(v, path, x):
            l = list(v)
            l[path[0]] = x if len(path) == 1 else ins_(l[path[0]], path[1:], x)
            return tuple(l)
        def f(st, R):
            R[d] = ins_(R[a] if ka == 'r' else a, path, R[b] if kb == 'r' else b)
        return f

    def g_extractelement(self, ins):
        d = ins.dst; (ka, a), (kb, b) = ins.a
        def f(st, R):
            v = R[a] if ka == 'r' else a
            i = R[b] if kb == 'r' else b
            R[d] = v[self.concretize(st, i)]
        return f

    def g_insertelement(self, ins):
        d = ins.dst; (ka, a), (kb, b), (kc, c) = ins.a
        def f(st, R):
            l = list(R[a] if ka == 'r' else a)
            l[self.concretize(st, R[c] if kc == 'r' else c)] = R[b] if kb == 'r' else b
            R[d] = tuple(l)
        return f

    def g_shufflevector(self, ins):
        d = ins.dst; (ka, a), (kb, b), (kc, c) = ins.a
        def f(st, R):
            l = list(R[a] if ka == 'r' else a) + list(R[b] if kb == 'r' else b)
            R[d] = tuple(l[i] if i < len(l) else 0 for i in c)
        return f

    def g_fence(self, ins): return None

    def g_atomicrmw(self, ins):
        d = ins.dst; (ka, a), (kv, v) = ins.a; ty = ins.ty; op = ins.x
        w = ty.n
        def f(st, R):
            ad = R[a] if ka == 'r' else a
            x = R[v] if kv == 'r' else v
            old = self.load(st, ad, ty)
            if op == 'xchg': n = x
            elif op == 'umax': n = T.ite(T.ult(old, x, w), x, old, w)
            elif op == 'umin': n = T.ite(T.ult(x, old, w), x, old, w)
            elif op == 'nand': n = T.xor(T.and_(old, x, w), mask(w), w)
            else: n = BIN[op](old, x, w)
            self.store(st, ad, ty, n)
            if d is not None: R[d] = old
        return f

    def g_cmpxchg(self, ins):
        d = ins.dst; (ka, a), (kc, c), (kn, n) = ins.a; ty = ins.ty
        def f(st, R):
            ad = R[a] if ka == 'r' else a
            old = self.load(st, ad, ty)
            ok = T.eq(old, R[c] if kc == 'r' else c, ty.n)
            self.store(st, ad, ty, T.ite(ok, R[n] if kn == 'r' else n, old, ty.n))
            if d is not None: R[d] = (old, ok)
        return f

    # --------------------------------------------------------------- calls
    def gen_call(self, ins):
        (ck, cv), normal, noret = ins.x
        d = ins.dst
        args = [(v[0] == 'r', v[1]) for ty, v in ins.a]
        tys = [ty for ty, v in ins.a]
        rty = ins.ty
        if ck == 'asm':
            txt = cv
            def f(st, R):
                if 'cpuid' in txt:
                    R[d] = self.zero_of(rty); return
                if rty is VOID or d is None: return
                if rty.k in 'ipf' and len(args) == 1:      # black_box style
                    R[d] = R[args[0][1]] if args[0][0] else args[0][1]; return
                raise EngineError('inline asm ' + txt)
            return f
        if ck in ('r', 'c'):
            def f(st, R):
                p = R[cv] if ck == 'r' else cv
                if isT(p): p = self.concretize(st, p)
                sym = self.mod.addr2func.get(p)
                if sym is None: raise EngineError('indirect call to %x' % p)
                h = self.handler(sym, tys, rty, noret)
                vals = [R[v] if r else v for r, v in args]
                if h is None: return (sym, vals, d)
                r = h(st, vals)
                if d is not None: R[d] = r
            return f
        sym = cv
        h = self.handler(sym, tys, rty, noret)
        if h is None:
            def f(st, R):
                return (sym, [R[v] if r else v for r, v in args], d)
            return f
        if h is NOP: return None
        def f(st, R):
            r = h(st, [R[v] if k else v for k, v in args])
            if d is not None: R[d] = r
        return f

    def zero_of(self, ty):
        if ty.k in 'ipf': return 0
        if ty.k in 'av': return (self.zero_of(ty.el),) * ty.n
        if ty.k == 's': return tuple(self.zero_of(e) for e in ty.el)
        return 0

    def handler(self, sym, tys, rty, noret):
        import intrinsics
        return intrinsics.lookup(self, sym, tys, rty, noret)

    # ------------------------------------------------------------ solver glue
    def truth(self, st, c):
        """evaluate cond under st.env -> 0/1/None"""
        if st.env is None: return None
        return T.evaluate(c, st.env, st.ecache)

    def add_pc(self, st, c):
        """add c (known feasible).  Splits conjunctions."""
        if not isT(c): return
        if c.op == 'and' and c.w == 1:
            self.add_pc(st, c.args[0]); self.add_pc(st, c.args[1]); return
        if c.op == 'not' and c.args[0].op == 'or':
            self.add_pc(st, T.not_(c.args[0].args[0])); self.add_pc(st, T.not_(c.args[0].args[1])); return
        if c.id in st.pcset: return
        st.pcset.add(c.id)
        st.pc.append(c)

    def implied(self, st, c):
        """syntactic: 1 if c in pc, 0 if not c in pc, else None"""
        if c.id in st.pcset: return 1
        n = T.not_(c)
        if n.id in st.pcset: return 0
        return None

    def set_env(self, st, env):
        st.env = env
        st.ecache = {}

    def assume(self, st, c):
        if not isT(c):
            if not c: raise PathEnd('infeasible')
            return
        k = self.implied(st, c)
        if k == 1: return
        if k == 0: raise PathEnd('infeasible')
        if self.truth(st, c):
            self.add_pc(st, c); return
        r, env = self.solver.check(st.pc, [c], st.env)
        if r == 'unsat': raise PathEnd('infeasible')
        self.add_pc(st, c)
        self.set_env(st, env if r == 'sat' else None)

    def do_assert(self, st, c, aid):
        self.reached[aid] = self.reached.get(aid, 0) + 1
        if not isT(c):
            if c:
                self.trivial += 1
                return
            # fails on this whole path: need a model
            self.report(st, aid, 'assert', [])
            raise PathEnd('violated')
        k = self.implied(st, c)
        if k == 1:
            self.proved += 1; return
        nc = T.not_(c)
        if self.truth(st, c) == 0:
            self.report(st, aid, 'assert', [nc], st.env)
        else:
            r, env = self.solver.check(st.pc, [nc], st.env, timeout_ms=self.o.get('assert_ms', 10000), hard=self.assert_hard)
            if r == 'unsat':
                self.proved += 1
                self.add_pc(st, c)      # harmless: implied
                return
            if r == 'sat': self.report(st, aid, 'assert', [nc], env)
            else:
                self.unknown_asserts.append((aid, len(st.pc), nc.size))
                if self.o.get('verbose'): print('UNKNOWN assert', aid, repr(c)[:300])
        # continue under c
        self.assume(st, c)

    def report(self, st, aid, kind, extra, env=None, detail=''):
        if env is None:
            env = st.env
            if env is None:
                r, env = self.solver.check([], list(st.pc) + list(extra), None, timeout_ms=20000, hard=60) if st.pc else ('sat', {})
                if r == 'unsat': return False
                if r != 'sat':
                    self.unknown_asserts.append((aid, len(st.pc), -1)); return False
        vals = []
        for kind_, t in st.inputs:
            vals.append((kind_, T.evaluate(t, env, {}) if isT(t) else t))
        v = {'kind': kind, 'assert': aid, 'inputs': vals, 'detail': detail}
        self.violations.append(v)
        lim = self.o.get('max_viol', 1)
        if len(self.violations) >= lim and self.stop_on_violation: raise Halt()
        return True

    # --------------------------------------------------------------- running
    def new_frame(self, st, sym, vals, dst):
        code = self.code(sym)
        f = Frame.__new__(Frame)
        f.code = code
        # slots dict may grow while parsing; nregs fixed after compile
        R = [None] * code.nregs
        for (s, ty), v in zip(code.params, vals): R[s] = v
        f.regs = R; f.blk = 0; f.ip = 0; f.prev = -1; f.dst = dst; f.allocas = []
        st.frames.append(f)
        if len(st.frames) > 400: raise EngineError('call depth')
        if sym not in self.entered: self.entered.add(sym)

    def run(self, entry, seed_choices=None):
        self.t0 = time.time()
        st = State.__new__(State)
        st.frames = []; st.objs = {}; st.owned = set(); st.next_obj = 1 << 20
        st.pc = []; st.pcset = set(); st.env = {}; st.ecache = {}; st.conc = {}
        st.inputs = []; st.steps = 0; st.nin = 0; st.tls = {}; st.choices = []; st.dbg = None; st.bdepth = 0
        self.forced = list(seed_choices or [])
        self.new_frame(st, '@' + entry, [], None)
        self.stack = [st]
        self.complete = True
        try:
            while self.stack:
                if self.deadline and time.time() > self.deadline:
                    self.complete = False; break
                if self.paths >= self.max_paths:
                    self.complete = False; break
                s = self.stack.pop()
                self.paths += 1
                try:
                    self.run_path(s)
                except PathEnd as e:
                    k = str(e)
                    if k == 'infeasible': self.infeasible += 1; self.paths -= 1
                    elif k == 'done':
                        self.completed += 1
                        if (len(self.samples) < self.o.get('max_samples', 6) or self.completed % 97 == 0 and len(self.samples) < 20) and s.env is not None:
                            self.samples.append(([(k_, T.evaluate(t, s.env, {}) if isT(t) else t) for k_, t in s.inputs],
                                                 [T.evaluate(t, s.env, {}) if isT(t) else t for t in s.tls.get('obs', ())]))
                except EngineError as e:
                    self.errors.append(str(e) + ' @ ' + (s.frames[-1].code.name if s.frames else '?')[-90:])
                    self.complete = False
                    if len(self.errors) > 20: break
                self.total_steps += s.steps
        except Halt:
            self.complete = False
        return self

    def fork_on(self, st, c):
        """branch on symbolic cond; returns chosen 0/1, pushes the other if feasible"""
        k = self.implied(st, c)
        if k is not None: return k
        tv = self.truth(st, c)
        if tv is None:
            # no model: check both
            r1, e1 = self.solver.check(st.pc, [c], None)
            if r1 == 'unsat':
                self.add_pc(st, T.not_(c)); return 0
            r0, e0 = self.solver.check(st.pc, [T.not_(c)], None)
            if r0 == 'unsat':
                self.add_pc(st, c); return 1
            o = st.fork()
            self.add_pc(o, T.not_(c)); self.add_pc(st, c)
            self.forks += 1
            return (1, o, 0)
        want = c if tv else T.not_(c)
        other = T.not_(want)
        r, env = self.solver.check(st.pc, [other], st.env)
        if r == 'unsat':
            self.add_pc(st, want)
            return tv
        o = st.fork()
        self.forks += 1
        self.add_pc(st, want); self.add_pc(o, other)
        self.set_env(o, env if r == 'sat' else None)
        return (tv, o, 1 - tv)

    def run_path(self, st):
        frames = st.frames
        max_steps = self.max_steps
        while True:
            fr = frames[-1]
            R = fr.regs
            phis, body, term = fr.code.blocks[fr.blk]
            ip = fr.ip
            n = len(body)
            called = False
            try:
                while ip < n:
                    r = body[ip](st, R)
                    ip += 1
                    if r is not None:
                        fr.ip = ip
                        st.steps += ip
                        self.new_frame(st, r[0], r[1], r[2])
                        called = True
                        break
            except ForkValues as fv:
                fr.ip = ip
                self.apply_forks(st, fv)
                continue
            except PathEnd:
                raise
            if called: continue
            st.steps += n + 1
            if st.steps > max_steps:
                self.bound_hits.append(st.steps)
                self.on_bound(st)
                raise PathEnd('bound')
            k = term[0]
            if k == 'jmp':
                self.goto(fr, term[1])
            elif k == 'br':
                kc, c = term[1]
                cv = R[c] if kc == 'r' else c
                if cv.__class__ is not int:
                    fr.ip = n
                    cv = self.fork_on(st, cv)
                    if cv.__class__ is tuple:
                        cv, other, ov = cv
                        ofr = other.frames[-1]
                        self.goto(ofr, term[2] if ov else term[3])
                        self.stack.append(other)
                self.goto(fr, term[2] if cv else term[3])
                if self.deadline and (st.steps & 1023) < 8 and time.time() > self.deadline:
                    self.complete = False; raise PathEnd('deadline')
            elif k == 'ret':
                rv = term[1]
                v = None
                if rv is not None: v = R[rv[1]] if rv[0] == 'r' else rv[1]
                for oid in fr.allocas: st.objs.pop(oid, None)
                frames.pop()
                if not frames: raise PathEnd('done')
                if fr.dst is not None: frames[-1].regs[fr.dst] = v
            elif k == 'switch':
                kc, c = term[1]
                cv = R[c] if kc == 'r' else c
                if cv.__class__ is int:
                    t = term[3]
                    for v, b in term[4]:
                        if v == cv: t = b; break
                    self.goto(fr, t)
                else:
                    fr.ip = n
                    self.do_switch(st, fr, cv, term)
            else:
                raise EngineError('reached unreachable')

    def do_switch(self, st, fr, cv, term):
        w = term[2]
        groups = {}
        neg = 1
        for v, b in term[4]:
            e = T.eq(cv, v, w)
            groups[b] = T.or_(groups[b], e, 1) if b in groups else e
            neg = T.and_(neg, T.not_(e), 1)
        groups[term[3]] = T.or_(groups[term[3]], neg, 1) if term[3] in groups else neg
        alts = []
        for b, c in groups.items():
            if not isT(c):
                if not c: continue
                self.goto(fr, b); return
            tv = self.truth(st, c)
            if tv: alts.append((b, c, st.env)); continue
            r, env = self.solver.check(st.pc, [c], st.env)
            if r == 'unsat': continue
            alts.append((b, c, env if r == 'sat' else None))
        if not alts: raise PathEnd('infeasible')
        for b, c, env in alts[1:]:
            o = st.fork()
            self.forks += 1
            self.add_pc(o, c); self.set_env(o, env)
            self.goto(o.frames[-1], b)
            self.stack.append(o)
        b, c, env = alts[0]
        self.add_pc(st, c); self.set_env(st, env)
        self.goto(fr, b)

    def on_bound(self, st):
        if self.o.get('bound_is_violation'):
            self.report(st, 'nontermination', 'bound', [])

    def apply_forks(self, st, fv):
        """fork st over alternatives; st continues with the first"""
        alts = []
        for conds, setup in fv.alts:
            cs = [c for c in conds if isT(c)]
            if any((not isT(c)) and not c for c in conds): continue
            env = st.env
            if cs:
                ok = env is not None and all(T.evaluate(c, env, st.ecache) for c in cs)
                if not ok:
                    r, env = self.solver.check(st.pc, cs, st.env)
                    if r == 'unsat': continue
                    if r == 'unknown': env = None
            alts.append((cs, setup, env))
        if not alts: raise PathEnd('infeasible')
        for cs, setup, env in alts[1:]:
            o = st.fork()
            self.forks += 1
            for c in cs: self.add_pc(o, c)
            self.set_env(o, env)
            if setup is not None: o.conc[setup[0]] = setup[1]
            self.stack.append(o)
        cs, setup, env = alts[0]
        for c in cs: self.add_pc(st, c)
        self.set_env(st, env)
        if setup is not None: st.conc[setup[0]] = setup[1]

    def goto(self, fr, b):
        phis = fr.code.blocks[b][0]
        if phis is not None:
            R = fr.regs
            inc = phis[fr.blk]
            if len(inc) == 1:
                d, isr, v = inc[0]
                R[d] = R[v] if isr else v
            else:
                vals = [R[v] if isr else v for d, isr, v in inc]
                for (d, _, _), v in zip(inc, vals): R[d] = v
        fr.blk = b
        fr.ip = 0


BIN = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem, 'and': T.and_, 'or': T.or_,
       'xor': T.xor, 'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr, 'fadd': T.fadd, 'fsub': T.fsub, 'fmul': T.fmul, 'fdiv': T.fdiv, 'frem': T.frem}
ICMP = {'eq': T.eq, 'ne': lambda a, b, w: T.not_(T.eq(a, b, w)), 'ult': T.ult, 'ule': T.ule, 'ugt': lambda a, b, w: T.ult(b, a, w),
        'uge': lambda a, b, w: T.ule(b, a, w), 'slt': T.slt, 'sle': T.sle, 'sgt': lambda a, b, w: T.slt(b, a, w), 'sge': lambda a, b, w: T.sle(b, a, w)}


def _ord(a, b, w): return T.and_(T.not_(T.fisnan(a, w)), T.not_(T.fisnan(b, w)), 1)


FCMP = {'oeq': T.feq, 'olt': T.flt, 'ole': T.fle, 'ogt': lambda a, b, w: T.flt(b, a, w), 'oge': lambda a, b, w: T.fle(b, a, w),
        'one': lambda a, b, w: T.or_(T.flt(a, b, w), T.flt(b, a, w), 1), 'ord': _ord, 'uno': lambda a, b, w: T.not_(_ord(a, b, w)),
        'ueq': lambda a, b, w: T.not_(T.or_(T.flt(a, b, w), T.flt(b, a, w), 1)), 'une': lambda a, b, w: T.not_(T.feq(a, b, w)),
        'ult': lambda a, b, w: T.not_(T.fle(b, a, w)), 'ule': lambda a, b, w: T.not_(T.flt(b, a, w)),
        'ugt': lambda a, b, w: T.not_(T.fle(a, b, w)), 'uge': lambda a, b, w: T.not_(T.flt(a, b, w)), 'true': lambda a, b, w: 1, 'false': lambda a, b, w: 0}
NOP = object()
