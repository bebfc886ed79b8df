"""Portfolio for obligations z3 did not settle quickly: bit-blast + kissat, cvc5, z3 (long)."""
import os, re, subprocess, tempfile, time, shutil, signal
import z3
from terms import *

KISSAT = shutil.which('kissat') or '/usr/local/bin/kissat'
CVC5 = shutil.which('cvc5')
Z3N = shutil.which('z3-new') or shutil.which('z3')


def run_portfolio(s, solver, vs, budget):
    """-> ('unsat'|'sat'|'unknown', env or None)"""
    d = tempfile.mkdtemp(prefix='vpq')
    procs = []
    try:
        smt = s.to_smt2()
        vars_ = [VARS[v] for v in vs]
        gets = []
        for t in vars_:
            gets.append(t)
        # cvc5
        txt = '(set-logic QF_BVFP)\n' + re.sub(r'\(set-info[^)]*\)', '', smt)
        p1 = os.path.join(d, 'a.smt2')
        names = ' '.join('|%s|' % t.x[0] for t in vars_)
        body = txt.rstrip()
        body = body.replace('(set-logic QF_BVFP)', '(set-option :produce-models true)\n(set-logic QF_BVFP)', 1)
        with open(p1, 'w') as f:
            f.write(body)
            if names: f.write('\n(get-value (%s))\n' % names)
        if CVC5:
            procs.append(('cvc5', subprocess.Popen([CVC5, '--fp-exp', '--tlimit=%d' % int(budget * 1000), p1], stdout=open(d + '/cvc5.out', 'w'), stderr=subprocess.DEVNULL, preexec_fn=os.setsid), d + '/cvc5.out'))
        # kissat
        cnf = None
        try:
            g = z3.Goal()
            bits = {}
            for c in s.assertions(): g.add(c)
            for t in vars_:
                n = solver.tr.tbv(t)
                if t.x[1] == 'f':
                    bvv = z3.BitVec('bits!%d' % t.id, t.w)
                    g.add(z3.fpBVToFP(bvv, z3.Float32() if t.w == 32 else z3.Float64()) == solver.tr.tfp(t, t.w))
                    n = bvv
                for i in range(t.w):
                    b = z3.Bool('vb!%d!%d' % (t.id, i))
                    g.add(b == (z3.Extract(i, i, n) == z3.BitVecVal(1, 1)))
            tac = z3.TryFor(z3.Then(z3.Tactic('simplify'), z3.Tactic('fpa2bv'), z3.Tactic('simplify'), z3.With(z3.Tactic('simplify'), blast_distinct=True), z3.Tactic('bit-blast'), z3.Tactic('simplify'), z3.Tactic('tseitin-cnf')), int(budget * 500))
            r = tac(g)
            if len(r) == 1:
                gg = r[0]
                if gg.inconsistent(): return 'unsat', None
                cnf = gg.dimacs()
                with open(d + '/a.cnf', 'w') as f: f.write(cnf)
                procs.append(('kissat', subprocess.Popen([KISSAT, '-q', '--time=%d' % int(budget), d + '/a.cnf'], stdout=open(d + '/kissat.out', 'w'), stderr=subprocess.DEVNULL, preexec_fn=os.setsid), d + '/kissat.out'))
        except z3.Z3Exception:
            pass
        t0 = time.time()
        left = list(procs)
        while left and time.time() - t0 < budget + 5:
            for it in list(left):
                nm, p, out = it
                if p.poll() is None: continue
                left.remove(it)
                txt = open(out).read()
                if nm == 'kissat':
                    if 's UNSATISFIABLE' in txt: return 'unsat', None
                    if 's SATISFIABLE' in txt:
                        env = kissat_env(cnf, txt, vars_)
                        if env is not None: return 'sat', env
                else:
                    if txt.startswith('unsat') and '(error' not in txt.split('\n')[0]: return 'unsat', None
                    if txt.startswith('sat'):
                        env = smt_env(txt, vars_)
                        if env is not None: return 'sat', env
            time.sleep(0.02)
        return 'unknown', None
    finally:
        for nm, p, out in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: pass
            p.wait()
        shutil.rmtree(d, ignore_errors=True)


def kissat_env(cnf, txt, vars_):
    val = {}
    for l in txt.split('\n'):
        if l.startswith('v '):
            for x in l[2:].split():
                n = int(x)
                if n: val[abs(n)] = n > 0
    env = {t.id: 0 for t in vars_}
    ws = {t.id: t for t in vars_}
    for l in cnf.split('\n'):
        if l.startswith('c '):
            p = l.split()
            m = re.match(r'vb!(\d+)!(\d+)', p[2])
            if m and val.get(int(p[1]), False):
                env[int(m.group(1))] |= 1 << int(m.group(2))
    return env


def smt_env(txt, vars_):
    env = {}
    byname = {t.x[0]: t for t in vars_}
    for m in re.finditer(r'\(\|?([A-Za-z0-9_!\-]+)\|?\s+(#b[01]+|#x[0-9a-f]+|\(fp #b([01]) #b([01]+) #b([01]+)\)|\(_ NaN \d+ \d+\)|\(_ ([+-])(oo|zero) (\d+) (\d+)\))\s*\)', txt):
        t = byname.get(m.group(1))
        if t is None: continue
        v = m.group(2)
        if v.startswith('#b'): env[t.id] = int(v[2:], 2)
        elif v.startswith('#x'): env[t.id] = int(v[2:], 16)
        elif v.startswith('(fp'): env[t.id] = int(m.group(3) + m.group(4) + m.group(5), 2)
        elif 'NaN' in v: env[t.id] = NAN32 if t.w == 32 else NAN64
        else:
            sb = 1 if m.group(6) == '-' else 0
            b = 0 if m.group(7) == 'zero' else ((0xff << 23) if t.w == 32 else (0x7ff << 52))
            env[t.id] = b | (sb << (t.w - 1))
    return env if len(env) == len(vars_) else None
