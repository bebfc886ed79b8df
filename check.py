#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property of /repo by symbolic execution of its compiled LLVM IR.

usage: check.py <PROPERTY> [--tier quick|thorough] [--only harness] [--verbose]
exit 0: held on everything explored (or only listed known findings); exit 1: VIOLATION line printed; 2: error of the check
"""
import sys, os, re, json, time, subprocess, shutil, multiprocessing as mp, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(200000)
BUILD = os.environ.get('VP_BUILD', os.path.join(HERE, '.build'))
TC = 'stable-x86_64-unknown-linux-gnu'
REPO = '/repo'


def parse_harness(pid):
    """harness functions and their annotations in harness/<pid>.rs"""
    src = open(os.path.join(HERE, 'harness', pid.lower() + '.rs')).read()
    hs = {}
    for m in re.finditer(r'((?:[ \t]*//@[^\n]*\n)*)[ \t]*fn ((?:h|t)_\w+)\(\) \{', src):
        ann = {}
        txt = ' '.join(l.strip()[3:].strip() for l in m.group(1).splitlines())
        if txt: ann = json.loads('{' + txt + '}')
        hs[m.group(2)] = ann
    # assertion ids mentioned in the body of each harness
    parts = re.split(r'fn ((?:h|t)_\w+)\(\) \{', src)
    for i in range(1, len(parts), 2):
        pass
    head = {}
    m = re.search(r'/\*@(.*?)@\*/', src, re.S)
    if m: head = json.loads(m.group(1))
    return head, hs


def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TC
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_BUILD_TARGET', None)
    return e


def build_ir(pid):
    tgt = os.path.join(BUILD, 'ir')
    e = env()
    e['CARGO_TARGET_DIR'] = tgt
    e['RUSTFLAGS'] = '-C no-vectorize-loops -C no-vectorize-slp'
    out = os.path.join(tgt, 'release/deps/vpir.ll')
    if os.path.exists(out): os.remove(out)
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--features', pid.lower(), '--', '--emit=llvm-ir'],
                       cwd=os.path.join(HERE, 'irlib'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        # cargo may think everything fresh although the .ll is gone
        if r.returncode == 0:
            for f in os.listdir(os.path.join(tgt, 'release/.fingerprint')):
                if f.startswith('vpir-'): shutil.rmtree(os.path.join(tgt, 'release/.fingerprint', f))
            r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--features', pid.lower(), '--', '--emit=llvm-ir'],
                               cwd=os.path.join(HERE, 'irlib'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise SystemExit('ERROR: IR build failed\n' + r.stdout[-4000:])
    return out


def build_replay_start(pid, profile):
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'replay')
    cmd = ['nice', '-n', '5', 'cargo', 'build', '--offline', '--features', pid.lower()] + (['--release'] if profile == 'release' else [])
    log = open(os.path.join(BUILD, 'replay-%s.log' % profile), 'w')
    p = subprocess.Popen(cmd, cwd=os.path.join(HERE, 'replay'), env=e, stdout=log, stderr=subprocess.STDOUT)
    return p


def build_replay_wait(p, profile):
    if p.wait():
        raise SystemExit('ERROR: replay build failed\n' + open(os.path.join(BUILD, 'replay-%s.log' % profile)).read()[-3000:])
    return os.path.join(BUILD, 'replay', 'release' if profile == 'release' else 'debug', 'vpreplay')


def run_native(exe, harness, tier, path, timeout=30):
    """-> (outcome, text)"""
    try:
        r = subprocess.run([exe, harness, '1' if tier == 'thorough' else '0', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    t = r.stdout.decode('utf8', 'replace')
    k = {0: 'ok', 1: 'assert', 101: 'panic', 3: 'diverged', 4: 'assume'}.get(r.returncode, 'crash%d' % r.returncode)
    return k, t


def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for k, v in inputs: f.write('%s %d\n' % (k, v))


# ------------------------------------------------------------------ worker
MOD = None


def work(job):
    name, forced, ann, tier, deadline, verbose = job
    import exec as X
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    o = {'tier': 1 if tier == 'thorough' else 0, 'fmt_real': bool(ann.get('fmt')), 'max_viol': ann.get('max_viol', 3), 'verbose': verbose, 'uniq': bool(ann.get('uniq')),
         'max_steps': ann.get('steps', 2000000), 'bound_is_violation': bool(ann.get('term')),
         'quick_ms': ann.get('quick_ms', 4000), 'assert_ms': ann.get('assert_ms', 10000),
         'assert_hard': ann.get('hard', 60 if tier == 'quick' else 240),
         'deadline': min(deadline, time.time() + ann.get('budget' if tier == 'quick' else 'tbudget', 400 if tier == 'quick' else 1500)),
         'max_samples': 4, 'split': ann.get('tsplit' if tier == 'thorough' and 'tsplit' in ann else 'split', [])}
    t = time.time()
    e = X.Exec(MOD, o)
    err = None
    try:
        e.run(name, forced)
    except Exception as ex:
        import traceback
        err = traceback.format_exc()[-1500:]
    s = e.solver.st
    return {'harness': name, 'forced': forced, 'paths': e.paths, 'completed': e.completed, 'panics': e.panics, 'steps': e.total_steps,
            'violations': e.violations, 'errors': e.errors[:5] + ([err] if err else []), 'unknown': len(e.unknown_asserts),
            'unknown_list': e.unknown_asserts[:5],
            'bound_hits': len(e.bound_hits), 'proved': e.proved, 'trivial': e.trivial, 'reached': {str(k): v for k, v in e.reached.items()},
            'queries': s.queries, 'solver_s': s.time, 'forks': e.forks, 'samples': e.samples, 'stubs': sorted(e.stubs),
            'entered': sorted(e.entered), 'complete': bool(getattr(e, 'complete', False)) and not err, 'wall': time.time() - t,
            'stats': {k: v for k, v in s.__dict__.items() if isinstance(v, (int, float))}}


def demangle(syms):
    out = []
    for s in syms:
        s = s.lstrip('@').strip('"')
        # v0 mangling: collect path identifiers
        ids = re.findall(r'(?<=[a-zA-Z_])(\d+)(?=[A-Za-z_])', s)
        parts = []
        i = 0
        while i < len(s):
            m = re.match(r'(\d+)_?([A-Za-z_].*)', s[i:], re.S)
            if m and s[i - 1:i].isdigit() is False and s[i] != '0':
                n = int(m.group(1)); nm = m.group(2)[:n]
                parts.append(nm); i += len(s[i:]) - len(m.group(2)) + n
            else: i += 1
        parts = [p for p in parts if p]
        out.append('::'.join(parts) if parts else s)
    return sorted(set(out))


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'known']


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    verbose = '--verbose' in args
    noreplay = '--no-replay' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = float(os.environ.get('VP_TIME', 780 if tier == 'quick' else 3300))
    deadline = t0 + total
    os.makedirs(BUILD, exist_ok=True)
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp): os.remove(evp)
    head, hs = parse_harness(pid)
    rp = build_replay_start(pid, 'release') if not noreplay else None
    if '--ll' in args:
        ll = args[args.index('--ll') + 1]
    else:
        ll = build_ir(pid)
    t_build = time.time() - t0
    global MOD
    import ir
    MOD = ir.Module(ll)
    jobs = []
    for h, ann in hs.items():
        if only and h not in only.split(','): continue
        if ann.get('tier') == 'thorough' and tier != 'thorough': continue
        sp = ann.get('tsplit' if tier == 'thorough' and 'tsplit' in ann else 'split', [])
        combos = [[]]
        for n in sp: combos = [c + [i] for c in combos for i in range(n)]
        for c in combos: jobs.append((h, c, ann, tier, deadline - 60, verbose))
    # longest first
    jobs.sort(key=lambda j: -j[2].get('w', 1))
    nproc = min(int(os.environ.get('VP_JOBS', '8')), max(1, len(jobs)))
    res = []
    stop_early = False
    with mp.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, jobs):
            res.append(r)
            if verbose or '--stats' in args:
                print('# %-28s %s paths %d done %d viol %d err %s unk %d bound %d proved %d triv %d q %d solver %.1fs wall %.1fs%s' % (
                    r['harness'], r['forced'] or '', r['paths'], r['completed'], len(r['violations']), [x[-160:] for x in r['errors'][:2]], r['unknown'], r['bound_hits'], r['proved'],
                    r['trivial'], r['queries'], r['solver_s'], r['wall'], '' if r['complete'] else ' INCOMPLETE'), flush=True)
            if r['violations'] and not head.get('collect_all'):
                # one candidate suffices unless it turns out to be listed/unreproducible: keep the rest only if known findings exist
                if not load_known(pid):
                    pool.terminate(); stop_early = True
                    break
    # ------------------------------------------------------------ replay
    known = load_known(pid)
    viol = []; known_hit = {}; nonrep = []
    exes = {}
    def exe(profile):
        if profile not in exes:
            p = rp if profile == 'release' else build_replay_start(pid, 'dev')
            exes[profile] = build_replay_wait(p, profile)
        return exes[profile]
    rdir = os.path.join(HERE, '.build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    nval = 0; disagreements = []
    if not noreplay:
        for r in res:
            ann = hs[r['harness']]
            for v in r['violations']:
                d = hashlib.sha1(repr((r['harness'], v['inputs'], v['assert'])).encode()).hexdigest()[:10]
                path = os.path.join(rdir, '%s-%s-%s.in' % (pid, r['harness'], d))
                write_inputs(path, v['inputs'])
                got = None
                for prof in ('release', 'dev'):
                    for rep in range(ann.get('replays', 1)):
                        k, t = run_native(exe(prof), r['harness'], tier, path)
                        if v['kind'] == 'bound':
                            if k in ('timeout', 'panic', 'assert') or k.startswith('crash'): got = (prof, k, t)
                        elif k in ('assert', 'panic', 'timeout') or k.startswith('crash'): got = (prof, k, t)
                        if got: break
                    if got: break
                if not got:
                    nonrep.append((r['harness'], v, k, t[-300:])); continue
                key = {'harness': r['harness'], 'assert': str(v['assert']), 'inputs': v['inputs'], 'native': got[1], 'text': got[2]}
                kf = match_known(known, key)
                if kf is not None:
                    known_hit.setdefault(kf['id'], (kf, key)); continue
                with open(path + '.json', 'w') as f:
                    json.dump({'property': pid, 'harness': r['harness'], 'tier': tier, 'assert': v['assert'], 'kind': v['kind'], 'inputs': v['inputs'],
                               'native_profile': got[0], 'native_outcome': got[1], 'native_output': got[2][-500:], 'detail': v['detail']}, f, indent=1)
                viol.append((r['harness'], v, got, path))
                break
            if not viol:
                for inputs, obs in r['samples']:
                    path = os.path.join(rdir, 'sample-%s.in' % pid)
                    write_inputs(path, inputs)
                    k, t = run_native(exe('release'), r['harness'], tier, path)
                    nobs = [int(l.split()[1]) for l in t.splitlines() if l.startswith('OBS ')]
                    nval += 1
                    if k != 'ok' or nobs != obs:
                        disagreements.append((r['harness'], k, inputs, [(a, b) for a, b in zip(obs, nobs) if a != b][:4], t[-200:]))
        # known findings: replay the listed input on the real code as well
        if not viol:
            for kf in known:
                if kf['id'] in known_hit or 'inputs' not in kf: continue
                path = os.path.join(rdir, 'known-%s.in' % kf['id'])
                write_inputs(path, kf['inputs'])
                k, t = run_native(exe('release'), kf['harness'], kf.get('tier', 'quick'), path)
                if k not in ('ok', 'diverged', 'assume'): known_hit[kf['id']] = (kf, {'native': k})
        if rp and 'release' not in exes:
            rp.terminate()
    elif any(r['violations'] for r in res):
        for r in res:
            for v in r['violations']: print('#V', r['harness'], v)
    incomplete = [r for r in res if not r['complete'] and not r['violations']]
    unknown = sum(r['unknown'] for r in res)
    reached = {}
    for r in res:
        for k, n in r['reached'].items():
            kk = r['harness'] + '#' + k
            reached[kk] = reached.get(kk, 0) + n
    missing = []
    for h, ann in hs.items():
        if any(r['harness'] == h for r in res):
            for i in ann.get('ids', []):
                if h + '#' + str(i) not in reached: missing.append(h + '#' + str(i))
    funcs = demangle(set(x for r in res for x in r['entered']))
    proved = sum(r['proved'] for r in res); trivial = sum(r['trivial'] for r in res)
    cov = {
        'states': sum(r['paths'] for r in res), 'transitions': sum(r['steps'] for r in res),
        'traces_validated_against_impl': nval,
        'samples': [{'harness': r['harness'], 'inputs': r['samples'][0][0][:40]} for r in res if r['samples']][:12],
        'rule': 'states = symbolic paths (each covers every input satisfying its path condition); transitions = IR instructions executed symbolically',
        'functions_encoded': [f for f in funcs if 'vp_' not in f],
        'bounds': {h: hs[h].get('bounds', '') for h in sorted(set(r['harness'] for r in res))},
        'harness_runs': len(res), 'paths_completed': sum(r['completed'] for r in res),
        'queries_discharged': sum(r['queries'] for r in res), 'solver_s': round(sum(r['solver_s'] for r in res), 2),
        'assertion_instances_proved_by_solver': proved, 'assertion_instances_constant': trivial,
        'assertion_instances_undecided': unknown, 'assertions_reached': reached,
        'paths_cut_at_step_bound': sum(r['bound_hits'] for r in res),
        'engine_errors': [x for r in res for x in r['errors']][:10],
        'exhaustive': not incomplete and not unknown and not stop_early and not sum(r['bound_hits'] for r in res),
        'stubs': sorted(set(x for r in res for x in r['stubs'])),
        'ir_build_s': round(t_build, 1),
    }
    if missing and not viol and not stop_early:
        cov['unreached_assertions'] = missing
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': head.get('assumptions', []) + ['rustc/LLVM optimised IR (opt-level 2, overflow checks on, logging off, x86-64) is what is encoded; IEEE-754 RNE floating point',
                                                         'libm calls on symbolic arguments: uninterpreted functions with range/monotonicity contracts, refined with the host libm at model points'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol), 'known_findings': sorted(known_hit)}
    with open(evp, 'w') as f: json.dump(ev, f, indent=1)
    for kid, (kf, _) in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    if viol:
        for h, v, got, path in viol[:3]:
            print('# %s: assertion %s violated (%s in %s build): %s' % (h, v['assert'], got[1], got[0], got[2].strip()[-300:]))
            print('VIOLATION property=%s replay=%s' % (pid, path + '.json'))
        return 1
    if nonrep:
        for h, v, k, t in nonrep[:3]:
            print('ERROR: counterexample does not reproduce natively: %s assert %s kind %s inputs %s native=%s %s' % (h, v['assert'], v['kind'], v['inputs'][:20], k, t))
        return 2
    if disagreements:
        for d in disagreements[:3]: print('ERROR: engine and native run disagree: %s' % (d,))
        return 2
    if noreplay and any(r['violations'] for r in res): return 3
    if not res or all(r['completed'] == 0 and r['panics'] == 0 for r in res):
        print('ERROR: nothing was explored: %s' % [r['errors'][:2] for r in res]); return 2
    if cov.get('unreached_assertions') and not incomplete:
        print('ERROR: assertions never reached (vacuous): %s' % missing); return 2
    if not cov['exhaustive']:
        print('INCOMPLETE property=%s: %d harness runs cut, %d assertion instances undecided, %d paths cut at the step bound (see evidence)' % (
            pid, len(incomplete), unknown, cov['paths_cut_at_step_bound']))
        for r in incomplete[:4]: print('#  ', r['harness'], r['forced'], [x[-160:] for x in r['errors'][:2]])
    print('OK property=%s tier=%s paths=%d proved=%d queries=%d solver=%.1fs native-validated=%d wall=%.0fs' % (
        pid, tier, cov['states'], proved, cov['queries_discharged'], cov['solver_s'], nval, time.time() - t0))
    return 0


def match_known(known, key):
    for k in known:
        m = k.get('match', {})
        if m.get('harness') and m['harness'] != key['harness']: continue
        if m.get('assert') is not None and str(m['assert']) != key['assert']: continue
        if m.get('text') and not re.search(m['text'], key['text']): continue
        return k
    return None


if __name__ == '__main__':
    sys.exit(main())
