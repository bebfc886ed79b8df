#!/usr/bin/env python3
"""mkseed.py <spec.py>: turn bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec file defines BUGS = [dict(id, prop, file, old, new | edits=[(file, old, new)], needs, breaks, main)]"""
import os, subprocess, sys, json, shutil
HERE = '/verif'
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory; exit 0 iff the property holds on its input
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stratum-dsp = { path = "$repo" }
[profile.dev]
opt-level = 1
debug = 0
[workspace]
E
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t" cargo build -q --offline 2>"$d/log" || { cat "$d/log"; exit 2; }
timeout 60 "$d/t/debug/demo"
'''
def sh(c, cwd=None, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for b in g['BUGS']:
    if only and b['id'] not in only: continue
    out = os.path.join(HERE, 'seeded', b['id'])
    if os.path.exists(out) and not only: print(b['id'], 'exists'); continue
    if not os.path.exists(W): sh('cp -a /repo %s' % W)
    sh('git checkout -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)
    ok = True
    for f, o, n in b.get('edits') or [(b['file'], b['old'], b['new'])]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(o) != 1: print(b['id'], 'FAIL: old text occurs', s.count(o), 'times in', f); ok = False; break
        open(p, 'w').write(s.replace(o, n))
    if not ok: continue
    diff = sh('git diff', W)[1]
    tmp = '/tmp/seedout/' + b['id']; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/main.rs', 'w').write(b['main'])
    open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    rc, o = sh('bash %s/demo.sh' % tmp, '/repo')
    if rc: print(b['id'], 'FAIL: demo on the clean tree', rc, o[-800:]); continue
    rc, o = sh('bash %s/demo.sh' % tmp, W)
    if rc != 1 and rc != 101: print(b['id'], 'FAIL: demo with the bug', rc, o[-800:]); continue
    rc, o = sh('set +e; . /opt/vp/env.sh; cd /tmp/seedwork; export CARGO_TARGET_DIR=/tmp/seedwork/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 1 2>&1', W, 1200)
    import re
    failed = sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base['stable']
    bad = [f for f in failed if any(f in str(x) for x in names)]
    if bad or 'error: could not compile' in o or ('test result' not in o): print(b['id'], 'FAIL: tests', bad, o[-500:] if not bad else ''); continue
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
    print(b['id'], 'ok')
