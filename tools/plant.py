#!/usr/bin/env python3
"""plant.py SPEC.py : make and confirm a planted bug.  SPEC defines id, prop, edits=[(file, old, new)], main, needs, what[, features, deps]"""
import sys, os, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; non-zero: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
scratch="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$here/demo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "witness"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
validators = { path = "$repo/validators", default-features = false, features = [%s] }
%s
EOF
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" timeout 280 cargo run --offline -q
'''
# a configuration that must be refused: bad.rs must not compile, main.rs (its corrected twin) must
DEMO2 = DEMO.rsplit('cd "$scratch"', 1)[0] + '''cd "$scratch" && export CARGO_TARGET_DIR="$scratch/target"
timeout 200 cargo check --offline -q || { echo "panicked: the correct configuration does not compile"; exit 1; }
cp "$here/bad.rs" "$scratch/src/main.rs"
if timeout 80 cargo check --offline -q 2>"$scratch/log"; then echo "panicked: the wrong configuration compiles"; exit 1; fi
grep -q 'could not compile .witness' "$scratch/log"
'''
# a selection of features with which lib.rs must build
DEMO3 = DEMO.rsplit('cd "$scratch"', 1)[0].replace('main.rs', 'lib.rs') + '''cd "$scratch" && export CARGO_TARGET_DIR="$scratch/target"
timeout 280 cargo check --offline -q 2>"$scratch/log" && exit 0
cat "$scratch/log"
grep -q '^error' "$scratch/log" && echo "panicked: does not build with these features"
exit 1
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def baseline(): 
    d = json.load(open('/opt/vp/BASELINE.json')); return d

def main(spec):
    g = {}
    exec(open(spec).read(), g)
    bugs = g.get('bugs') or [g]
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
        one(b)

def one(b):
    wt = '/tmp/plant_wt'
    if not os.path.exists(wt):
        sh('cp -a /repo /tmp/plant_wt', '/')
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq', wt)
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b['edits']:
        p = os.path.join(wt, f)
        s = open(p).read()
        n = b.get('count', 1)
        if s.count(old) < 1: print('%s: edit does not match %s: %r (%d)' % (b['id'], f, old, s.count(old))); return
        if s.count(old) > 1 and not b.get('all') and not b.get('nth') is not None: print('%s: ambiguous (%d) %r' % (b['id'], s.count(old), old)); return
        if b.get('nth') is not None and s.count(old) > 1:
            parts = s.split(old); k = b['nth']
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else: s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff', wt).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'lib.rs' if b.get('lib') else 'main.rs'), 'w').write(b['main'])
    if 'bad' in b: open(os.path.join(d, 'bad.rs'), 'w').write(b['bad'])
    shutil.copy(os.path.join(ROOT, 'checks', 'witness.lock'), os.path.join(d, 'demo.lock'))
    feats = ', '.join('"%s"' % x for x in b.get('features', ['derive']))
    open(os.path.join(d, 'demo.sh'), 'w').write((DEMO2 if 'bad' in b else DEMO3 if b.get('lib') else DEMO) % (feats, b.get('deps', '')))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = True
    r0 = sh('bash %s/demo.sh' % d, '/repo')
    if r0.returncode != 0: print(b['id'], 'demo fails on the unchanged tree:', (r0.stdout + r0.stderr)[-1500:]); ok = False
    r1 = sh('bash %s/demo.sh' % d, wt)
    if r1.returncode == 0: print(b['id'], 'demo passes with the patch'); ok = False
    elif 'panicked' not in r1.stderr + r1.stdout: print(b['id'], 'demo failure looks wrong', (r1.stdout + r1.stderr)[-1500:]); ok = False
    # the test suite with the patch
    sh('git -C /repo apply %s/patch.diff' % d, '/')
    try:
        rb = sh('bash /opt/vp/build.sh', '/repo')
        rt = sh('bash /opt/vp/test.sh /tmp/plant_test.json', '/repo')
        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/plant_test.json'))
        st = base.get('stable') or base.get('passed') or base
        gp = set(got.get('passed') or [k for k, v in got.get('tests', got).items() if v in ('passed', 'pass', True)])
        miss = [t for t in st if t not in gp]
        if rb.returncode or miss: print(b['id'], 'build/test:', rb.returncode, rb.stderr[-800:], miss[:5]); ok = False
        if ok and '--nocheck' not in sys.argv:
            rc = sh('python3 run.py %s' % b['prop'], ROOT)
            print(b['id'], 'CHECK', b['prop'], 'rc', rc.returncode, rc.stdout.splitlines()[-1:] , rc.stdout.splitlines()[1:4])
    finally:
        sh('git checkout -- .', '/repo')
    print(b['id'], 'OK' if ok else 'REJECTED')
    if not ok: shutil.rmtree(d)
main(sys.argv[1])
