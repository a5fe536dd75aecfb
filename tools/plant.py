#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: makes and confirms planted changes in scratch copies of /repo; keeps the good ones in /verif/seeded.

DEFS.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], main (Rust source of the demo)."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); defs = importlib.util.module_from_spec(spec); spec.loader.exec_module(defs)
only = sys.argv[2:]
DEMO = '''#!/bin/sh
# Run in /repo after the build: exits 0 if the guarantee holds there, otherwise not.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/work"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
over = { path = "$repo" }
num-bigint = "0.2"
num-rational = "0.2"
num-traits = "0.2"
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cargo build -q --offline --manifest-path "$d/Cargo.toml" --target-dir "$d/target" || exit 3
cd "$d/work" && timeout 120 "$d/target/debug/demo"
'''
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def pick(t):
    i = max(t.find('error'), t.find('panicked'))
    return t[max(i - 100, 0):i + 900]
def stable(d):
    sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp.log 2>&1', d)
    sh('python3 /opt/vp/results.py /tmp/plant.json cargo:target/vp.log', d)
    return set(base) - set(json.load(open('/tmp/plant.json'))['passed'])
os.environ['CARGO_NET_OFFLINE'] = 'true'
d = '/tmp/plant.repo'
if os.path.exists(d): shutil.rmtree(d)
shutil.copytree('/repo', d, symlinks=True)
for b in defs.BUGS:
    if only and b['id'] not in only: continue
    out = os.path.join('/verif/seeded', b['id'])
    sh('git checkout -q -- .', d)
    bad = False
    for f, old, new in b['edits']:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) != 1: print(b['id'], 'EDIT', f, s.count(old), repr(old[:60])); bad = True; break
        open(p, 'w').write(s.replace(old, new))
    if bad: continue
    diff = subprocess.run('git diff', shell=True, cwd=d, stdout=subprocess.PIPE, text=True).stdout
    r = sh('cargo test --workspace --no-run --offline', d)
    if r.returncode: print(b['id'], 'DOES NOT BUILD\n', '\n'.join(l for l in r.stdout.split('\n\n') if l.startswith('error'))[:3000]); continue
    m = stable(d)
    if m: print(b['id'], 'TESTS CATCH IT', m); continue
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/main.rs', 'w').write(b['main'])
    r1 = sh(f'sh {out}/demo.sh', d)
    sh('git checkout -q -- .', d)
    r0 = sh(f'sh {out}/demo.sh', d)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(b['id'], 'DEMO', r0.returncode, r1.returncode, '\n', pick(r0.stdout), '\n---\n', pick(r1.stdout)); shutil.rmtree(out); continue
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(b['id'], 'ok', r1.stdout.strip().splitlines()[-1:] )
shutil.rmtree(d)
