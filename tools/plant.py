"""Confirm planted bugs in a scratch copy of /repo and write /verif/seeded/<id>/.
usage: plant.py specs.py [id...]   (specs.py defines S = [(id, prop, [(file, old, new)...], needs, breaks, demo_rs)])"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
sp = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want = set(sys.argv[2:])
W = '/tmp/plant'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cat > "$tmp/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
material-color-utilities-rs = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
X
cp "$here/demo.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true timeout 280 cargo run --offline -q 2> "$tmp/err"
rc=$?
tail -n 15 "$tmp/err"
exit $rc
'''
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if not os.path.exists(W + '/repo'):
    os.makedirs(W, exist_ok=True)
    sh('git clone -q /repo %s/repo && cp -a /repo/target %s/repo/ 2>/dev/null; cp -a /repo/Cargo.lock %s/repo/ 2>/dev/null' % (W, W, W))
R = W + '/repo'
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', R)
for (id, prop, edits, needs, breaks, demo) in m.S:
    if want and id not in want: continue
    sh('git checkout -q -- .', R)
    ok = True
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, 'EDIT MATCHES', s.count(old), f); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    diff = sh('git diff', R).stdout
    b = sh('cargo test --offline --locked --workspace --no-fail-fast -q -- --test-threads 8', R)
    passed = 'FAILED' not in b.stdout and 'error' not in b.stdout and 'panicked' not in b.stdout
    if not passed:
        print(id, 'TESTS FAIL'); print('\n'.join([l for l in b.stdout.split('\n') if 'FAILED' in l or 'error' in l or 'failed' in l][:8])); continue
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    bad = sh('bash %s/demo.sh' % d, R)
    sh('git checkout -q -- .', R)
    good = sh('bash %s/demo.sh' % d, R)
    st = 'OK' if bad.returncode != 0 and good.returncode == 0 and ('panick' in bad.stdout) else 'DEMO WRONG'
    print(id, prop, st, bad.returncode, good.returncode)
    if st != 'OK':
        print(bad.stdout[-800:], '----', good.stdout[-800:]); shutil.rmtree(d)
