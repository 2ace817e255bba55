"""make and confirm planted bugs: mk.py [ids...]   (scratch copy only)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc'
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
knuffel = { path = "$R"%s }
miette = "5"
[workspace]
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" && CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" cargo run --offline -q
'''
def sh(c, cwd=SC, env=None):
    e = dict(os.environ); e.pop('RUSTFLAGS', None); e['DEMO_TARGET']='/tmp/demotarget'; e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=e)
    return r.returncode, r.stdout + r.stderr
def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seeds
    want = sys.argv[1:]
    if os.path.exists(SC): shutil.rmtree(SC)
    subprocess.run(['cp', '-a', '/repo', SC], check=True)
    sh('git checkout -q -- . && git clean -fdq')
    for s in seeds.SEEDS:
        if want and s['id'] not in want: continue
        if not want and os.path.exists(os.path.join(V, 'seeded', s['id'], 'patch.diff')): continue
        sh('git checkout -q -- .')
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(SC, f); t = open(p).read()
            if t.count(old) < 1 or (t.count(old) > 1 and not s.get('multi')):
                print(s['id'], 'EDIT MISMATCH', f, t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        d = '/tmp/seedtmp/' + s['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO % s.get('feat', '')); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        _, diff = sh('git diff'); open(d + '/patch.diff', 'w').write(diff)
        rc, o = sh('cargo test --workspace --all-features --offline -q 2>&1 | tail -40; cargo build --workspace --no-default-features --offline -q 2>&1 | grep -A9 ^error')
        if 'test result: FAILED' in o or 'error' in o.split('test result')[-1] or 'could not compile' in o:
            print(s['id'], 'TESTS FAIL', [l for l in o.splitlines() if 'FAILED' in l or 'failed' in l or l.startswith('error')][:6]); continue
        rc1, o1 = sh(d + '/demo.sh')
        if rc1 == 0: print(s['id'], 'DEMO PASSES WITH BUG'); continue
        if 'could not compile' in o1 and not s.get('cf'): print(s['id'], 'DEMO DOES NOT COMPILE', o1[-900:]); continue
        env = {'KV_REPO': SC, 'KV_BUILD': '/tmp/kvb-seed'}
        rc3, o3 = sh('bin/check ' + s['prop'], cwd=V, env=env)
        caught = rc3 == 1 and 'VIOLATION property=%s' % s['prop'] in o3
        first = [l.strip() for l in o3.splitlines() if 'violated:' in l][:1]
        sh('git checkout -q -- .')
        rc2, o2 = sh(d + '/demo.sh')
        if rc2 != 0: print(s['id'], 'DEMO FAILS ON CLEAN', o2[-1500:]); continue
        dst = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(s['id'], 'OK', 'CAUGHT' if caught else 'MISSED rc=%d' % rc3, first[:1] if caught else o3[-300:])
main()
