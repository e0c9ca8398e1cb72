#!/usr/bin/env python3
"""Developer aid: writes /verif/seeded/<id>/ from the descriptions in seeds_*.py and confirms each in a scratch copy.
usage: mkseed.py FILE.py [id ...]   (no check uses this)"""
import sys, os, subprocess, json, shutil, tempfile, runpy
DEMO = '''#!/bin/bash
# demonstration: exit 0 when the property holds on the tree in the current directory, 1 when it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[profile.dev]
opt-level = 1
debug = 0
incremental = false
TOML
export CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="-A warnings%s"
cd "$work" || exit 3
cargo build --offline --quiet || exit 3
timeout 120 "$work/target/debug/demo"
'''
DEPS = {
 'proc': 'jester_sharing_proc = { path = "$repo/jester_sharing/jester_sharing_proc" }',
 'hashes': 'jester_hashes = { path = "$repo/jester_hashes" }',
 'maths': 'jester_maths = { path = "$repo/jester_maths" }\nnum = "0.2.0"\nnum-bigint = { version = "0.2.3", features = ["rand"] }\nrand = "0.5.6"\nmashup = "0.1.9"',
 'encryption': 'jester_encryption = { path = "$repo/jester_encryption" }',
 'ratchet': 'jester_double_ratchet = { path = "$repo/jester_double_ratchet" }',
 'sharing': 'jester_sharing = { path = "$repo/jester_sharing" }\nfutures-preview = { version = "0.3.0-alpha.19", features = ["async-await"] }',
}
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def stable_tests(tmp):
    r = sh(f'. /opt/vp/env.sh; cd {tmp}; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1; python3 /opt/vp/results.py /tmp/seedtest.json cargo:/tmp/seedtest.log', cwd=tmp, env={**os.environ, 'CARGO_TARGET_DIR': tmp + '/target'})
    res = json.load(open('/tmp/seedtest.json')); want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [x for x in want if x not in res.get('passed', res.get('pass', []))]
def confirm(i, tmp):
    d = f'/verif/seeded/{i}'
    demo = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(d):
        if f not in ('patch.diff', 'meta.json'): shutil.copy(f'{d}/{f}', demo)
    r = sh(f'bash {demo}/demo.sh', cwd=tmp)
    if r.returncode != 0: print(i, 'DEMO FAILS ON CLEAN TREE', r.stdout[-800:], r.stderr[-1500:]); return False
    a = sh(f'git apply {d}/patch.diff', cwd=tmp)
    if a.returncode: print(i, 'PATCH', a.stderr); return False
    ok = True
    try:
        r = sh(f'bash {demo}/demo.sh', cwd=tmp)
        if r.returncode in (0, 3): print(i, 'DEMO PASSES/BUILD FAIL WITH PATCH', r.returncode, r.stderr[-1500:]); ok = False
        st = stable_tests(tmp)
        if st: print(i, 'TESTS', st); ok = False
        print(i, 'ok' if ok else 'BAD', '|', (r.stdout + r.stderr).strip()[-160:].replace('\n', ' / '))
    finally:
        sh('git checkout -- .', cwd=tmp); shutil.rmtree(demo)
    return ok
def main():
    ns = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix='seedrepo')
    sh(f'cp -a /repo/. {tmp}/')
    try:
        for s in ns['SEEDS']:
            if want and s['id'] not in want: continue
            d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
            files = s.get('edits') or [(s['file'], s['old'], s['new'])]
            bad = False
            for f, old, new in files:
                p = f'{tmp}/{f}'; t = open(p).read()
                if t.count(old) != 1: print(s['id'], 'ANCHOR', t.count(old), f); bad = True; break
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git diff', cwd=tmp).stdout
            sh('git checkout -- .', cwd=tmp)
            if bad: continue
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/main.rs', 'w').write(s['main'])
            deps = []
            for k in s['deps']:
                for l in DEPS[k].split('\n'):
                    if l not in deps: deps.append(l)
            open(f'{d}/demo.sh', 'w').write(DEMO % ('\n'.join(deps), ' --cfg verif_hooks' if s.get('hooks') else ''))
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
            if not confirm(s['id'], tmp): print('   ---> not confirmed')
    finally:
        shutil.rmtree(tmp)
main()
