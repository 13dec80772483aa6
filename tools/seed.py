#!/usr/bin/env python3
"""Plants the bugs of a definition file: python3 tools/seed.py DEFS.py [ID ...]

DEFS.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)], demo (Rust main.rs),
features (of elasticlunr-rs), needs, breaks. Each is tried in a scratch copy of /repo and kept in seeded/ID
only if the demonstration passes before and fails after, the patch builds and the stable tests pass.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
WORK = '/tmp/seedw'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO = '''#!/bin/bash
# Run with cwd at the library: exit 0 if the property holds on the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
lib=$PWD
w=$(mktemp -d)
trap 'rm -rf -- "${w:?}"' EXIT
mkdir "$w/src"
sed "s#@LIB@#$lib#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cargo build --offline --quiet || { echo "the demonstration does not build"; exit 2; }
timeout 120 "$w/target/debug/demo"
'''
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
elasticlunr-rs = { path = "@LIB@", features = [%s] }
serde_json = "1"

[profile.dev]
debug = false
'''


def sh(cmd, cwd, timeout=900):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)


def plant(b):
    d = os.path.join(SEEDED, b['id'])
    wt = os.path.join(WORK, 'repo')
    if not os.path.exists(wt):
        os.makedirs(WORK, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', wt], check=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', wt)
    tmp = os.path.join(WORK, 'demo-' + b['id'])
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(DEMO)
    shutil.copy('/repo/Cargo.lock', tmp + '/Cargo.lock')
    os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/Cargo.toml.in', 'w').write(CARGO % ', '.join('"%s"' % f for f in b.get('features', [])) + b.get('profile', ''))
    open(tmp + '/main.rs', 'w').write(b['demo'])
    r = sh('bash %s/demo.sh' % tmp, wt)
    if r.returncode != 0:
        return 'demo fails on the clean tree: ' + (r.stdout + r.stderr)[-1500:]
    for f, old, new in b['edits']:
        p = os.path.join(wt, f)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            return 'edit of %s matches %d times' % (f, s.count(old))
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    r = sh('bash %s/demo.sh' % tmp, wt)
    if r.returncode in (0, 2):
        sh('git checkout -q -- .', wt)
        return 'demo gives %d on the changed tree: %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    why = (r.stdout + r.stderr)[-300:]
    r = sh('. /opt/vp/env.sh; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > %s/test.log 2>&1; '
           'python3 /opt/vp/results.py %s/test.json "cargo:%s/test.log"; '
           'cargo check --workspace --all-targets --offline >/dev/null 2>&1 || echo NOBUILD; '
           'cargo check --manifest-path fuzz/Cargo.toml --all-targets --offline >/dev/null 2>&1 || echo NOBUILD' % (WORK, WORK, WORK), wt)
    if 'NOBUILD' in r.stdout:
        return 'does not build'
    t = json.load(open(WORK + '/test.json'))
    miss = STABLE - set(t['passed'])
    diff = sh('git diff', wt).stdout
    sh('git checkout -q -- .', wt)
    if miss:
        return 'fails tests: %s' % sorted(miss)[:4]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    return 'kept (%s)' % why.strip().replace('\n', ' | ')[-200:]


if __name__ == '__main__':
    defs = runpy.run_path(sys.argv[1])['BUGS']
    for b in defs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], '->', plant(b), flush=True)
