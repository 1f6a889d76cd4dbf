#!/usr/bin/env python3
"""Development tool (no check uses it): builds /verif/seeded/<id>/ from the table in seeds.py.
For each entry: edit a scratch copy of /repo, build, run the stable tests, run the demonstration
on the unchanged and on the changed copy, and keep the entry only when everything is as it must be."""
import json, os, subprocess, sys, shutil, tempfile, stat
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS, PRELUDE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
DEMO = '''#!/bin/bash
# Run with cwd = the crate under test, after a build. Exit 0: the property holds; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "${work:?}"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
over = { path = "$repo" }
num-bigint = "0.2"
num-rational = "0.2"
num-traits = "0.2"
EOF
cd "$work/scratch" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build -q --offline --manifest-path "$work/Cargo.toml" || exit 3
timeout 120 "$work/target/debug/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **k)
def main(only):
    work = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    try:
        base = work + '/repo'
        sh(f'cp -a /repo {base}', '/')
        sh('git checkout -q -- .', base)
        for sid, s in SEEDS.items():
            if only and sid not in only: continue
            sh('git checkout -q -- .', base)
            d = f'{ROOT}/seeded/{sid}'
            tmp = f'{work}/{sid}'; os.makedirs(tmp)
            open(tmp + '/main.rs', 'w').write(PRELUDE + s['demo'])
            open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
            r0 = sh(f'{tmp}/demo.sh', base)
            if r0.returncode != 0:
                print(sid, 'BAD: demo fails on the unchanged tree', r0.returncode, r0.stdout[-600:], r0.stderr[-1800:]); continue
            ok = True
            for (f, old, new, *n) in s['edits']:
                p = f'{base}/src/{f}'; t = open(p).read()
                c = t.count(old); want = n[0] if n else None
                if want is None and c != 1 or want is not None and c <= want:
                    print(sid, 'BAD: edit matches', c, 'times in', f); ok = False; break
                if want is None: t = t.replace(old, new)
                else:
                    i = -1
                    for _ in range(want + 1): i = t.index(old, i + 1)
                    t = t[:i] + new + t[i + len(old):]
                open(p, 'w').write(t)
            if not ok: continue
            t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/t.log 2>&1; python3 /opt/vp/results.py target/t.json cargo:target/t.log', base)
            try: res = json.load(open(base + '/target/t.json'))
            except Exception as e: print(sid, 'BAD: no results', t.stdout, t.stderr, open(base+'/target/t.log').read()[-1500:]); continue
            passed = set(res.get('passed', []))
            miss = [x for x in STABLE if x not in passed]
            if miss:
                print(sid, 'BAD: stable tests fail:', miss, '' if len(miss) < 15 else open(base+'/target/t.log').read()[-1500:]); continue
            r1 = sh(f'{tmp}/demo.sh', base)
            if r1.returncode in (0, 3):
                print(sid, 'BAD: demo', r1.returncode, 'with the change', r1.stderr[-600:]); continue
            patch = sh('git diff', base).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(patch)
            for f in ('main.rs', 'demo.sh'): shutil.copy(f'{tmp}/{f}', d)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            print(sid, 'ok:', (r1.stdout + r1.stderr).strip().splitlines()[-1][:160] if (r1.stdout + r1.stderr).strip() else '')
            sys.stdout.flush()
    finally:
        subprocess.run(['rm', '-rf', work])
main(set(sys.argv[1:]))
