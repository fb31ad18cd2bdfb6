#!/usr/bin/env python3
"""Make and confirm planted bugs.  usage: seed.py FILE.py [id...]
FILE.py defines SEEDS: list of dicts id, property, edits [(file, old, new)], needs, breaks, demo (Rust main.rs), deps (extra Cargo lines), feats."""
import sys, os, json, subprocess, shutil, importlib.util
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
schemars = { path = "$repo/schemars"@FEATS@ }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
@DEPS@X
export CARGO_TARGET_DIR="$t/target"
cd "$t"
cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    for s in m.SEEDS:
        if only and s['id'] not in only: continue
        d = '/verif/seeded/' + s['id']
        if os.path.isdir(d) and not only: continue
        if not os.path.isdir(W): subprocess.run(['cp', '-a', '/repo', W], check=True)
        sh('git fetch -q /repo && git checkout -q -f FETCH_HEAD', cwd=W)
        ok = True
        for f, o, n in s['edits']:
            p = W + '/' + f; t = open(p).read()
            if t.count(o) != 1: print(s['id'], 'EDIT MATCHES', t.count(o), f); ok = False; break
            open(p, 'w').write(t.replace(o, n))
        if not ok: continue
        diff = sh('git diff', cwd=W).stdout
        # removed lines must be original
        base = '/tmp/seedbase'
        os.makedirs(d, exist_ok=True)
        feats = ', features = [%s]' % ', '.join('"%s"' % x for x in s['feats']) if s.get('feats') else ''
        open(d + '/demo.sh', 'w').write(DEMO.replace('@FEATS@', feats).replace('@DEPS@', ''.join(x + '\n' for x in s.get('deps', []))))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('cargo test --workspace --all-features --offline 2>&1', cwd=W)
        lines = b.stdout.splitlines()
        fails = [l for l in lines if l.endswith('FAILED') or l.startswith('error')]
        c = sh('bash %s/demo.sh' % d, cwd=W)
        comp = 'could not compile' in c.stderr
        good = a.returncode == 0 and b.returncode == 0 and c.returncode != 0 and not comp
        print(s['id'], 'OK' if good else 'BAD', 'demo0=%d tests=%d demo1=%d%s' % (a.returncode, b.returncode, c.returncode, ' (compile!)' if comp else ''), fails[:4])
        if a.returncode: print(a.stderr[-1500:])
        if c.returncode == 0 or comp: print(c.stderr[-800:])
        if b.returncode and not fails: print('\n'.join(lines[-15:]))
        if not good:
            shutil.rmtree(d)
main()
