#!/usr/bin/env python3
"""Writes seeded/<id>/ from a Python description on stdin: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust)."""
import sys, os, json, subprocess
d = eval(sys.stdin.read())
V = '/verif/seeded/' + d['id']
W = '/tmp/seedwork'
if not os.path.isdir(W):
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', W, 'HEAD'])
head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--detach', head])
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
for f, old, new in d['edits']:
    # Lines my own fixes added may not be changed.
    s = open(f'{W}/{f}').read()
    assert s.count(old) == 1, (f, s.count(old), old)
    line = s[:s.index(old)].count('\n') + 1
    n = old.count('\n') + 1
    bl = subprocess.check_output(['git', '-C', W, 'blame', '-l', '-s', '-L', f'{line},+{n}', f], text=True).splitlines()
    base = '8d49c19'
    mine = [x for x in bl if subprocess.call(['git', '-C', W, 'merge-base', '--is-ancestor', x.split()[0].lstrip('^'), base], stderr=subprocess.DEVNULL) != 0]
    if mine: print('WARNING: lines added by own commits:', *mine, sep='\n')
    open(f'{W}/{f}', 'w').write(s.replace(old, new))
os.makedirs(V, exist_ok=True)
diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
open(V + '/patch.diff', 'w').write(diff)
open(V + '/demo.rs', 'w').write(d['demo'])
json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(V + '/meta.json', 'w'), indent=1)
open(V + '/demo.sh', 'w').write('''#!/bin/bash
# Run in the root of the repository. Builds demo.rs against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
scratch=$(mktemp -d)
trap 'find "$scratch" -delete' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$repo/Cargo-recent.lock" "$scratch/Cargo.lock"
cat >"$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
psbt-v2 = { path = "$repo", features = ["std", "serde", "base64", "miniscript", "silent-payments"] }
serde_json = "1"
[profile.dev]
debug = false
TOML
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$scratch/target}
cd "$scratch" && cargo run --offline --quiet
''')
