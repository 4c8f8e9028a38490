"""plant(id, prop, edits, demo, needs, breaks, cfg=False): makes and confirms one seeded change (development aid).
edits: [(file, old, new)]; demo: body of a Rust main (panics when the property is broken)."""
import json
import os
import shutil
import subprocess
import sys

V = '/verif/seeded'
W = '/tmp/plant'

SH = '''#!/bin/bash
# run in the repository after a build; exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rcgal = { path = "$PWD" }
[workspace]
EOF
%scd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q 2>&1 | tail -5
exit ${PIPESTATUS[0]}
'''


# the bindings of src/wasm, natively
WASM = SH.replace('[workspace]\n', '[lints.rust]\nunexpected_cfgs = "allow"\n[workspace]\n').replace('{ path = "$PWD" }', '{ path = "rcgal" }').replace(
    'cp Cargo.lock "$d/Cargo.lock" 2>/dev/null\n', '''mkdir "$d/rcgal" && cp -r src "$d/rcgal/src"
find "$d/rcgal/src" -name '*.rs' -exec perl -0pi -e 's/#\\[wasm_bindgen(\\([^\\]]*\\))?\\]//g; s/#\\[cfg_attr\\(target_arch = "wasm32", wasm_bindgen[^\\]]*\\)\\]//g; s/(#\\[cfg\\(target_arch = "wasm32"\\)\\]\\s*)?use wasm_bindgen::prelude::\\*;//g; s/#\\[cfg\\(target_arch = "wasm32"\\)\\]\\s*(pub )?mod wasm;/pub mod wasm;/' {} +
printf '[package]\\nname = "rcgal"\\nversion = "0.0.0"\\nedition = "2021"\\n[lints.rust]\\nunexpected_cfgs = "allow"\\n' > "$d/rcgal/Cargo.toml"
''')


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if os.path.isdir(W):
        shutil.rmtree(W)
    sh('cp -a /repo %s' % W)


def plant(id, prop, edits, demo, needs, breaks, cfg=False, uses='', wasm=False):
    if not os.path.isdir(W):
        fresh()
    sh('git checkout -q -- .', W)
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    pre = '#![allow(unused_imports, dead_code)]\n'
    open(d + '/main.rs', 'w').write(pre + uses + ('' if 'fn main' in demo else 'fn main() {\n') + demo + ('' if 'fn main' in demo else '\n}\n'))
    open(d + '/demo.sh', 'w').write((WASM if wasm else SH) % ('export RUSTFLAGS="--cfg rcgal_verif"\n' if cfg else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, W)
    if r.returncode:
        print(id, 'BAD: demo fails on the unchanged tree\n', r.stdout[-1500:])
        return False
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'BAD: %d matches of %r in %s' % (s.count(old), old[:60], f))
            return False
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', W).stdout)
    t = sh('cargo test --workspace --offline --locked 2>&1 | grep "^test result\\|error\\|FAILED" | head -5', W)
    if wasm:
        t.stdout += sh('RUSTUP_TOOLCHAIN=1.98.0 cargo build --lib --target wasm32-unknown-unknown --offline --locked 2>&1 | grep "^error" -A5', W).stdout
    ok = 'FAILED' not in t.stdout and 'error' not in t.stdout
    r = sh('bash %s/demo.sh' % d, W)
    sh('git checkout -q -- .', W)
    print(id, 'ok' if ok and r.returncode else 'BAD tests=%s demo=%s\n%s' % (ok, r.returncode, t.stdout + r.stdout[-600:]))
    return bool(ok and r.returncode)
