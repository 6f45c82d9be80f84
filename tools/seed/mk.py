#!/usr/bin/env python3
"""mk.py ID...: writes /verif/seeded/<id>/ from the definitions in tools/seed/defs/*.py"""
import sys, os, json, subprocess, glob, tempfile, shutil
V = "/verif"
SEEDS = {}
for f in sorted(glob.glob(V + "/tools/seed/defs/*.py")):
    g = {}
    exec(open(f).read(), g)
    SEEDS.update(g["SEEDS"])
DEMO = r'''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken. Builds a small client of /repo's crates in a scratch folder.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$H/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
opt-level = 1
debug = false
EOF
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$T/target"
unset RUSTFLAGS RUSTC_WRAPPER
cd "$T" && timeout 280 cargo run -q 2>&1
'''
DEPS = {"interval-tree": "interval-tree", "dreammaker": "dreammaker", "dmm-tools": "dmm-tools", "dreamchecker": "dreamchecker"}
def make(i):
    s = SEEDS[i]
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    out = ""
    for f, old, new in s["edits"]:
        p = os.path.join(t, "b", f)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True); os.makedirs(os.path.dirname(os.path.join(t, "a", f)), exist_ok=True)
            shutil.copy("/repo/" + f, p); shutil.copy("/repo/" + f, os.path.join(t, "a", f))
        x = open(p).read()
        assert x.count(old) == 1, (i, f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
    r = subprocess.run(["git", "diff", "--no-index", "a", "b"], cwd=t, capture_output=True, text=True)
    out = r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", "\n".join(x if "=" in x else f'{x} = {{ path = "$R/crates/{x}" }}' for x in s["deps"])))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
for i in (sys.argv[1:] or SEEDS):
    make(i); print(i)
