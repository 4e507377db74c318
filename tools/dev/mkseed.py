"""mkseed(id, property, needs, breaks, edits, demo_rs, hooks): writes a seeded bug dir. edits: [(file, old, new)]"""
import os, subprocess, json
DEMO = '''#!/bin/bash
# Builds demo.rs against the code in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp /repo/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ruby-fast-lsp = { path = "/repo"@FEAT@ }
tokio = { version = "1", features = ["full"] }
tokio-util = "0.7"
T
cd "$work"
export DEMO_DIR="$work/data"
mkdir -p "$DEMO_DIR"
CARGO_TARGET_DIR=/repo/target cargo build --offline -q 2>"$work/err" || { tail -20 "$work/err"; exit 7; }
timeout 120 /repo/target/debug/demo
'''
def mkseed(id, prop, needs, breaks, edits, demo_rs, hooks=False, demo_sh=None, files=None):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git","-C","/repo","status","--porcelain"],capture_output=True,text=True).stdout.strip()
    for f, old, new in edits:
        p = os.path.join("/repo", f); t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    subprocess.run(["git","-C","/repo","checkout","--","."],check=True)
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
    open(d+"/demo.sh","w").write(demo_sh or DEMO.replace("@FEAT@", ', features = ["verif-hooks"]' if hooks else ""))
    os.chmod(d+"/demo.sh",0o755)
    if demo_rs: open(d+"/demo.rs","w").write(demo_rs)
    for n,t in (files or {}).items(): open(os.path.join(d,n),"w").write(t)
