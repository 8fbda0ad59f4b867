#!/usr/bin/env python3
"""Makes a planted bug: python3 tools/plant.py DEFS.py [ID...]

DEFS.py defines BUGS, a list of dicts with id, property, needs, breaks, edits
([(file, old, new)]) and demo (the body of a Rust main with helpers).  A bug is
kept in seeded/ when the changed copy builds, passes the existing tests and its
demonstration passes on /repo and fails on the copy."""
import json, os, runpy, shutil, subprocess, sys, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant"
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds for this input.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
serde_yaml = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
END
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null || true
cd "$dir"
cargo build --offline -q || { rm -f Cargo.lock; cargo build --offline -q; }
timeout 60 "$dir/target/debug/demo"
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    if not os.path.isdir(COPY):
        sh("cp -a /repo " + COPY, "/")
    for b in bugs:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", COPY)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "NOT KEPT:", bad); continue
        diff = sh("git diff", COPY).stdout
        d = os.path.join("/tmp/plant-new", b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(textwrap.dedent(b["demo"]).lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        if r.returncode != 0:
            print(b["id"], "NOT KEPT: demo fails on /repo:", r.stdout[-1500:]); continue
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", COPY)
        if r.returncode != 0:
            print(b["id"], "NOT KEPT: tests:", "\n".join(l for l in r.stdout.split("\n") if "FAILED" in l or l.startswith("error"))[:1500]); continue
        r = sh(["bash", os.path.join(d, "demo.sh")], COPY)
        if r.returncode == 0:
            print(b["id"], "NOT KEPT: demo passes with the change"); continue
        k = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(k, ignore_errors=True)
        shutil.copytree(d, k)
        print(b["id"], "kept:", r.stdout.strip().split("\n")[-1][:200])
    sh("git checkout -q -- .", COPY)
main()
