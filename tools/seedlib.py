#!/usr/bin/env python3
"""seedlib.py NAME... : (re)create /verif/seeded/<name>/ from tools/seeds/<name>.py and confirm it.
Each seed file defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo program: panics when broken).
Works on a scratch copy of /repo; nothing is changed in /repo."""
import os, subprocess, sys, json, shutil, tempfile, runpy
V = "/verif"
DEMO = r'''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
repo=$(pwd)
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$d/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bnf = { path = "$repo" }
EOT
grep -q serde_json "$d/main.rs" && echo 'serde_json = "1"' >> "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/err" || { cat "$w/err"; exit 2; }
timeout 60 "$w/target/debug/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def make(name):
    s = runpy.run_path(f"{V}/tools/seeds/{name}.py")
    w = f"/tmp/seed_{name}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target"))
    for f, old, new in s["EDITS"]:
        p = f"{w}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = f"{V}/seeded/{name}"
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", cwd=w).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(s["MAIN"].strip() + "\n")
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    clean = sh(f"bash {d}/demo.sh", cwd="/repo")
    bad = sh(f"bash {d}/demo.sh", cwd=w)
    # tests run in the scratch copy, all features, against the stable list
    t = sh("CARGO_TARGET_DIR=/tmp/seed_target cargo nextest run --workspace --all-features --lib --bins --tests --offline --no-fail-fast 2>&1 | tail -15", cwd=w)
    doc = sh("CARGO_TARGET_DIR=/tmp/seed_target timeout 180 cargo test --workspace --all-features --doc --offline 2>&1 | grep 'test result' ", cwd=w)
    summ = [l for l in t.stdout.splitlines() if "Summary" in l or "FAIL" in l or "error" in l]
    print(name, "clean", clean.returncode, "patched", bad.returncode, (bad.stdout + bad.stderr).strip()[-200:].replace("\n", " | "))
    print("   tests:", " ".join(summ)[:400], "| doc:", doc.stdout.strip()[:80])
    if clean.returncode: print("   CLEAN OUT", (clean.stdout + clean.stderr)[-400:])
    shutil.rmtree(w, ignore_errors=True)
for n in sys.argv[1:]:
    make(n)
