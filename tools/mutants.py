#!/usr/bin/env python3
"""Planted bugs for developing the checks (not read by any check): each is applied to a scratch copy of /repo, mounted over
/repo in a private mount namespace, and the property's check is run there.
   J=4 python3 tools/mutants.py [name-substring ...]      H=1: the bounded search only"""
import os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
M = []
def m(prop, name, file, *pairs):
    M.append((prop, name, file, list(zip(pairs[::2], pairs[1::2]))))
exec(open(os.path.join(HERE, "mutants_list.py")).read())
ROOT = "/tmp/mu"
slots = queue.Queue()
def one(x):
    prop, name, file, pairs = x
    s = slots.get()
    try:
        d = f"{ROOT}/w{s}"
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", f"{d}/repo/"], check=True)
        p = f"{d}/repo/{file}"
        t = open(p).read()
        for a, b in pairs:
            if t.count(a) < 1:
                return (name, prop, "PATTERN NOT FOUND", "")
            t = t.replace(a, b, 1)
        open(p, "w").write(t)
        subprocess.run(f"find {d}/repo/src -name '*.rs' -exec touch {{}} +", shell=True)
        cmd = f"mount --bind {d}/repo /repo && mount --bind {d}/build /verif/build && mount --bind {d}/evidence /verif/evidence && cd /verif && " + (f"python3 check.py {prop}" if not os.environ.get("H") else
            f"CARGO_TARGET_DIR=build/harness cargo build -q --offline --release --manifest-path harness/Cargo.toml && build/harness/release/harness {prop} --seed 1 --case /tmp/h{s}.case --replay /tmp/h{s}.rep | cut -c1-300")
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True, errors="replace", timeout=900)
        o = r.stdout
        if os.environ.get("H"):
            return (name, prop, "caught" if '"found": true' in o else "CLEAN" if '"found": false' in o else "crash?", o[-160:] + r.stderr[-200:] if '"found": t' not in o else "")
        v = "caught" if r.returncode == 1 and "VIOLATION" in o else f"MISSED({r.returncode})"
        if "no-failing-input-found" in o:
            v += " (proof only)"
        pr = [l[:170] for l in o.splitlines() if l.startswith(("proof", "bounded"))]
        return (name, prop, v, "\n      ".join(pr) + (r.stderr[-300:] if r.returncode not in (0, 1) else ""))
    finally:
        slots.put(s)
if __name__ == "__main__":
    sel = [x for x in M if not sys.argv[1:] or any(a in x[1] or a == x[0] for a in sys.argv[1:])]
    j = int(os.environ.get("J", "4"))
    for i in range(j):
        d = f"{ROOT}/w{i}"
        os.makedirs(d + "/repo", exist_ok=True); os.makedirs(d + "/evidence", exist_ok=True)
        if not os.path.exists(d + "/build"):
            shutil.copytree("/verif/build", d + "/build", symlinks=True)
        slots.put(i)
    with ThreadPoolExecutor(j) as ex:
        for n, p, v, d in ex.map(one, sel):
            print(f"{p} {n}: {v}\n      {d}", flush=True)
