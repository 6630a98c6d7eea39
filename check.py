#!/usr/bin/env python3
"""check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Decides one property of /repo's working tree:
  1. extract the functions under contract from /repo/src and weave in the contracts (extract/, specs/);
  2. Verus discharges every obligation (and, in a second run, refutes `assert(false)` at the end of every
     contracted function, so that no contract is vacuous);
  3. the harness runs the real crate against independent oracles: it looks for the failing input that goes
     with a failed obligation, and stands in (bounded) for whatever the verifier could not be given.
Exit 0: held on everything explored. Exit 1: VIOLATION line. See DESIGN.md.
"""
import json, os, re, resource, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from overlays import OVERLAYS  # property -> list of overlay runs

def sh(cmd, timeout, env=None, mem=None, cwd=VERIF):
    e = dict(os.environ)
    e.update(env or {})
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o, er

def cargo(manifest, target):
    # builds of the framework itself: deterministic flags, offline
    return sh(["cargo", "build", "--offline", "--release", "--manifest-path", manifest], 600,
              {"CARGO_TARGET_DIR": os.path.join(BUILD, target), "RUSTFLAGS": "-Awarnings"})

ERR = re.compile(r"^error(?:\[[A-Z0-9]+\])?: (.*)$")
LOC = re.compile(r"^\s*--> (\S+?):(\d+):(\d+)")
UNDECIDED = ("rlimit", "Resource limit", "took too long", "timed out", "while loop: Resource")

def parse_errors(stderr):
    """-> [(message, [lines])]"""
    out, cur = [], None
    for l in stderr.splitlines():
        m = ERR.match(l)
        if m:
            cur = (m.group(1), [], [l])
            out.append(cur)
            continue
        if cur is None:
            continue
        m = LOC.match(l)
        if m:
            cur[1].append(int(m.group(2)))
        else:
            m2 = re.match(r"^\s*(\d+) \|", l)
            if m2:
                cur[1].append(int(m2.group(1)))
        cur[2].append(l)
    return [(m, ls, "\n".join(t)) for m, ls, t in out]

def fn_of(report, lines):
    for ln in lines:
        for f in report["functions"]:
            a, b = f["gen_lines"]
            if a <= ln <= b:
                return f
    return None

def soft_message(m, ov):
    """messages that do not say the obligation is false"""
    if any(u in m for u in UNDECIDED):
        return "the solver gave up"
    if "arithmetic underflow/overflow" in m and not ov.get("overflow"):
        # an overflow ends the call (debug) before anything is returned: it decides a property only where listed
        return "possible overflow"
    return None

def f_soft(x, ov):
    """why the open obligations of one function decide nothing, or None if they do"""
    for m, f, t in x:
        if f and f.get("bare_loops", 0) > 0:
            return "a loop of the current source has no invariant in the overlay"
    s = [soft_message(m, ov) for m, f, t in x]
    return s[0] if all(s) else None

def run_overlay(prop, ov, tier, log):
    """The overlay, or else one of its alternatives: other divisions of the same work between the functions, each ending in
    the same contract of the public functions."""
    r = run_one(prop, ov, tier, log)
    for alt in ov.get("alt", []) if r["status"] != "proved" else []:
        q = run_one(prop, dict(ov, overlay=alt), tier, log)
        if q["status"] == "proved":
            return q
    return r


def run_one(prop, ov, tier, log):
    """-> dict: status proved|failed|undecided, functions, failures, ..."""
    name = ov["overlay"]
    gen = os.path.join(BUILD, f"{prop}_{name}.rs")
    rep = os.path.join(BUILD, f"{prop}_{name}.report.json")
    spec = os.path.join(VERIF, "specs", name + ".vspec")
    ext = os.path.join(BUILD, "extract/release/extract")
    r = {"overlay": name, "status": "undecided", "verified": 0, "errors": 0, "smt_ms": 0, "functions": [], "trusted_functions": [],
         "dropped": [], "inlined": [], "failures": [], "reason": "", "vacuity": "not run", "trusted": []}
    rc, o, e = sh([ext, REPO, spec, gen, rep], 120)
    if os.path.exists(rep):
        report = json.load(open(rep))
    else:
        report = {"functions": [], "lost_anchors": ["no report"], "dropped": [], "inlined": []}
    r["functions"] = [f"{f['path']} ({f['file']}:{f['line']})" for f in report["functions"] if f["contract"] and not f["trusted"]]
    r["trusted_functions"] = [f"{f['path']} ({f['file']}:{f['line']})" for f in report["functions"] if f["trusted"]]
    r["dropped"], r["inlined"] = report["dropped"], report["inlined"]
    if rc != 0:
        r["reason"] = "the contracts no longer fit the source: " + "; ".join(report["lost_anchors"] or [e[-500:]])[:1500]
        return r
    text = open(gen).read()
    r["trusted"] = trusted_items(text)
    if re.search(r"\b(admit|assume)\s*\(", re.sub(r"//.*", "", text)):
        r["reason"] = "unexpected assume/admit in the generated file"
        return r
    limit = ov.get("timeout", 240)
    base = ["verus", "--edition", "2024", gen, "--output-json", "--time", "--triggers-mode", "silent"] + ov.get("args", [])
    r["cmd"] = " ".join(c.replace(VERIF + "/", "") for c in base)
    attempts = [[], ["--rlimit", "40", "--smt-option", "smt.random_seed=7"], ["--rlimit", "40", "--smt-option", "smt.random_seed=23"]]
    # An obligation counts as failed only if no attempt discharges it: a proof found with any solver seed is a proof.
    open_fns = None
    for k, extra in enumerate(attempts):
        cmd = base + extra
        rc, o, e = sh(cmd, limit)
        log.append(f"$ {' '.join(cmd)}\n{e[-20000:]}\n{o[-3000:]}")
        if rc is None:
            if k == 0:
                r["reason"] = f"verifier did not finish in {limit} s"
                return r
            break
        try:
            j = json.loads(o[o.index("{"):])
            res = j["verification-results"]
        except (ValueError, KeyError):
            r["reason"] = "verifier gave no result: " + e[-600:]
            return r
        v, n = res.get("verified") or 0, res.get("errors") or 0
        r["smt_ms"] += (j.get("times-ms", {}).get("smt", {}) or {}).get("total", 0)
        errs = [x for x in parse_errors(e) if not x[0].startswith("aborting due to")]
        if res.get("success") and v > 0 and rc == 0:
            r["verified"], r["errors"], r["status"], open_fns = v, 0, "proved", {}
            break
        if n == 0 or res.get("encountered-vir-error"):
            r["reason"] = "the verifier does not accept the extracted code: " + "; ".join(m for m, _, _ in errs)[:800]
            return r
        now = {}
        for m, ls, t in errs:
            f = fn_of(report, ls)
            key = f["path"] if f else "lemma over the contracts near line %s" % (ls[0] if ls else "?")
            now.setdefault(key, []).append((m, f, t))
        open_fns = now if open_fns is None else {p: x for p, x in open_fns.items() if p in now}
        # keep the newest account of what is still open
        open_fns = {p: now.get(p, x) for p, x in open_fns.items()}
        r["verified"], r["errors"] = v + n - len(open_fns), len(open_fns)
        if not open_fns:
            r["status"] = "proved"
            break
    if r["status"] != "proved":
        why = []
        for p, x in open_fns.items():
            s = f_soft(x, ov)
            if s:
                why.append(f"{p}: {s}")
                continue
            for m, f, t in x:
                if not soft_message(m, ov):
                    r["failures"].append({"obligation": m, "function": p, "source": f"{f['file']}:{f['line']}" if f else name, "output": t[:3000]})
        r["status"] = "failed" if r["failures"] else "undecided"
        r["reason"] = "; ".join(why)[:600]
    if r["status"] == "proved" and ov.get("vacuity", True):
        vg = gen[:-3] + "_vac.rs"
        vr = rep + ".vac"
        rc, o2, e2 = sh([ext, REPO, spec, vg, vr, "--vacuity"], 120)
        rc, o2, e2 = sh(["verus", "--edition", "2024", vg, "--output-json", "--triggers-mode", "silent", "--multiple-errors", "40"] + ov.get("args", []), limit)
        if rc is None:
            r["vacuity"] = "did not finish"
        else:
            rp = json.load(open(vr))
            hit = {(f["path"], f["line"]) for m, ls, t in parse_errors(e2) for f in [fn_of(rp, ls)] if f}
            want = {(f["path"], f["line"]) for f in rp["functions"] if f["contract"] and not f["trusted"] and not f.get("derived")}
            miss = sorted(p for p, _ in want - hit)
            r["vacuity"] = "every contracted function refutes assert(false)" if not miss else "assert(false) not refuted in: " + ", ".join(miss)
            if miss:
                log.append("vacuity: " + r["vacuity"])
                r["status"], r["reason"] = "undecided", r["vacuity"]
    return r

def trusted_items(text):
    """names of everything the generated file takes on trust (external_body, assumed contracts, axioms)"""
    out = set()
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "external_body" in l or "assume_specification" in l or "external_type_specification" in l:
            blob = " ".join(lines[i:i + 6])
            m = re.search(r"(?:fn|struct|enum)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", blob)
            if m:
                out.add((m.group(1) or m.group(2)).strip())
        m = re.search(r"\b(?:broadcast\s+)?(?:axiom|uninterp spec)\s+fn\s+(\w+)", l)
        if m:
            out.add(m.group(1))
    return sorted(out)

def run_harness(prop, tier, seed, replay, log):
    b = os.path.join(BUILD, "harness/release/harness")
    rc, o, e = cargo(os.path.join(VERIF, "harness/Cargo.toml"), "harness")
    if rc != 0:
        log.append("harness build failed:\n" + e[-4000:])
        return {"status": "unavailable", "reason": "the harness does not build against the crate"}
    secs = 600 if tier == "thorough" else 40
    case = os.path.join(BUILD, f"{prop}.case")
    base = [b, prop, "--seed", str(seed), "--tier", tier, "--case", case, "--replay", replay]
    rc, o, e = sh(base + ["--secs", str(secs)], secs + 90, mem=10 << 30)
    try:
        j = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError):
        j = None
    if rc == 0 and j:
        j["status"] = "clean"
        return j
    if rc == 1 and j and os.path.exists(replay):
        j["status"] = "found"
        return j
    # hang or crash: is it the input?
    try:
        rec = open(case, errors="replace").read()
        k, desc = rec.split("\n", 1)
    except (OSError, ValueError):
        return {"status": "unavailable", "reason": f"harness ended with {rc}: {e[-400:]}"}
    rc2, o2, e2 = sh(base + ["--secs", str(secs), "--only", k], secs + 60, mem=10 << 30)
    if rc2 in (0,):
        return {"status": "unavailable", "reason": f"harness ended with {rc} at case {k}, not reproduced alone: {desc[:300]}"}
    what = "does not return" if rc2 is None else f"crashes (exit {rc2}): {e2[-300:]}"
    json.dump({"property": prop, "kind": "concrete failing input on the real crate", "seed": seed, "tier": tier, "case_index": int(k),
               "input": desc, "failure": "the call " + what}, open(replay, "w"), indent=1)
    return {"status": "found", "found": True, "evaluations": int(k), "failure": f"the call {what} [input: {desc[:500]}]"}

def run_macros(prop, tier, seed, replay, log):
    """C14 (bounded stand-in): invocations of the macros, compiled against the crate, compared with what they write down"""
    rc, o, e = sh([sys.executable, os.path.join(VERIF, "tools/mkmacros.py"), os.path.join(VERIF, "macros/src/main.rs"), str(seed), tier], 60)
    if rc != 0:
        return {"status": "unavailable", "reason": "generator: " + e[-300:]}
    n = int(o)
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "macros"), "RUSTFLAGS": "-Awarnings"}
    rc, o, e = sh(["cargo", "build", "--offline", "-p", "bnf", "--manifest-path", os.path.join(VERIF, "macros/Cargo.toml")], 600, env=env)
    if rc != 0:
        log.append("crate build failed:\n" + e[-4000:])
        return {"status": "unavailable", "reason": "the crate does not build"}
    rule = "an invocation counts when it compiles against the crate and names at least one term; every case is a different invocation"
    def found(inp, what, k):
        json.dump({"property": prop, "kind": "concrete failing input on the real crate", "seed": seed, "tier": tier, "case_index": k, "input": inp, "failure": what},
                  open(replay, "w"), indent=1)
        return {"status": "found", "found": True, "evaluations": k, "failure": f"{what} [input: {inp[:300]}]"}
    rc, o, e = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "macros/Cargo.toml")], 600, env=env)
    if rc is None or rc < 0:
        return {"status": "unavailable", "reason": "compiling the invocations did not end"}
    if rc != 0:
        log.append("invocations do not compile:\n" + e[-4000:])
        if "macros/src/main.rs" not in e and "src/main.rs" not in e:
            return {"status": "unavailable", "reason": "build failed outside the invocations"}
        m = re.search(r"src/main.rs:(\d+)", e)
        line = open(os.path.join(VERIF, "macros/src/main.rs")).read().splitlines()[int(m.group(1)) - 1] if m else ""
        return found(line, "the invocation does not compile: " + "\n".join(x for x in e.splitlines() if x.startswith("error"))[:400], n)
    rc, o, e = sh([os.path.join(BUILD, "macros/debug/macros")], 60)
    last = (o.strip().splitlines() or [""])[-1]
    if rc == 0 and last == str(n):
        src = open(os.path.join(VERIF, "macros/src/main.rs")).read()
        inv = re.findall(r'^    \(r####"(.*)"####, c\d+\),$', src, re.M)
        return {"status": "clean", "evaluations": n, "distinct_nontrivial": len(set(inv)) - 1, "rule": rule, "samples": [inv[0], inv[200], inv[-1]]}
    if rc == 1 and last.count("\t") >= 2:
        k, inp, m = last.split("\t", 2)
        return found(inp, m, int(k) + 1)
    return found("the program of all invocations", f"ended with {rc}: {e[-300:]}", n) if rc == 101 else {"status": "unavailable", "reason": f"ended with {rc}"}

def run_assume(log):
    """Tries the assumed contracts of std/hashbrown/nom/rand on the real libraries (a sample of the trusted base).
    It depends on the toolchain and the dependencies only, so its result is reported and decides nothing."""
    rc, o, e = cargo(os.path.join(VERIF, "assume/Cargo.toml"), "assume")
    if rc == 0:
        rc, o, e = sh([os.path.join(BUILD, "assume/release/assume")], 120)
    log.append("assume: " + o + e[-1000:])
    try:
        return f"{json.loads(o)['assumption_samples']} instances of the assumed library contracts tried on the real libraries, all hold"
    except ValueError:
        return "assumed library contracts: " + (o + e)[-300:].strip()

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        for m, t in (("extract/Cargo.toml", "extract"), ("harness/Cargo.toml", "harness"), ("assume/Cargo.toml", "assume")):
            rc, o, e = cargo(os.path.join(VERIF, m), t)
            if rc != 0:
                sys.exit(e[-2000:])
        run_macros("C14", "quick", 1, os.path.join(BUILD, "setup.json"), [])
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{prop}.json")
    if os.path.exists(replay):
        os.remove(replay)
    log = []
    rc, o, e = cargo(os.path.join(VERIF, "extract/Cargo.toml"), "extract")
    proofs = []
    for ov in OVERLAYS.get(prop, []):
        if rc != 0:
            proofs.append({"overlay": ov["overlay"], "status": "undecided", "reason": "extractor build failed: " + e[-500:], "verified": 0, "errors": 0, "smt_ms": 0,
                           "functions": [], "trusted_functions": [], "dropped": [], "inlined": [], "failures": [], "vacuity": "not run", "trusted": []})
        else:
            proofs.append(run_overlay(prop, ov, tier, log))
    h = (run_macros if prop == "C14" else run_harness)(prop, tier, seed, replay, log)

    assumed = run_assume(log) if proofs else None
    failures = [f for p in proofs for f in p["failures"]]
    violation, nfi = False, False
    if h["status"] == "found":
        violation = True
        if failures:
            j = json.load(open(replay))
            j["failed_obligations"] = failures
            json.dump(j, open(replay, "w"), indent=1)
    elif failures:
        violation = nfi = True
        json.dump({"property": prop, "kind": "failed proof obligation, no failing input found", "failed_obligations": failures,
                   "search": {k: v for k, v in h.items() if k != "samples"}}, open(replay, "w"), indent=1)

    ob = sum(p["verified"] + p["errors"] for p in proofs)
    dis = sum(p["verified"] for p in proofs)
    fns = sorted({f for p in proofs for f in p["functions"]})
    trusted = sorted({t for p in proofs for t in p["trusted"]})
    tf = sorted({t for p in proofs for t in p["trusted_functions"]})
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": " && ".join(p.get("cmd", "") for p in proofs if p.get("cmd")) or "none",
        "trusted_base": ["Verus 0.2026.09.13 and its Z3 back end, rustc", "the extractor /verif/extract (mechanical rewriting, listed in DESIGN.md)"]
                        + [f"assumed contract: {t}" for t in trusted] + [f"body not verified: {t}" for t in tf],
        "functions_under_contract": fns,
        "proof_runs": [{k: p.get(k) for k in ("overlay", "status", "verified", "errors", "smt_ms", "vacuity", "reason")} for p in proofs],
        "smt_seconds": round(sum(p["smt_ms"] for p in proofs) / 1000, 2),
        "dropped_by_extraction": sorted({d for p in proofs for d in p["dropped"]}),
        "inlined_by_extraction": sorted({d for p in proofs for d in p["inlined"]}),
        "bounded_search": {k: h.get(k) for k in ("status", "reason", "evaluations", "distinct_nontrivial", "skipped", "rule", "samples", "failure") if h.get(k) is not None},
    }
    if assumed:
        cov["assumed_contracts_sampled"] = assumed
    level = "proof" if proofs else "exploration"
    if level == "exploration":
        cov["evaluations"], cov["distinct_nontrivial"] = h.get("evaluations", 0), h.get("distinct_nontrivial", 0)
        cov["rule"], cov["samples"] = h.get("rule", ""), h.get("samples", [])
    try:
        from overlays import ASSUMPTIONS
        assumptions = ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(prop, [])
    except ImportError:
        assumptions = []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(BUILD, f"{prop}.log"), "w").write("\n\n".join(log))

    for p in proofs:
        print(f"proof {p['overlay']}: {p['status']} ({p['verified']} verified, {p['errors']} errors, smt {p['smt_ms']} ms; {p['vacuity']}) {p['reason'][:300]}")
    if assumed:
        print(assumed)
    print(f"bounded search: {h['status']} {h.get('evaluations', '')} cases {h.get('reason', '')}{h.get('failure', '')[:600]}")
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if violation:
        for f in failures:
            print(f"failed obligation: {f['function']} ({f['source']}): {f['obligation']}")
        print(f"VIOLATION property={prop} replay={replay}" + (" no-failing-input-found" if nfi else ""))
        sys.exit(1)
    sys.exit(0)

main()
