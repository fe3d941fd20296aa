#!/usr/bin/env python3
"""check.py PROPERTY — decides one property on /repo's current working tree.

1. builds the mechanical extractor (/verif/extract) and the replay harness (/verif/replay, path dependency on /repo)
2. for every plan the property depends on: extracts the functions from /repo/src, splices the contracts in, runs Verus
3. runs the replay harness: seeded + directed inputs against the real code (counterexample search, and the bounded
   stand-in for functions the verifier could not take on this tree)
4. writes evidence/<PROPERTY>.json and prints the verdict
"""
import json, os, re, subprocess, sys, time, threading, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "run"))
from config import PROPS
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
cfg = PROPS[PROP]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
WORK = os.path.join(BUILD, "work-%s-%d" % (PROP, os.getpid()))
os.makedirs(WORK, exist_ok=True)
log = lambda *a: print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def sh(cmd, timeout, cwd=VERIF, env=ENV, quiet=False):
    try:  # quiet: the code under test may print (Debug variants); what it prints on stderr is not wanted
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if quiet else subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e or ""
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)  # the solver processes too
        except ProcessLookupError: pass
        p.wait()
        return 124, "", "timeout after %ss" % timeout

def build_extractor():
    rc, o, e = sh(["cargo", "build", "-q", "--offline", "--locked", "--manifest-path", "extract/Cargo.toml", "--target-dir", os.path.join(BUILD, "x")], 300)
    if rc: raise RuntimeError("extractor build failed: " + e[-2000:])
    return os.path.join(BUILD, "x", "debug", "vx-extract")

def build_replay():
    feats = cfg.get("features", "base")
    d = os.path.join(BUILD, "r-" + feats)
    # the harness's manifest names /repo; VX_REPO lets the author point a scratch copy of the harness at a scratch tree
    man = os.path.join(VERIF, "replay", "Cargo.toml")
    if REPO != "/repo":
        src = os.path.join(WORK, "replay"); shutil.copytree(os.path.join(VERIF, "replay"), src)
        t = open(os.path.join(src, "Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(os.path.join(src, "Cargo.toml"), "w").write(t); man = os.path.join(src, "Cargo.toml")
        l = os.path.join(src, "Cargo.lock")
    rc, o, e = sh(["cargo", "build", "-q", "--offline", "--manifest-path", man, "--target-dir", d, "--features", feats] + cfg.get("cargo", []), 600)
    if rc: return None, e[-4000:]
    return os.path.join(d, "debug", "vx-replay"), ""

def build_cli():
    """the command-line tool itself, built from the tree under test"""
    d = os.path.join(BUILD, "cli")
    rc, o, e = sh(["cargo", "build", "-q", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--features", "commands", "--target-dir", d], 600)
    if rc: return None, e[-4000:]
    ENV["VX_CLI"] = os.path.join(d, "debug", "url-cleaner")
    return ENV["VX_CLI"], ""

OBL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift", "loop invariant", "decreases not satisfied", "could not prove", "constructed value may fail", "recommendation not met", "unable to prove", "cannot prove", "assert_by_compute", "index out of bounds", "unreachable")
def is_obligation(msg): return any(k in msg for k in OBL)
def is_limit(msg): return "rlimit" in msg or "Resource limit" in msg or "timed out" in msg

def run_verus(rs, rlimit, extra=(), limit=250):
    rc, o, e = sh(["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "2", "--rlimit", str(rlimit), "--num-threads", "4", *extra], limit, cwd=WORK)
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"): diags.append(d)
    try: out = json.loads(o[o.index("{"):])
    except ValueError: out = None
    return rc, out, diags, e

class Plan:
    def __init__(s, name): s.name = name; s.entries = []; s.failed = {}; s.limit = {}; s.undecided = {}; s.funcs = []; s.fatal = None; s.vac_bad = []; s.vac_ok = 0; s.trusted = []; s.smt_ms = 0; s.cmd = ""

def owner(entries, line):
    for x in entries:
        if x["status"] == "fn" and x["l0"] <= line < x["l1"]: return x
    return None

def run_plan(x, name):
    P = Plan(name)
    rs, mp = os.path.join(WORK, name + ".rs"), os.path.join(WORK, name + ".json")
    dropped = []
    for attempt in range(12):
        rc, o, e = sh([x, os.path.join(VERIF, "plans", name + ".vplan"), REPO, rs, mp, ",".join(dropped)], 60)
        if rc: P.fatal = "extractor: " + e[-800:]; return P
        P.entries = json.load(open(mp)); text = open(rs).read()
        rc, out, diags, err = run_verus(rs, 20, (), 120)
        if out is None and not diags: rc, out, diags, err = run_verus(rs, 20, ("-V", "spinoff-all"))  # a query that does not come back: one solver process per function
        front = [d for d in diags if not is_obligation(d["message"]) and not is_limit(d["message"])]
        if out is None and not front:
            P.fatal = "verus gave no result: " + err[-600:]; return P
        if not front: break
        hit = set()
        for d in front:
            for sp in d["spans"]:
                w = owner(P.entries, sp["line_start"])
                if w and sp["is_primary"]: hit.add(w["name"]); P.undecided[w["name"]] = "verifier front end: " + d["message"][:300]
        if not hit:
            for d in front:
                for sp in d["spans"]:
                    w = owner(P.entries, sp["line_start"])
                    if w: hit.add(w["name"]); P.undecided[w["name"]] = "verifier front end: " + d["message"][:300]
        if not hit:
            P.fatal = "contract text no longer fits the code: " + front[0]["rendered"][:800]; return P
        dropped = sorted(set(dropped) | hit)
    else:
        P.fatal = "too many front-end rejections"; return P
    P.cmd = "verus %s.rs --rlimit 20 (from plans/%s.vplan)" % (name, name)
    def collect(diags):
        failed, limit = {}, {}
        for d in diags:
            tags = re.findall(r"@(P\d\d)", " ".join(t["text"] for sp in d["spans"] for t in sp["text"]))
            if tags and PROP not in tags: continue  # a clause that belongs to other properties
            w = None
            for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                w = owner(P.entries, sp["line_start"])
                if w and not (d["message"].startswith("precondition") and not sp["is_primary"]): break
            key = w["name"] if w else "(lemma) " + (d["spans"][0]["text"][0]["text"].strip()[:80] if d["spans"] and d["spans"][0]["text"] else d["message"])
            (limit if is_limit(d["message"]) else failed).setdefault(key, []).append(d["rendered"][:1500])
        return failed, limit
    P.failed, P.limit = collect(diags)
    if P.failed or P.limit:  # confirm with other solver settings before believing a failure
        for extra in (("-V", "spinoff-all"), ("--smt-option", "smt.random_seed=7")):
            rc2, out2, diags2, _ = run_verus(rs, 60, extra)
            if out2 is None: continue
            f2, l2 = collect(diags2)
            ok_now = (set(P.failed) | set(P.limit)) - set(f2) - set(l2)
            for k in ok_now: P.failed.pop(k, None); P.limit.pop(k, None)
            for k in list(P.limit):
                if k in f2: P.failed[k] = f2[k]; P.limit.pop(k)
            if not P.failed and not P.limit: break
    for k, v in P.limit.items(): P.undecided[k] = "solver resource limit"
    for t in P.entries:
        if t["status"] in ("lost", "losttype"): P.undecided[t["name"]] = "not extracted: " + t["detail"]
    try:
        for m in out["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []): P.funcs.append((f["function"], f.get("mode:", ""), f["time-micros"], f["success"]))
        P.smt_ms = out["times-ms"]["smt"]["smt-run"]
    except (KeyError, TypeError): pass
    P.trusted = scan_trusted(text)
    # vacuity: with `ensures false` every contracted body must fail
    if not P.failed:
        rc, o, e = sh([x, os.path.join(VERIF, "plans", name + ".vplan"), REPO, rs[:-3] + "_vac.rs", mp[:-5] + "_vac.json", ",".join(dropped)], 60, env=dict(ENV, VX_VACUITY="1"))
        if rc == 0:
            ve = json.load(open(mp[:-5] + "_vac.json"))
            rc, out, diags, err = run_verus(rs[:-3] + "_vac.rs", 10)
            bad = set()
            for d in diags:
                for sp in d["spans"]:
                    for t in ve:
                        if t["status"] == "fn" and t["l0"] <= sp["line_start"] < t["l1"]: bad.add(t["name"])
            fns = [t["name"] for t in ve if t["status"] == "fn"]
            if out is not None and diags and not any(not is_obligation(d["message"]) and not is_limit(d["message"]) for d in diags):
                P.vac_ok = len([f for f in fns if f in bad]); P.vac_bad = [f for f in fns if f not in bad]
            else: P.vac_bad = ["(vacuity probe did not run: %s)" % (diags[0]["message"][:200] if diags else err[-200:])]
    return P

def scan_trusted(text):
    """mechanical scan: every external_body / assume_specification / axiom / uninterpreted symbol in the verified file"""
    out = []; lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l or "assume_specification" in l or "admit()" in l or re.search(r"\bassume\(", l):
            j = i
            while j < len(lines) and not re.search(r"\b(fn|struct|assume_specification)\b", lines[j]): j += 1
            t = lines[j].strip() if j < len(lines) else l.strip()
            m = re.search(r"(proof fn|fn|struct)\s+([A-Za-z0-9_]+)", t)
            out.append((m.group(1) + " " + m.group(2)) if m else t[:100])
    return out

def load_known():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: out.append(m.groups())
    except OSError: pass
    return out

def run_replay(binp):
    out = os.path.join(WORK, "replay.json")
    scale = "10" if TIER == "thorough" else "1"
    args = [binp, PROP, str(SEED), scale, out]
    tmo = 500 if TIER == "thorough" else 200
    rc, o, e = sh(args, tmo, cwd=WORK, quiet=True)
    if os.path.exists(out):
        r = json.load(open(out)); r["rc"] = rc
        return r
    # the process died or hung outside its own watchdog: find the case
    rc2, o2, e2 = sh(args + ["--trace", os.path.join(WORK, "trace.txt")], tmo, cwd=WORK, quiet=True)
    last = ""
    try: last = open(os.path.join(WORK, "trace.txt")).read()
    except OSError: pass
    if last and not os.path.exists(out):
        return {"evaluations": 0, "distinct": 0, "samples": [], "violations": [{"key": "crash", "case": last[:4000], "expected": "terminates normally", "got": "process ended with code %s %s" % (rc, o[-500:])}], "rc": rc}
    if os.path.exists(out): return json.load(open(out))
    return {"error": "replay harness gave no result (code %s): %s" % (rc, o[-1500:])}

def main():
    pool = cf.ThreadPoolExecutor(8)
    fr = pool.submit(build_replay)
    fc = pool.submit(build_cli) if cfg.get("cli") else None
    plans = []
    if cfg["plans"]:
        x = build_extractor(); log("extractor built")
        plans = list(pool.map(lambda n: run_plan(x, n), [p for p, _ in cfg["plans"]]))
        log("verifier done")
    binp, berr = fr.result(); log("replay harness built" if binp else "replay harness did not build")
    if fc:
        c, cerr = fc.result(); log("command-line tool built" if c else "command-line tool did not build")
        if not c: binp, berr = None, cerr
    rep = run_replay(binp) if binp else {"error": "build: " + berr}
    log("replay done")
    known = load_known()
    viol, kn = [], []
    for v in rep.get("violations", []):
        hit = [k for k in known if k[0] == PROP and k[1] == v["key"]]
        (kn if hit else viol).append(v)
    under, failed, undecided, obligations, discharged, notes = [], {}, {}, 0, 0, []
    trusted, cmds, skipped, smt, vac_ok = set(), [], [], 0, 0
    for P, (name, pat) in zip(plans, cfg["plans"]):
        rx = re.compile(pat)
        mine = lambda n: bool(rx.search(n)) or n.startswith("(lemma)")
        if P.fatal:
            undecided["plan " + name] = P.fatal; notes.append("%s: %s" % (name, P.fatal)); continue
        cmds.append(P.cmd); smt += P.smt_ms; trusted |= {"%s: %s" % (name, t) for t in P.trusted}
        for k, v in P.undecided.items():
            if mine(k): undecided["%s/%s" % (name, k)] = v
        for k, v in P.failed.items():
            if mine(k): failed["%s/%s" % (name, k)] = v
            else: notes.append("obligation failed outside this property's scope: %s/%s" % (name, k))
        fns = [t for t in P.entries if t["status"] == "fn" and mine(t["name"])]
        times = {}
        for f, mode, us, ok in P.funcs: times[f.split("::")[-1]] = us
        for t in fns:
            obligations += 1
            ok = t["name"] not in P.failed and t["name"] not in P.limit
            discharged += ok
            under.append({"function": t["name"], "file": t["file"], "plan": name, "discharged": ok})
        for f, mode, us, ok in P.funcs:
            if mode == "proof": obligations += 1; discharged += bool(ok)
        vac_ok += P.vac_ok
        for b in P.vac_bad:
            if mine(b) or b.startswith("("): undecided["%s/%s" % (name, b)] = "vacuity probe: `ensures false` was accepted or the probe did not run"
        have = {t["name"] for t in P.entries if t["status"] == "fn"}
        for t in P.entries:
            if t["status"] in ("skipped", "uncontracted") and t["name"] not in have and mine(t["name"]) and "%s: %s" % (t["name"], t["detail"]) not in skipped: skipped.append("%s: %s" % (t["name"], t["detail"]))
    if plans and not under and not failed: notes.append("no function could be put under contract on this tree: bounded replay alone decides")
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged, "checker_cmd": "; ".join(cmds) or "none",
            "trusted_base": sorted(trusted) + ["verus 0.2026.09.13 + z3 (SMT back end)", "extractor /verif/extract (drops: attributes, docs, visibility, debug!/println!; desugars Option/Result closure combinators, format!, get_str! family as listed in DESIGN.md)"],
            "functions_under_contract": under, "undecided_functions": undecided, "not_under_contract": skipped,
            "vacuity_probes_refuted": vac_ok, "solver_ms": smt, "backend": "verus/z3",
            "failed_obligations": {k: v[:2] for k, v in failed.items()},
            "bounded_replay": {"label": "bounded: never counted as proved; counterexample search and validation of the assumed contracts",
                               "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct", 0), "rule": rep.get("rule", ""), "samples": rep.get("samples", [])[:5], "error": rep.get("error")},
            "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct", 0), "rule": rep.get("rule", ""), "samples": rep.get("samples", [])[:5],
        },
        "assumptions": cfg["assumptions"] + notes,
        "wall_s": round(time.time() - T0, 1), "violations": len(viol) + (1 if failed and not viol else 0),
    }
    if not cmds: ev["level"] = "exploration"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)
    shutil.rmtree(WORK, ignore_errors=True)
    for k in {v["key"] for v in kn}:
        txt = [x[2] for x in known if x[0] == PROP and x[1] == k][0]
        print("KNOWN-FINDING: property=%s %s" % (PROP, txt))
    rp = os.path.join(VERIF, "evidence", "replay-%s.json" % PROP)
    log("obligations %d discharged %d undecided %d, replay evaluations %d" % (obligations, discharged, len(undecided), rep.get("evaluations", 0)))
    for k, v in undecided.items(): log("undecided:", k, "--", v.replace("\n", " ")[:300])
    if viol:
        json.dump({"property": PROP, "failing_inputs": viol[:20], "failed_obligations": failed, "how": "the failing case is written out; rerun with: %s/build/r-*/debug/vx-replay %s %d 1 out.json" % (VERIF, PROP, SEED)}, open(rp, "w"), indent=1)
        for v in viol[:3]: print("failing input:", json.dumps(v)[:1500])
        for k in failed: print("failed obligation:", k)
        print("VIOLATION property=%s replay=%s" % (PROP, rp)); sys.exit(1)
    if failed:
        json.dump({"property": PROP, "failed_obligations": failed, "failing_inputs": [], "note": "no failing input found by %d replayed inputs" % rep.get("evaluations", 0)}, open(rp, "w"), indent=1)
        for k, v in failed.items(): print("failed obligation:", k, "\n", v[0])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, rp)); sys.exit(1)
    if "error" in rep and rep["error"]:
        log("replay:", rep["error"])
        if undecided or not plans: log("no answer: neither the proof nor the bounded stand-in could run"); sys.exit(2)
    if os.path.exists(rp): os.remove(rp)
    sys.exit(0)
main()
