"""Runs the contract units a property depends on: extract from /repo, verify with Verus, read the verdict.

contracts/units.json: {"properties": {"C01": {"units": ["hdr"], ...}}}
A unit is contracts/<unit>.vc. Each function in it says with `:props` which properties its contract carries; a
postcondition line may narrow that with a trailing `//# C01 C02`.
Verdict per function of a unit:
  proved      every obligation discharged
  failed      an obligation of a function the extractor read completely is refuted or not provable
  downgraded  the function left the verifier's reach (anchor or loop structure gone, unsupported construct, a
              helper without contract, resource limit): its contract is assumed for its callers, the bounded
              harness decides alone
"""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
C = os.path.join(V, "contracts")
REPO = os.environ.get("VX_REPO", "/repo")
X = os.path.join(B, "xtarget", "release", "vextract")

FAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                  r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
                  r"possible bit shift|unable to prove|recursive function.*decrease|requires not satisfied|"
                  r"cannot prove termination|could not prove termination|unreached|assertion not satisfied|"
                  r"cannot show|ensures not satisfied", re.I)
RLIMIT = re.compile(r"resource limit|rlimit", re.I)
SAFETY = re.compile(r"precondition not satisfied|arithmetic|division|bit shift|decreases|termination", re.I)

def build_extractor():
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "xtarget"), CARGO_NET_OFFLINE="true")
    with open(os.path.join(B, "xlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "extract"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout

def expand():
    """the code #[block] and generate! produce for genblocks, as Rust source (.build/gen/exp.rs)"""
    g = os.path.join(B, "gen")
    with open(os.path.join(B, "glock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(g, ignore_errors=True)
        shutil.copytree(os.path.join(V, "genblocks"), g)
        for d, _, fs in os.walk(g):
            for f in fs:
                os.utime(os.path.join(d, f))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "gtarget"), CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1")
        p = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--quiet", "--", "-Zunpretty=expanded"], cwd=g, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            return False, p.stderr
        open(os.path.join(g, "exp.rs"), "w").write(p.stdout)
    return True, ""

def extract(unit, out, js, stubs, canary=False):
    cmd = [X, os.path.join(C, unit + ".vc"), REPO, out, js]
    for s in stubs:
        cmd += ["--stub", s]
    env = dict(os.environ, VX_GEN=os.path.join(B, "gen"))
    if canary:
        env["VX_CANARY"] = "1"
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (json.load(open(js)) if p.returncode == 0 else None), p.stdout

def verus_cmd(f, extra=()):
    return ["verus", "--edition", "2024", os.path.basename(f), "--output-json", "--time-expanded", "--error-format=json",
            "--num-threads", "4", "--rlimit", "20", *extra]

END = [None]  # the proofs of one check end by then, whatever state they are in; what is not decided is bounded only

def verus(f, limit, extra=()):
    if END[0] is not None:
        limit = min(limit, END[0] - time.time())
        if limit < 5:
            return None, []
    try:
        p = subprocess.run(verus_cmd(f, extra), cwd=os.path.dirname(f), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None, []
    msgs = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                msgs.append(d)
        elif l.strip():
            msgs.append({"message": l, "spans": [], "rendered": l, "level": "text"})
    try:
        res = json.loads(p.stdout)
    except ValueError:
        res = None
    return res, [m for m in msgs if m["level"] == "error" and not m["message"].startswith("aborting")]

def where(m, info):
    """map entry of the function a message is about (its body, or where it is called from)"""
    best = None
    for s in sorted(m.get("spans", []), key=lambda s: s.get("is_primary", False)):
        for e in info["map"]:
            if e["from"] <= s["line_start"] < e["to"]:
                if e["what"] == "fn":
                    return e
                best = best or e
    return best

def clause_props(m, lines):
    for s in m.get("spans", []):
        if "failed this postcondition" in (s.get("label") or ""):
            for n in range(s["line_start"], s["line_end"] + 1):
                t = re.search(r"//#\s*(.*)$", lines[n - 1])
                if t:
                    return t.group(1).split()
    return None

def run_unit(unit, thorough=False):
    """-> dict for the unit"""
    w = os.path.join(B, "units", unit)
    os.makedirs(w, exist_ok=True)
    src, js = os.path.join(w, unit + ".rs"), os.path.join(w, unit + ".json")
    stubs, down, notes = set(), {}, []
    r = {"unit": unit, "failed": [], "downgraded": [], "functions": [], "verified": 0, "errors": 0, "smt_s": 0.0,
         "trusted": [], "output": "", "slow": [], "whole": False}
    limit = 600 if thorough else 240
    for attempt in range(7):
        info, log = extract(unit, src, js, sorted(stubs))
        if info is None:
            r["downgraded"].append(f"unit {unit}: extraction failed: {log[-300:]}")
            r["whole"] = True
            return r
        for k, why in info["lost"].items():
            down.setdefault(k, why)
        res, msgs = verus(src, limit)
        if res is None and not msgs:
            r["downgraded"].append(f"unit {unit}: the verifier did not end in its time")
            r["whole"] = True
            return r
        lines = open(src).read().splitlines()
        again, failed = False, []
        for m in msgs:
            e = where(m, info)
            if FAIL.search(m["message"]) and not RLIMIT.search(m["message"]):
                failed.append((m, e))
                continue
            why = "resource limit" if RLIMIT.search(m["message"]) else "outside the verifier's reach: " + m["message"][:160]
            if e is not None and e["what"] == "fn" and not e["stub"]:
                if e["key"] not in stubs:
                    stubs.add(e["key"])
                    down.setdefault(e["key"], why)
                    again = True
            else:
                r["output"] += m.get("rendered", "")
                r["downgraded"].append(f"unit {unit}: {why} ({e['key'] if e else 'no place'})")
                r["whole"] = True
                return r
        if not again:
            break
    else:
        r["downgraded"].append(f"unit {unit}: too many functions outside the verifier's reach")
        r["whole"] = True
        return r
    # helpers of the same files that are called but have no contract cannot be judged through their caller
    for m, e in failed:
        text = m.get("rendered", "")
        r["output"] += text
        key = e["key"] if e else "?"
        kind = m["message"]
        if e is not None and e["what"] == "fn" and e["key"] in down:
            continue
        props = clause_props(m, lines)
        if props is None:
            props = list(e.get("props", [])) if e is not None and e["what"] == "fn" else None
        sp = next((s for s in m.get("spans", []) if "failed this postcondition" in (s.get("label") or "")), None)
        clause = " ".join(t["text"].strip() for t in sp["text"])[:300] if sp else ""
        r["failed"].append({"unit": unit, "function": key, "obligation": kind, "clause": clause, "props": props,
                            "safety": bool(SAFETY.search(kind)), "item": e is None or e["what"] != "fn"})
    vr = (res or {}).get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = (res or {}).get("times-ms", {}).get("smt", {})
    r["smt_s"] = smt.get("smt-run", 0) / 1000.0
    if not failed and not vr.get("success"):
        r["downgraded"].append(f"unit {unit}: the verifier gave no verdict")
        r["whole"] = True
        return r
    r["down"] = down
    r["downgraded"] += [f"{k}: {w}" for k, w in down.items()]
    for e in info["map"]:
        if e["what"] == "fn":
            r["functions"].append({"key": e["key"], "props": e["props"], "assumed": e["assumed"],
                                   "down": e["key"] in down})
    text = "\n".join(lines)
    for m in re.finditer(r"(broadcast axiom fn|axiom fn|assume_specification|assume\(|admit\(|uninterp spec fn)\s*([\w\[<][^(]*)?", text):
        r["trusted"].append(f"{m.group(1)} {' '.join((m.group(2) or '').split())}".strip())
    eb = [m.group(1) for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:fn|struct)\s+(\w+)", text)]
    r["trusted"] += [f"external_body {n}" for n in sorted(set(eb))]
    # vacuity: with assert(false) at the start of every body, every function has to be refused
    if not failed or thorough:
        cs = os.path.join(w, unit + "_canary.rs")
        ci, _ = extract(unit, cs, cs[:-3] + ".json", sorted(stubs), canary=True)
        if ci is not None:
            cres, cm = verus(cs, limit)
            hit = {e["key"] for m in cm if "assertion failed" in m["message"] or RLIMIT.search(m["message"]) for e in [where(m, ci)] if e is not None}
            want = {e["key"] for e in ci["map"] if e["what"] == "fn" and not e["stub"] and has_body(cs, e)}
            vac = want - hit
            r["canaries"] = [len(want) - len(vac), len(want)]
            if vac and cres is not None:
                notes.append("vacuous contract: " + ", ".join(sorted(vac)))
                r["downgraded"].append(f"unit {unit}: a contract is vacuous: {sorted(vac)}")
    r["notes"] = notes
    return r

def has_body(f, e):
    t = open(f).read().splitlines()[e["from"] - 1:e["to"]]
    return any("assert(false)" in l for l in t)

def props_of(pid):
    p = os.path.join(C, "units.json")
    if not os.path.exists(p):
        return {}
    return json.load(open(p)).get("properties", {}).get(pid, {})

def run(pid, tier):
    out = {"obligations": 0, "discharged": 0, "failed": [], "output": "", "cmd": "none", "trusted": [], "functions": [],
           "units": [], "solver_s": 0.0, "downgraded": [], "notes": []}
    cfg = props_of(pid)
    units = cfg.get("units", [])
    if not units:
        return out
    END[0] = time.time() + (560 if tier == "quick" else 6 * 3600)
    ok, log = build_extractor()
    if not ok:
        out["downgraded"].append("the extractor does not build: " + log[-300:])
        return out
    if any(u.startswith("gen_") for u in units):
        ok, log = expand()
        if not ok:
            out["downgraded"].append("the generated code cannot be expanded: " + log[-300:])
            units = [u for u in units if not u.startswith("gen_")]
    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda u: run_unit(u, tier == "thorough"), units))
    out["cmd"] = "vextract contracts/<unit>.vc /repo <unit>.rs; verus --edition 2024 <unit>.rs (units: " + ", ".join(units) + ")"
    trusted = set()
    safety_only = cfg.get("safety", False)
    for r in rs:
        trusted |= set(r["trusted"])
        out["output"] += r["output"]
        out["solver_s"] += r["smt_s"]
        mine = [f for f in r["functions"] if safety_only or pid in f["props"]]
        names = {f["key"] for f in mine}
        for f in mine:
            if f["assumed"] or f["down"]:
                continue
            if f["key"] not in out["functions"]:
                out["functions"].append(f["key"])
        out["downgraded"] += [d for d in r["downgraded"]
                              if r["whole"] or d.startswith("unit ") or d.split(":")[0] in names or " const " in d or " struct " in d or " enum " in d]
        fails = []
        for f in r["failed"]:
            if f["item"]:
                out["downgraded"].append(f"unit {r['unit']}: a lemma is not accepted on this tree: {f['function']} ({f['obligation']})")
                continue
            if safety_only:
                if f["safety"]:
                    fails.append(f)
            elif f["props"] is not None and pid in f["props"]:
                fails.append(f)
        for f in fails:
            out["failed"].append(f"{f['function']}: {f['obligation']}" + (f" [{f['clause']}]" if f["clause"] else ""))
        out["obligations"] += r["verified"] + r["errors"]
        out["discharged"] += r["verified"]
        out["units"].append({"unit": r["unit"], "verified": r["verified"], "errors": r["errors"], "smt_s": r["smt_s"],
                             "vacuity_canaries": r.get("canaries"), "assumed_contracts":
                             [f["key"] for f in r["functions"] if f["assumed"]]})
        out["notes"] += r.get("notes", [])
    if out["downgraded"]:
        pass
    out["trusted"] = sorted(trusted)
    out["solver_s"] = round(out["solver_s"], 2)
    out["notes"] += cfg.get("assumptions", [])
    return out

if __name__ == "__main__":
    import sys
    t = time.time()
    build_extractor()
    if any(u.startswith("gen_") for u in sys.argv[1:]):
        print("expansion", expand())
    for u in sys.argv[1:]:
        r = run_unit(u)
        print(u, "verified", r["verified"], "errors", r["errors"], "smt", r["smt_s"], "canaries", r.get("canaries"),
              "functions", len([f for f in r["functions"] if not f["assumed"] and not f["down"]]))
        for f in r["failed"]:
            print("  FAILED", f)
        for d in r["downgraded"]:
            print("  DOWN", d)
        if r["failed"] or r["downgraded"]:
            print(r["output"][:6000])
    print(round(time.time() - t, 1), "s")
