#!/usr/bin/env python3
"""check.py <property>: decides one property of icsmw/brec on /repo's current working tree.

1. contracts: the functions the property depends on are extracted from /repo, joined with their
   contracts (/verif/contracts) and handed to Verus; every obligation has to be discharged.
2. bounded: the harness (/verif/harness) is built against /repo and searches for a failing input: it
   replays failed obligations on the real code, and stands in for functions outside the verifier's reach.
Exit 0: held. Exit 1 and a VIOLATION line: broken.
"""
import fcntl, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
EV = os.path.join(V, "evidence")
sys.path.insert(0, os.path.join(V, "tools"))

def build_harness():
    """Returns (binary or None, log)."""
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "target"), CARGO_NET_OFFLINE="true")
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = ""
        for extra in ([], ["--no-default-features"]):
            p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + extra, cwd=os.path.join(V, "harness"),
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                return os.path.join(B, "target", "debug", "brec_bounded"), log
            log += p.stdout
    return None, log

def run_harness(exe, pid, tier, seed, limit):
    w = os.path.join(B, "run", pid)
    os.makedirs(w, exist_ok=True)
    out, prog = os.path.join(w, "result.json"), os.path.join(w, "progress")
    for f in (out, prog):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, pid, "--seed", str(seed), "--tier", tier, "--out", out, "--progress", prog]
    try:
        # address space limit: a runaway allocation must not take the sandbox with it
        p = subprocess.run(["bash", "-c", 'ulimit -v 24000000; exec "$@"', "x"] + cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
        rc, text = p.returncode, p.stdout[-4000:]
    except subprocess.TimeoutExpired as e:
        rc, text = "time limit", str(e.stdout or "")[-2000:]
    res = json.load(open(out)) if os.path.exists(out) else None
    if res is not None and rc in (0, 1):
        return res
    # crash, abort or endless loop: the progress record names the case
    rec = open(prog).read().split() if os.path.exists(prog) else []
    if rc == "time limit":  # the sum of the cases took too long: no verdict on the one running
        return {"evaluations": 0, "distinct": 0, "groups": [], "samples": [], "failure": None, "incomplete": True}
    what = {3: "the case does not end within the time limit"}.get(rc, f"the process ended with status {rc}")
    g, i = (rec[0], int(rec[1])) if len(rec) == 2 else ("?", -1)
    return {"evaluations": max(i, 0) + 1, "distinct": 0, "groups": [], "samples": [],
            "failure": {"group": g, "index": i, "what": what + "\n" + text, "input": "see the replay command"}}

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    replay = os.path.join(EV, "replay", pid + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    import proofs
    pr = proofs.run(pid, tier)
    exe, blog = build_harness()
    if exe is None:
        bd = None
        print("harness does not build against this tree:", blog[-1500:])
    else:
        bd = run_harness(exe, pid, tier, seed, 500 if tier == "quick" else 3000)
    fail = bd and bd.get("failure")
    violation = None
    if fail:
        violation = ""
        rep = {"property": pid, "kind": "failing input on the real code", **fail, "seed": seed, "tier": tier,
               "replay_cmd": f"{exe} {pid} --seed {seed} --tier {tier} --only {fail['group']}:{fail['index']}",
               "failed_obligations": pr["failed"]}
    elif pr["failed"]:
        violation = " no-failing-input-found"
        rep = {"property": pid, "kind": "failed obligation", "failed_obligations": pr["failed"],
               "verifier_output": pr["output"][-12000:]}
    proved = pr["obligations"] > 0 and pr["discharged"] == pr["obligations"] and not pr["downgraded"]
    cov = {
        "obligations": pr["obligations"], "discharged": pr["discharged"], "checker_cmd": pr["cmd"],
        "trusted_base": pr["trusted"], "functions_under_contract": pr["functions"], "units": pr["units"],
        "solver_seconds": pr["solver_s"], "downgraded_to_bounded": pr["downgraded"],
        "evaluations": bd["evaluations"] if bd else 0, "distinct_nontrivial": bd["distinct"] if bd else 0,
        "rule": "bounded stand-in / counterexample search: seeded cases per group; a case is non-trivial unless its "
                "input is empty or undamaged, distinct by a fingerprint of its input; groups: "
                + "; ".join(f"{g['group']} ({g['cases']}): {g['what']}" for g in (bd or {}).get("groups", [])),
        "samples": (bd or {}).get("samples", [])[:12],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if pr["obligations"] > 0 else "exploration",
          "coverage": cov, "assumptions": pr["trusted"] + pr["notes"], "wall_s": round(time.time() - t0, 1),
          "violations": 0 if violation is None else 1}
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for d in pr["downgraded"]:
        print(f"note: {d} (bounded only on this tree)")
    if violation is not None:
        json.dump(rep, open(replay, "w"), indent=1)
        print((fail or {}).get("what", "") or "failed obligations: " + ", ".join(pr["failed"]))
        print(f"VIOLATION property={pid} replay={replay}{violation}")
        return 1
    if bd is None and not proved:
        print("undecided: neither the proofs nor the harness could be run on this tree")
        return 2
    for line in known(pid):
        print(line)
    print(f"{pid}: held: {pr['discharged']}/{pr['obligations']} obligations over {len(pr['functions'])} functions, "
          f"{cov['evaluations']} bounded cases, {ev['wall_s']} s")
    return 0

def known(pid):
    p = os.path.join(V, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return ["KNOWN-FINDING: " + l[7:].strip() for l in open(p) if l.startswith("known: ") and f"property={pid} " in l]

sys.exit(main())
