import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C19": "needs file-system notification delivery, a thread and an mpsc channel: a liveness property over schedules, which no function contract in reach of Verus or Kani (no threads, no OS model) expresses; stated in DESIGN.md",
}
cfg = json.load(open(os.path.join(V, "contracts", "units.json"))) if os.path.exists(os.path.join(V, "contracts", "units.json")) else {"properties": {}}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] in NA:
        continue
    c = cfg["properties"].get(d["id"], {})
    lvl = "proof" if c.get("units") else "exploration"
    checks.append({
        "property": d["id"],
        "quick_cmd": f"python3 check.py {d['id']}",
        "thorough_cmd": f"python3 check.py {d['id']} thorough",
        "technique": c.get("technique", "contracts on the real code, Verus (bounded stand-in for now)"),
        "level": lvl,
        "level_note": c.get("note", "bounded search on the real code against an independent model of the format"),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the extractor reads the sources, the harness uses the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
