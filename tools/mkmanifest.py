"""Writes MANIFEST.json: a check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    n = NOTE.get(pid, {})
    if os.path.exists(os.path.join(V, "harness", pid.lower() + ".py")) and "na" not in n:
        checks.append({
            "property": pid,
            "quick_cmd": "bash check.sh %s quick" % pid,
            "thorough_cmd": "bash check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": n.get("technique", "TLA+ specification model-checked with TLC; TLC-generated cases replayed into the code and the recorded traces validated by TLC"),
            "level": "model_checking",
            "level_note": n.get("note", "Exhaustive on the specification for the constants in the harness; on the code for the replayed cases only. Trusts TLC, the projection in the harness and the fixed-point scaling.")})
    else:
        na.append({"property": pid, "reason": n.get("na", "machinery not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. Every check: (1) TLC checks the specification exhaustively for small constants and emits cases, "
              "(2) the cases are replayed into the working tree of /repo through its API, (3) TLC validates the recorded "
              "observations against the specification. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
