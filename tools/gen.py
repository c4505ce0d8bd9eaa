"""Writes properties.jsonl and MANIFEST.json (run from anywhere)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), note="", na=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe,
                          "hook_needed": None}})
    P[-1]["_note"], P[-1]["_na"], P[-1]["_level"] = note, na, level


exec(open(V / "tools" / "props_src.py").read())

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    if p["_na"]:
        NA.append({"property": p["id"], "reason": p["_na"]})
        continue
    assert list((V / "dst" / "props").glob(p["id"].lower() + "_*.py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                   "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                   "level": p["_level"], "level_note": p["_note"]})
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
    "notes": "The seam is patched into the interpreter by the simulator (dst/seam.py); /repo carries no hooks."}, indent=1) + "\n")
print(len(P), "properties,", len(checks), "claimed")
