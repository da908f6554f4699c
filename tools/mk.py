"""Writes properties.jsonl and MANIFEST.json from one table (run it after editing the table)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/quanguru/classes/"
T = "src/quanguru/QuantumToolbox/"
X = "src/quanguru/extensions/"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, tech=tech, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

checks, na = [], []
for p in P:
    built = os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"] + ".py"))
    if p["na"] or not built:
        na.append({"property": p["id"], "reason": p["na"] or "its specification is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; vf/ replays their behaviours into the real code and records traces of "
              "the real code that TLC validates.  No hooks in /repo: everything is observed through the public API."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
