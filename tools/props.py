"""Writes properties.jsonl and MANIFEST.json."""
import json, os
P, CHECKS, NA = [], [], []
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def prop(id, crate, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note=""):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
    CHECKS.append({"property": id, "quick_cmd": f"./run.sh {crate} {id}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {crate} {id}",
                   "technique": tech, "level": "model_checking", "level_note": note})

BFS = "explicit-state search over the real code, lock-step with a reference model"
ENUM = "exhaustive enumeration of bounded executions of the real code against a reference model"
import props_data
props_data.define(prop, NA, BFS, ENUM)

if __name__ == "__main__":
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": sorted(CHECKS, key=lambda c: c["property"]),
         "not_applicable": NA,
         "notes": "run.sh builds the check's crate in ws/ against /repo's working tree (path dependencies through ws/wrap) and runs it; no hooks in /repo are needed."}
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
