"""Write MANIFEST.json from the checks that exist and properties.jsonl."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = {}
if os.path.exists(f"{V}/tools/na.json"):
    NA = json.load(open(f"{V}/tools/na.json"))
checks, na = [], []
for i in ids:
    p = f"{V}/checks/{i}.py"
    if os.path.exists(p) and i not in NA:
        m = ast.parse(open(p).read())
        d = {}
        for n in m.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "NOTE", "LEVEL"):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": d["TECHNIQUE"], "level": d.get("LEVEL", "model_checking"),
                       "level_note": d["NOTE"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import quantify_scheduler, numpy'",
           "checks": checks, "not_applicable": na,
           "notes": "Pure Python: nothing to build; every check imports /repo's working tree (see run.sh)."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
