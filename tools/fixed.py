"""fixed.py PROPERTY what : record the last /repo commit as a fix."""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
h = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], capture_output=True, text=True).stdout.strip()
d["fixed"].append(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}")
json.dump(d, open(p, "w"), indent=1)
