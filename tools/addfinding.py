"""addfinding.py PROP ID 'commit subject part' 'what failed'  (records a repaired finding)"""
import json, subprocess, sys
prop, i, sub, w = sys.argv[1:5]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
c = next(l.split()[0] for l in log if sub in l)
d = json.load(open("/verif/known_findings.json"))
d["findings"].append({"property": prop, "id": i, "status": "fixed", "commit": c, "what": f"fixed: property={prop} {c} {w}"})
open("/verif/known_findings.json", "w").write(json.dumps(d, indent=1) + "\n")
