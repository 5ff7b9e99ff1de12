"""Write MANIFEST.json from the check modules present (tools/mkmanifest.py)."""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
TECH = json.loads((R / "tools" / "technique.json").read_text())
checks, na = [], []
for l in (R / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)["id"]
    if (R / "checks" / f"{p.lower()}.py").exists():
        t = TECH[p]
        checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                       "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": p, "reason": TECH.get(p, ["", "the check is not built yet"])[1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
