"""tech.py PROP technique note"""
import json, sys
p = "/verif/tools/technique.json"
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
open(p, "w").write(json.dumps(d, indent=1) + "\n")
