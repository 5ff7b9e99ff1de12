import sys, json, pathlib
sys.path.insert(0,'/verif')
from vlib.core import dec, brief
d=json.load(open(sys.argv[1])); c=dec(d['case'])
print(d['message'][:600])
for k,v in c.items():
    print(k, v.tolist() if hasattr(v,'tolist') and v.size<400 else v)
