#!/bin/bash
# mut.sh 'PROP..' FILE 'python expr on s' : apply a text mutation in a scratch copy of /repo, run the quick checks, undo.  For development only.
cd /verif
export VERIF_REPO=${VERIF_REPO:-/tmp/dev/repo}
git -C $VERIF_REPO diff --quiet || { echo "copy dirty"; exit 3; }
python3 - "$2" "$3" <<'P'
import sys, os
p=os.environ['VERIF_REPO']+'/src/stcal/'+sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2]); assert t!=s,"no change"; open(p,'w').write(t)
P
[ $? = 0 ] && for c in $1; do ./check $c quick 2>&1 | cut -c1-300 | tail -${N:-2}; done
git -C $VERIF_REPO checkout -- .
