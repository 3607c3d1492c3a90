#!/bin/bash
# mut.sh PROP file 'python-old' 'python-new' [count]
rm -rf /tmp/w/repo; mkdir -p /tmp/w/repo; cp -a /repo/simim /tmp/w/repo/
python3 - "$2" "$3" "$4" <<'PY'
import sys
f='/tmp/w/repo/'+sys.argv[1]; s=open(f).read(); assert sys.argv[2] in s, 'pattern absent'
s=s.replace(sys.argv[2],sys.argv[3],1); open(f,'w').write(s)
PY
cd /verif; VSX_REPO=/tmp/w/repo ./check.sh $1 2>&1 | tail -${5:-8}; echo "exit ${PIPESTATUS[0]}"
