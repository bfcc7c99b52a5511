#!/bin/bash
# Runs the repository's tests and prints the stable ones that did not pass.
out=$(mktemp); bash /opt/vp/test.sh $out > /tmp/repotest.log 2>&1
python3 - $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(o['passed'])); print("stable not passed:",len(m)); [print(" ",x) for x in m[:20]]
sys.exit(1 if m else 0)
PY
r=$?; rm -f $out; exit $r
