#!/bin/bash
# runs the repository's tests and compares with the stable list
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1])); miss=b-set(r['passed'])
print('stable ok' if not miss else 'BROKEN %s'%sorted(miss)[:10]); sys.exit(bool(miss))
P
