#!/bin/bash
# Runs the repository's own tests and compares with the baseline.
o=$(mktemp)
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"
bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
miss = [t for t in b['stable'] if t not in o['passed']]
print("baseline", len(b['stable']), "passed", len(o['passed']), "missing", miss)
P
rm -f "$o"
