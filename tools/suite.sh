#!/bin/bash
# run the repository's own stable tests on its current tree and report stable tests that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/suite.$$.json >/dev/null 2>&1
python3 - /tmp/suite.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
bad=sorted(set(b['stable'])-set(t['passed']))
print("stable not passing:",bad, "| passed:",len(t['passed']))
P
rm -f /tmp/suite.$$.json
