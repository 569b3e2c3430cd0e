#!/bin/bash
# rebuild /repo and run its tests; prints the stable tests that do not pass
bash /opt/vp/build.sh > /tmp/suite-b.log 2>&1 || { echo "build failed"; tail -5 /tmp/suite-b.log; exit 2; }
bash /opt/vp/test.sh /tmp/suite.json > /tmp/suite-t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/suite.json'))['passed'])
print('stable tests missing:', [x for x in b if x not in p])"
