#!/usr/bin/env python3
"""finding.py P20 key 'commit what' ...: adds fixed entries to known_findings.json (by hand only, never by a check)."""
import json, os, sys
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
k = json.load(open(f))
for i in range(2, len(sys.argv), 2):
    k.append(dict(property=sys.argv[1], status="fixed", key=sys.argv[i], what="fixed: property=%s %s" % (sys.argv[1], sys.argv[i + 1])))
json.dump(k, open(f, "w"), indent=1)
