#!/usr/bin/env python3
"""finding.py fixed PROP COMMIT 'what' | known PROP KEY 'what'"""
import json, sys
p = "/verif/known-findings.json"
d = json.load(open(p))
k = [x for x in d if isinstance(d[x], list)][0]
kind, prop, ref, what = sys.argv[1:5]
if kind == "fixed":
    d[k].append({"property": prop, "status": "fixed", "commit": ref, "what": "fixed: property=%s %s %s" % (prop, ref, what)})
else:
    d[k].append({"property": prop, "status": "known", "key": ref, "what": what})
json.dump(d, open(p, "w"), indent=1)
