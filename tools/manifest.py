#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LTS = "TLA+ spec, TLC-enumerated behaviours replayed against the code"
TRACE = "TLA+ spec, recorded executions validated with TLC"
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CLAIMS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                       thorough_cmd="python3 check.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c[0], level="model_checking", level_note=c[1]))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the checks observe the public API of the header-only library. Every check compiles its harness from /repo's working tree.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
