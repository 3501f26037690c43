#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/pbt")
sys.dont_write_bytecode = True
import check, runner
NA = json.load(open(V + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in runner.CHECKS: continue
    c = runner.CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 pbt/check.py %s" % i, thorough_cmd="python3 pbt/check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique=c.technique, level="exploration",
                       level_note=("Random search, no proof: holds on every generated case. " + c.note).strip() + " Trusts the oracle in /verif/pbt and the virtual clock shim."))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in runner.CHECKS]
json.dump(dict(version=1, setup_cmd="python3 pbt/build.py rel", checks=checks, not_applicable=na,
               notes="No hooks: the checks build /repo's sources unchanged and drive the real server process. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
