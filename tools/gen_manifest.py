#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks which exist."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
TECH = {
 "A01": ("property-based differential testing against Boost.Multiprecision (single operations and operation histories)", "Generated operands (boundary-structured, all bit lengths), every operator, mixed builtin operands, conversions. Trusts Boost cpp_int. Exploration: no proof of absence."),
 "A02": ("property-based differential testing of decimal output", "Generated 128/256-bit values printed and compared with Boost/own decimal conversion; string API compared with an independent prime sum."),
 "A03": ("property-based testing against definitional oracles (binary search roots, direct definitions)", "Inputs concentrated next to perfect powers and type limits."),
}
exec(open(os.path.join(V, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(V, "tools", "techniques.py")) else None
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], stdout=subprocess.PIPE).stdout.decode().split()
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="PRIMESUM_VP_HOOKS",
                    enable="lib/vbuild.py compiles /repo's sources with -DPRIMESUM_VP_HOOKS and links harness/hooks.cpp, which defines primesum::vp_limit()",
                    source_commits=hooks),
         checks=[], not_applicable=[],
         notes="Every check compiles /repo's current tree below /verif/build. known_findings.txt lists recorded and fixed defects.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = TECH[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
