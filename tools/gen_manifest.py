#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
from specs import registry
NA = dict(registry.NOT_APPLICABLE)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.PROPS:
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p,
                           technique=registry.TECHNIQUE.get(p, "abstract interpretation of LLVM IR (path-partitioned, linear relations, typestate monitors)"),
                           level="other",
                           level_note=registry.NOTE[p]))
na = [dict(property=p, reason=NA.get(p, "no check built for it yet")) for p in props if p not in registry.PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Static analysis only; nothing of /repo is executed by a check. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
