#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the registry of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": registry.TECHNIQUE.get(i, registry.TECHNIQUE["*"]), "level": registry.CHECKS[i][1],
                       "level_note": registry.NOTES.get(i, registry.NOTES["*"])})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "not claimed yet: check under construction")})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "cfg(parcom_verif)", "enable": "RUSTFLAGS=--cfg parcom_verif (set by lib/core.py when it builds /verif/harness)",
               "source_commits": ["f1f120e", "491b071", "68f2d2c"]},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harness/ runs the real crates; lib/ and bin/check drive both."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
