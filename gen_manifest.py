#!/usr/bin/env python3-vt
"""Rewrites MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import specs
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        s = specs.PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="python3-vt check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
            technique="symbolic execution of the real code's LLVM IR in a rounding-error model over the reals; verdicts by z3 (nonlinear real "
                      "arithmetic); counterexamples replayed on the real build" if s.regions else
                      "bounded symbolic execution of the real code's LLVM IR; verdicts by z3 and exact polynomial reasoning; "
                      "counterexamples replayed on the real build",
            level="model_checking",
            level_note="Within bounds: " + s.bounds + ". Outside: " + s.outside +
                       (". Trusts the IR translator and the standard model of rounding." if s.regions else ". Trusts the IR translator and the GMP/MPFR value models (checked by replaying path witnesses natively).")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && test -x /usr/bin/clang-18",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
