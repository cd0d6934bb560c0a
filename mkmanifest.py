#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks as C
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="symbolic execution of the compiled code's LLVM IR, decided by Z3/cvc5", level="model_checking",
                           level_note=C.CHECKS[i].get("note", "Bounded: every input within the bounds in DESIGN.md and in the evidence file; counterexamples are replayed on a sanitized native build.")))
na = [dict(property=p["id"], reason=C.NOT_APPLICABLE.get(p["id"], "not built yet")) for p in props if p["id"] not in C.CHECKS]
m = dict(version=1, setup_cmd="python3 -c 'import check; check.build_common()'", checks=checks, not_applicable=na)
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
