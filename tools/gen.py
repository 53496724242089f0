"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NA
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = []
for p in PROPS:
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                       technique=p.get("technique", "contract-based deductive verification of the real functions (VC generation by symbolic execution of /repo's source, normal-form prover + z3/cvc5)"),
                       level=p.get("level", "proof"), level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
         notes="No hooks: nothing in /repo is instrumented; the verifier re-reads the sources on every run.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), len(NA))
