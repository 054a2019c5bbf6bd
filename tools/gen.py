#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "tools")]
import specs, props
TECH = "bounded symbolic execution of the real code's LLVM IR, assertions decided by z3, counterexamples replayed natively"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["id"] in specs.SPECS:
        s = specs.SPECS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=TECH, level="other", level_note="Holds for all inputs within: %s. Outside: %s. Trusts clang's front end, the executor in engine/, z3, and doubles read as exact reals." % (s["bounds"], s["outside"])))
    else: na.append(dict(property=p["id"], reason=p["na"]))
M = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo are needed.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
import design; design.write(V, props.PROPS, specs.SPECS)
