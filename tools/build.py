"""Writes properties.jsonl and MANIFEST.json. A property is claimed when vm/props/<id>.py exists."""
import importlib.util, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from table import P
NA = {}
if os.path.exists(os.path.join(H, "tools", "na.json")):
    NA = json.load(open(os.path.join(H, "tools", "na.json")))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(H, "vm", "props", i.lower() + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="runtime monitoring: online/offline oracles over executions of the real code under generated and hostile workloads",
                           level="exploration",
                           level_note="Decided on the executions observed (seeded, see evidence for the events each monitor saw); "
                                      "trusts numpy/scipy as reference arithmetic and the oracle written in vm/props/" + i.lower() + ".py."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the monitor for this property is still being built")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         hooks=dict(guard="DOLO_VM_UNUSED", enable="no hook was needed: monitors observe through the public API and by wrapping functions at run time", source_commits=[]),
         notes="./check <ID> [--tier quick|thorough] [--seed N] [--only SCENARIO[:REP]]; see DESIGN.md")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
