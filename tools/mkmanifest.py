"""Writes MANIFEST.json: a property is claimed when harness/drivers/<id>.py exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools/notes.json"))) if os.path.exists(os.path.join(root, "tools/notes.json")) else {}
checks, na = [], []
TECH = "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC"
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness/drivers", i.lower() + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=n.get("technique", TECH),
                           level="model_checking", level_note=n.get("note", "Bounded: the recorded inputs, histories and points; trusts TLC, the trace recorder and the tolerances in the specification.")))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specification in TLA+ (spec/), checked with TLC; harness/ records traces of the real code; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
