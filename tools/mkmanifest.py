"""Writes MANIFEST.json from the checks that exist (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every state of the bounded model is enumerated (no sampling) and each of its traces is replayed on the checker "
        "built from /repo's working tree; a disagreement is a violation. Bounds are in the evidence file and DESIGN.md. "
        "Trusted: the reference model (written from the user manual), gcc and GMP. ")
EX = json.load(open(os.path.join(V, "tools", "notes.json")))
TECH = {"P19": "bounded exhaustive exploration of the real checker over an enumerated space of edited inputs, with assertions and sanitizers as monitors"}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    f = os.path.join(V, "checks", d["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    m = "checks." + d["id"].lower()
    checks.append(dict(property=d["id"], quick_cmd="python3 -m %s" % m, thorough_cmd="python3 -m %s --thorough" % m,
                       technique=TECH.get(d["id"], "bounded exhaustive enumeration of a reference model, every trace replayed on the real checker"),
                       level="model_checking", level_note=NOTE + EX.get(d["id"], "")))
na = []
done = {c["property"] for c in checks}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in done:
        na.append(dict(property=d["id"], reason="No check built yet (planned, see DESIGN.md)."))
json.dump(dict(version=1, setup_cmd="python3 -m mc.setup", checks=checks, not_applicable=na,
               notes="No hooks: the checks observe the released command line behaviour; /repo carries only fix: commits."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "open")
