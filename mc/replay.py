"""python3 -m mc.replay FILE: re-runs one recorded case and prints what happened."""
import json
import sys
from mc.engine import Case, KINDS, build, execute
d = json.load(open(sys.argv[1]))
c = Case(d["key"], None, "any", files=d["files"], argv=d["argv"], stdin=d["stdin"])
(v, o), = execute([c], build(d["build"]), 60, 20000, KINDS[d["build"]]["mem"], workers=1)
for n, t in d["files"].items():
    print("--- %s" % n)
    print(t)
print("--- ethos " + " ".join(d["argv"]) + ("  < stdin" if d["stdin"] is not None else ""))
print("verdict: %s\n%s" % (v, o))
print("recorded: " + d["what"])
