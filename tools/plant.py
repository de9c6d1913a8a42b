"""Confirms a planted change (run by hand): python3 tools/plant.py BUGS.py [id...]
BUGS.py defines B = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
For each: applies the edits to /repo, builds, runs the stable tests and the
demo, reverts, and (after a rebuild) runs the demo on the unchanged tree. Those
that qualify are written to /verif/seeded/<id>/."""
import json, os, subprocess, sys, runpy
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/t/o.json")
    d = json.load(open("/tmp/t/o.json"))
    return len(d["passed"]), d["failed"]
HEAD = '#!/bin/bash\n# exit 0: behaves as it should; exit 1: broken\nE=/repo/_build/release/src/ethos\nD=$(mktemp -d)\ntrap \'rm -rf "$D"\' EXIT\ncd "$D"\n'
HELP = 'bad() { echo "$1"; exit 1; }\nyes() { "$E" "$@" >out 2>&1 </dev/null || bad "rejected: $* $(cat out)"; }\nno() { if "$E" "$@" >out 2>&1 </dev/null; then bad "accepted: $*"; fi; }\n'
B = runpy.run_path(sys.argv[1])["B"]
want = sys.argv[2:]
assert sh("git -C /repo status --porcelain").stdout == ""
todo = []
for b in B:
    if want and b["id"] not in want:
        continue
    d = os.path.join(V, "seeded", b["id"])
    if not want and os.path.exists(os.path.join(d, "meta.json")):
        continue
    try:
        ok = True
        for f, o, n in b["edits"]:
            p = os.path.join(R, "src", f)
            s = open(p).read()
            if s.count(o) != 1:
                print(b["id"], "edit matches", s.count(o), "times:", o[:60]); ok = False; break
            open(p, "w").write(s.replace(o, n))
        if not ok:
            continue
        diff = sh("git -C /repo diff").stdout
        np, nf = tests()
        if np != 170:
            print(b["id"], "TESTS passed", np, "failed", nf[:8]); continue
        os.makedirs("/tmp/t/demo", exist_ok=True)
        demo = HEAD + HELP + b["demo"].strip("\n") + "\nexit 0\n"
        open("/tmp/t/demo/demo.sh", "w").write(demo)
        r = sh("bash /tmp/t/demo/demo.sh", cwd=R)
        if r.returncode == 0:
            print(b["id"], "DEMO does not fail with the patch", r.stdout[-300:], r.stderr[-300:]); continue
        print(b["id"], "with patch:", (r.stdout + r.stderr).strip()[:200])
        todo.append((b, diff, demo))
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
for b, diff, demo in todo:
    open("/tmp/t/demo/demo.sh", "w").write(demo)
    r = sh("bash /tmp/t/demo/demo.sh", cwd=R)
    if r.returncode != 0:
        print(b["id"], "DEMO fails on the unchanged tree:", r.stdout[-400:], r.stderr[-300:]); continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(demo)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "KEPT")
