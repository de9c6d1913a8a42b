"""Runs the quick check of each planted change's property against it, in a
scratch copy of /repo (run by hand): python3 tools/catch.py [id...]"""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/t/catch"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if not os.path.exists("%s/checks/%s.py" % (V, prop.lower())):
        print(i, "NO CHECK"); continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
    t = time.time()
    r = subprocess.run([sys.executable, "-m", "checks." + prop.lower()], cwd=V, env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(i, "CAUGHT" if r.returncode == 1 and v else "MISSED (exit %d) %s" % (r.returncode, r.stderr[-300:]), "%.0fs" % (time.time() - t), v[:1], flush=True)
shutil.rmtree(W, ignore_errors=True)
