#!/usr/bin/env python3
# development helper: dev.py PROP JOB [param=val..] [-- engine args]
import sys, os, glob, json, subprocess, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import runner as R
from checks import CHECKS
a = sys.argv[1:]
extra = []
if "--" in a: i = a.index("--"); extra = a[i+1:]; a = a[:i]
j = dict(next(x for x in CHECKS[a[0]]["jobs"] if x["name"] == a[1]))
R.ensure_engine(); R.compile_all([j])
prm = R.params(j, "quick"); prm.update({k: int(v, 0) for k, v in (x.split("=") for x in a[2:])})
out = "/tmp/devout_%d" % os.getpid(); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
cmd = [os.path.join(R.BUILD, "symex"), "-o", out, "-j", "8", "-samples", "5", "-deadline", "60"] + sum([["-p", "%s=%d" % kv] for kv in prm.items()], []) + j.get("engine_args", []) + extra + [j["_mod"]]
print(" ".join(cmd)); t = time.time(); rc = subprocess.call(cmd); print("rc", rc, "wall %.1f" % (time.time() - t))
r = R.merge_results(out)
print({k: v for k, v in r.items() if k not in ("raw", "functions", "reach", "sites")}); print("reach", r["reach"]); print("sites", r["sites"])
seen = set()
for v in sorted(glob.glob(out + "/viol_*.json")):
    d = json.load(open(v)); key = (d["kind"], d["msg"], d.get("stack", "")[:150])
    if key in seen: continue
    seen.add(key); print("VIOL", d["kind"], d["msg"]); print(d.get("stack", ""))
    ok, nrc, o = R.confirm(j["_nat"], v[:-5] + ".replay", prm, d["kind"]); print("confirmed" if ok else "UNCONFIRMED", nrc, o[-1500:])
sm = sorted(glob.glob(out + "/sample_*.replay")); print(len(sm), "samples")
shutil.rmtree(out)
