#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution + SMT."""
import glob, json, os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner as R
from checks import CHECKS

LEVEL = "model_checking"


def known_findings(prop):
    p = os.path.join(R.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    budget = c.get("budget", {}).get(tier, 660 if tier == "quick" else 7200)
    jobs = [dict(j) for j in c["jobs"] if not only or j["name"] == only]
    jobs = [j for j in jobs if tier == "thorough" or not j.get("thorough_only")]
    evdir = os.path.join(R.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, prop + ".violation*")):
        os.unlink(f)
    R.ensure_engine()
    R.compile_all(jobs)
    work = os.path.join(R.BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    viols, errors, notes, perjob, samples, known_hit = [], [], [], [], [], {}
    tot = {"paths": 0, "insts": 0, "forks": 0, "queries": 0, "z3": 0.0, "asserts": 0, "sym_asserts": 0, "validated": 0}
    funcs = {}
    exhaustive = True
    kf = known_findings(prop)
    for job in jobs:
        left = budget - (time.time() - t0)
        dl = min(job.get(tier, {}).get("deadline", job.get("deadline", 1e9)), max(20, left))
        out = os.path.join(work, job["name"])
        prm = R.params(job, tier)
        rc, log, wall = R.run_engine(job, job["_mod"], out, tier, seed, dl, job.get("workers", R.NPROC))
        res = R.merge_results(out)
        if rc not in (0,):
            errors.append("%s: engine exit %d: %s" % (job["name"], rc, log[-1500:]))
        comp = res["complete"] and res["n"] > 0 and rc == 0
        exhaustive &= comp
        confirmed = unconf = 0
        seen = set()
        for vj in sorted(glob.glob(os.path.join(out, "viol_*.json"))):
            try:
                v = json.load(open(vj))
            except ValueError:
                continue
            sig = (v["kind"], v["msg"], v.get("stack", "")[:200])
            if sig in seen or len(seen) > 12:
                continue
            rep = vj[:-5] + ".replay"
            ok, nrc, nout = R.confirm(job["_nat"], rep, prm, v["kind"])
            if not ok:
                unconf += 1
                errors.append("%s: unconfirmed counterexample (%s: %s) rc=%d %s\n%s" % (job["name"], v["kind"], v["msg"], nrc, nout[-300:], v.get("stack", "")))
                continue
            seen.add(sig)
            k = next((k for k in kf if k["job"] == job["name"] and k["msg"] == v["msg"]), None)
            if k:
                known_hit[k["what"]] = rep
                continue
            confirmed += 1
            dst = os.path.join(evdir, "%s.violation-%s-%d.replay" % (prop, job["name"], confirmed))
            shutil.copy(rep, dst)
            open(dst + ".txt", "w").write("job %s params %s\n%s: %s\n%s\n--- native replay (exit %d)\n%s" % (job["name"], prm, v["kind"], v["msg"], v.get("stack", ""), nrc, nout[-6000:]))
            viols.append((dst, job["name"], v["kind"], v["msg"]))
        # differential validation: sampled paths re-run on the natively built code
        sm = sorted(glob.glob(os.path.join(out, "sample_*.replay")))
        bad = 0
        if sm:
            obs = {}
            nrc, nout = R.native(job["_nat"], sm, prm) if len(sm) > 1 else (0, "FILE %s\n%s" % (sm[0], R.native(job["_nat"], sm, prm)[1]))
            cur = None
            for line in nout.splitlines():
                if line.startswith("FILE "):
                    cur = line[5:]
                    obs[cur] = []
                elif cur and line.startswith(("OBS ", "ASSERT", "EXIT", "ASSUME", "REPLAY")):
                    obs[cur].append(line[4:] if line.startswith("OBS ") else line)
            for f in sm:
                want = open(f[:-7] + ".obs").read().split()
                got = obs.get(f)
                if got != want:
                    bad += 1
                    if bad <= 3:
                        errors.append("%s: engine and native run differ on %s: engine %s native %s" % (job["name"], os.path.basename(f), want[:12], (got or ["?"])[:12]))
                else:
                    tot["validated"] += 1
            if sm and len(samples) < 12:
                for f in sm[:2]:
                    samples.append({"job": job["name"], "inputs": " ".join("%s=%s" % tuple(l.split()[0::2]) for l in open(f).read().splitlines()[:40]),
                                    "observed": open(f[:-7] + ".obs").read().split()[:24]})
        # vacuity
        if comp and not viols:
            for w in job.get("reach", []):
                if not res["reach"].get(w):
                    errors.append("%s: vacuous: witness '%s' never reached" % (job["name"], w))
            if not res["sites"]:
                errors.append("%s: vacuous: no assertion was evaluated" % job["name"])
        for k, v in res["functions"].items():
            o = funcs.get(k, [0, 0, v[2]])
            funcs[k] = [o[0] + v[0], max(o[1], v[1]), v[2]]
        tot["paths"] += res["paths"] + res.get("stopped", 0)
        tot["insts"] += res["insts"]
        tot["forks"] += res["forks"]
        tot["asserts"] += res["asserts"]
        tot["sym_asserts"] += res.get("sym_asserts", 0)
        tot["queries"] += res.get("z3_queries", 0) + res.get("domain_decided", 0) + res.get("cache_hits", 0)
        tot["z3"] += res.get("z3_time_s", 0.0)
        perjob.append({"job": job["name"], "bound": job.get("bound", ""), "params": prm, "complete": comp, "paths": res["paths"] + res.get("stopped", 0),
                       "instructions": res["insts"], "assertions": res["sites"], "reached": res["reach"],
                       "z3_queries": res.get("z3_queries", 0), "z3_unsat": res.get("z3_unsat", 0), "z3_sat": res.get("z3_sat", 0), "z3_unknown": res.get("z3_unknown", 0),
                       "domain_decided": res.get("domain_decided", 0), "domain_cross_checked_by_z3": res.get("cross_checked", 0), "model_decided": res.get("model_decided", 0), "cache_hits": res.get("cache_hits", 0),
                       "solver_time_s": round(res.get("z3_time_s", 0.0), 2), "wall_s": round(wall, 2), "violations": confirmed, "samples_compared": len(sm), "samples_differ": bad})
        print("%-28s %-10s paths=%d asserts=%d z3=%d/%.1fs wall=%.1fs viol=%d" % (job["name"], "complete" if comp else "INCOMPLETE", res["paths"] + res.get("stopped", 0), res["asserts"], res.get("z3_queries", 0), res.get("z3_time_s", 0), wall, confirmed), flush=True)
        shutil.rmtree(out, ignore_errors=True) if not (errors or viols) else None
    cov = {"states": tot["paths"], "transitions": tot["insts"], "traces_validated_against_impl": tot["validated"], "samples": samples,
           "exhaustive": exhaustive and not errors, "paths_forked": tot["forks"], "assertions_checked": tot["asserts"], "assertions_symbolic": tot["sym_asserts"],
           "solver_queries": tot["queries"], "solver_time_s": round(tot["z3"], 2), "jobs": perjob,
           "functions_encoded": {k: "calls %d, blocks %d/%d" % tuple(v) for k, v in sorted(funcs.items())[:400]},
           "explanation": "states = symbolic paths completed; transitions = IR instructions executed symbolically; every assertion is decided by the solver for all values of the symbolic inputs on its path within the bounds listed per job; traces_validated = sampled paths whose model was re-run on the natively compiled code with identical observations"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for k in kf:
        if k["what"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            notes.append("known finding not observed: " + k["what"])
    for n in notes:
        print("note:", n)
    if viols:
        for d, j, kd, m in viols[:8]:
            print("  %s: %s: %s" % (j, kd, m))
            print("VIOLATION property=%s replay=%s" % (prop, d))
        return 1
    for e in errors:
        print("ERROR", e)
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except R.Broken as e:
        print("ERROR", e)
        sys.exit(2)
