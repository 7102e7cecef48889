"""Driver: builds the encoding of /repo's current source, runs the symbolic
engine on a harness, replays what it reports against the natively built code
and writes the evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RON_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 8
BCFLAGS = ("-std=c++17 -O1 -emit-llvm -c -gline-tables-only -fno-exceptions -fno-vectorize "
           "-fno-slp-vectorize -fno-threadsafe-statics -fwrapv -fno-strict-aliasing "
           "-fno-delete-null-pointer-checks -w").split()
NATFLAGS = ("-std=c++17 -O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer "
            "-fsanitize=bounds -fno-sanitize-recover=all").split()
CORE = ["ron/uuid.cc", "ron/uuid-parser.cc", "ron/text.cc", "ron/text-parser.cc", "ron/text-builder.cc",
        "ron/cp-parser.cc", "ron/utf8-parser.cc", "ron/status.cc"]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def ensure_engine():
    if not os.path.exists(os.path.join(BUILD, "symex")):
        os.makedirs(BUILD, exist_ok=True)
        rc, out = sh(["make", "-s", "-j3", "-C", ENG])
        if rc:
            raise Broken("engine build failed:\n" + out[-3000:])


def incs(job):
    shadow = [os.path.join(HARN, "shadow")] if job.get("shadow", True) else []
    return ["-I" + d for d in shadow + [ENG, HARN, REPO, os.path.join(REPO, "ron")]]


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root in (os.path.join(REPO, "ron"), os.path.join(REPO, "rdt"), os.path.join(REPO, "db"), os.path.join(HARN, "shadow")):
        for d, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x != "test")
            fs += [os.path.join(d, f) for f in fn if not f.startswith("H_")]
    fs += glob.glob(os.path.join(HARN, "*.h*")) + glob.glob(os.path.join(ENG, "*.h")) + glob.glob(os.path.join(ENG, "*_rt.cc"))
    for f in sorted(fs):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def compile_all(jobs):
    """Compile everything the jobs need (content-addressed by the whole source tree)."""
    th = tree_hash()
    cache = os.path.join(BUILD, "obj")
    os.makedirs(cache, exist_ok=True)
    tasks = {}
    for job in jobs:
        defs = ["-D" + d for d in job.get("defs", [])]
        srcs = [os.path.join(REPO, s) for s in job.get("sources", CORE)]
        h = os.path.join(HARN, job["harness"])
        bcs, objs = [], []
        for p in srcs + [h, os.path.join(ENG, "sym_rt.cc"), os.path.join(ENG, "replay_rt.cc")]:
            b = os.path.basename(p)
            own = open(h, "rb").read() if p == h else b""
            for kind in ("bc", "o"):
                if (kind == "bc" and b == "replay_rt.cc") or (kind == "o" and b == "sym_rt.cc"):
                    continue
                if kind == "bc":
                    cmd = ["clang++-18"] + BCFLAGS + (["-fno-builtin"] if b == "sym_rt.cc" else []) + defs + incs(job) + [p, "-o"]
                else:
                    cmd = ["clang++-18", "-c"] + NATFLAGS + defs + ["-DNATIVE_REPLAY"] + incs(job) + [p, "-o"]
                key = hashlib.sha256((th + "|" + " ".join(cmd)).encode() + own).hexdigest()[:24]
                o = os.path.join(cache, key + "." + kind)
                if not os.path.exists(o):
                    tasks[o] = cmd
                (bcs if kind == "bc" else objs).append(o)
        key = hashlib.sha256((" ".join(bcs + objs) + str(job.get("stubs"))).encode()).hexdigest()[:24]
        job["_mod"] = os.path.join(cache, key + ".mod.bc")
        job["_nat"] = os.path.join(cache, key + ".replay")
        job["_in"] = (bcs, objs)

    def comp(kv):
        o, cmd = kv
        rc, out = sh(cmd + [o + ".tmp%d" % os.getpid()])
        if rc == 0:
            os.rename(o + ".tmp%d" % os.getpid(), o)
        return rc, out, cmd

    def stubs(job, objs):
        """Functions of a library the native harness never calls: define them as traps."""
        undef, known = set(), set()
        for o in objs:
            for line in sh(["nm", o])[1].splitlines():
                x = line.split()
                if len(x) > 1:
                    (undef if x[-2] in "Uw" else known).add(x[-1])
        names = sorted(x for x in undef - known if job["stubs"] in x)
        text = ".text\n" + "".join(".weak %s\n%s: ud2\n" % (x, x) for x in names if not x.startswith("_ZT"))
        text += ".data\n.align 16\n" + "".join(".weak %s\n%s: .zero 512\n" % (x, x) for x in names if x.startswith("_ZT"))
        dst = job["_nat"] + ".stubs.s"
        with open(dst + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.rename(dst + ".tmp%d" % os.getpid(), dst)
        return [dst]

    def link(job):
        bcs, objs = job["_in"]
        if job.get("stubs") and not os.path.exists(job["_nat"]):
            objs = objs + stubs(job, objs)
        for dst, cmd in ((job["_mod"], ["llvm-link-18"] + bcs + ["-o"]),
                         (job["_nat"], ["clang++-18", "-fsanitize=address,bounds"] + objs + ["-o"])):
            if not os.path.exists(dst):
                rc, out = sh(cmd + [dst + ".tmp%d" % os.getpid()])
                if rc:
                    return rc, out, cmd
                os.rename(dst + ".tmp%d" % os.getpid(), dst)
        return 0, "", []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, out, cmd in list(ex.map(comp, sorted(tasks.items()))):
            if rc:
                raise Broken("compile failed: %s\n%s" % (" ".join(cmd), out[-4000:]))
        done = {}
        for j in jobs:
            done.setdefault(j["_mod"], j)
        for rc, out, cmd in list(ex.map(link, done.values())):
            if rc:
                raise Broken("link failed: %s\n%s" % (" ".join(cmd)[:500], out[-4000:]))


def params(job, tier):
    p = dict(job.get("params", {}))
    p.update(job.get(tier, {}).get("params", {}))
    return p


def run_engine(job, mod, out, tier, seed, deadline, workers):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [os.path.join(BUILD, "symex"), "-o", out, "-j", str(workers), "-seed", str(seed),
           "-deadline", str(int(deadline)), "-samples", str(job.get("samples", 40))]
    for k, v in params(job, tier).items():
        cmd += ["-p", "%s=%d" % (k, v)]
    cmd += job.get("engine_args", [])
    t = time.time()
    r = subprocess.run(cmd + [mod], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout + r.stderr, time.time() - t


def native(nat, files, prm, verbose=False, timeout=120):
    cmd = [nat] + (["-v"] if verbose else [])
    for k, v in prm.items():
        cmd += ["-p", "%s=%d" % (k, v)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run(cmd + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"


def merge_results(out):
    tot = {"paths": 0, "forks": 0, "insts": 0, "asserts": 0, "z3q": 0, "z3time": 0.0, "complete": True, "n": 0,
           "reach": {}, "sites": {}, "functions": {}, "raw": []}
    for f in sorted(glob.glob(os.path.join(out, "res_*.json"))):
        r = json.load(open(f))
        tot["n"] += 1
        tot["raw"].append(r)
        tot["complete"] &= bool(r.get("complete"))
        for k, v in r.get("reach", {}).items():
            tot["reach"][k] = tot["reach"].get(k, 0) + v
        for k, v in r.get("assert_sites", {}).items():
            tot["sites"][k] = tot["sites"].get(k, 0) + v
        for k, v in r.get("functions", {}).items():
            o = tot["functions"].get(k, [0, 0, v[2]])
            tot["functions"][k] = [o[0] + v[0], max(o[1], v[1]), v[2]]
        for k, v in r.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    return tot


def confirm(nat, rep, prm, kind):
    """Replay one reported counterexample on the real code; True if it fails there as well."""
    rc, out = native(nat, [rep], prm, verbose=True)
    if rc == 0 or rc in (77, 66):
        return False, rc, out
    return True, rc, out
