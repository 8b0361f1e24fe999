#!/usr/bin/env python3
"""Solver-based checks of boostorg/variant.  See DESIGN.md.

  check.py --setup              build the engine
  check.py C01                  run the check of property C01 (tier: VERIF_TIER)
  check.py --replay FILE        run a reported counterexample natively again
"""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
ENGINE = os.path.join(BUILD, "symex")
CLANG = shutil.which("clang++-18") or "clang++"
GXX = "g++"
sys.path.insert(0, VERIF)
import jobs as J  # noqa: E402


def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def build_engine():
    src = os.path.join(VERIF, "engine", "symex.cpp")
    if os.path.exists(ENGINE) and os.path.getmtime(ENGINE) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = ENGINE + ".%d" % os.getpid()
    rc, o, e = run([CLANG, "-O2", "-std=c++17", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    if rc:
        sys.stderr.write(o + e)
        sys.exit(2)
    os.replace(tmp, ENGINE)


LLVM = "/usr/lib/llvm-18/bin"


def sides(job):
    """The two configurations of a relational job, as jobs of their own."""
    out = []
    for k, cfg in zip("ab", job["pair"]):
        s = {x: y for x, y in job.items() if x != "pair"}
        s["std"] = cfg.get("std", job["std"])
        s["D"] = dict(job["D"], **cfg.get("D", {}))
        s["D"]["SX_SIDE"] = "run_" + k
        s["flags"] = job.get("flags", []) + cfg.get("flags", [])
        out.append(s)
    return out


def flags(job):
    f = ["-std=" + job["std"], "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-w"]
    for k, v in job["D"].items():
        f.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
    return f + job.get("flags", [])


def jobname(job):
    d = " ".join("%s=%s" % (k, v) if v is not None else k for k, v in job["D"].items())
    fx = " ".join("%s=%s" % kv for kv in job.get("fix", []))
    if job.get("pair"):
        def cf(c):
            return " ".join([c.get("std", job["std"])] + ["%s=%s" % (k, v) if v is not None else k for k, v in c.get("D", {}).items()] + c.get("flags", []))
        d += " | " + cf(job["pair"][0]) + " vs " + cf(job["pair"][1])
    return "%s [%s] %s%s%s" % (job["h"], d, job["std"], " " + " ".join(job["flags"]) if job.get("flags") else "", " fix " + fx if fx else "")


class Work:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = tempfile.mkdtemp(prefix="vx_%s_" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.lock = threading.Lock()
        self.built = {}

    def once(self, key, fn):
        with self.lock:
            if key not in self.built:
                self.built[key] = [threading.Lock(), None]
            slot = self.built[key]
        with slot[0]:
            if slot[1] is None:
                slot[1] = fn()
        return slot[1]

    def ckey(self, job):
        return (job["h"], tuple(flags(job)), json.dumps(job.get("pair"), sort_keys=True))

    def path(self, job, suffix):
        import hashlib
        return os.path.join(self.dir, hashlib.sha1(repr(self.ckey(job)).encode()).hexdigest()[:12] + suffix)

    def bitcode(self, job):
        def pair():
            out = self.path(job, ".bc")
            mods = []
            for k, sd in zip("ab", sides(job)):
                rc, bc, log = self.bitcode(sd)
                if rc:
                    return (rc, out, log)
                m = self.path(job, ".%s.bc" % k)
                rc, o, e = run([LLVM + "/opt", "-passes=internalize", "-internalize-public-api-list=run_" + k, bc, "-o", m])
                if rc:
                    return (-1, out, o + e)
                mods.append(m)
            m = self.path(job, ".m.bc")
            rc, o, e = run([CLANG, "-O0", "-g1", "-std=c++14", "-emit-llvm", "-c", os.path.join(HARNESS, "h_pair.cpp"), "-o", m], 300)
            if rc == 0:
                rc, o, e = run([LLVM + "/llvm-link", m] + mods + ["-o", out])
            return (-1 if rc else 0, out, o + e)
        def go():
            if job.get("pair"):
                return pair()
            out = self.path(job, ".bc")
            rc, o, e = run([CLANG, "-O0", "-g1", "-emit-llvm", "-c", os.path.join(HARNESS, job["h"]), "-o", out] + flags(job), 300)
            return (rc, out, o + e)
        return self.once(("bc",) + self.ckey(job), go)

    def native(self, job, kind):
        def go():
            out = self.path(job, "." + kind)
            cc, fl = {"gcc": (GXX, ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]),
                      "gcc-fast": (GXX, ["-O0"]),
                      "clang": (CLANG, ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]),
                      "tsan": (GXX, ["-O0", "-g1", "-fsanitize=thread"]),
                      "tsan-clang": (CLANG, ["-O0", "-g1", "-fsanitize=thread"]),
                      "msan": (CLANG, ["-O0", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-Wl,--allow-multiple-definition"])}[kind]
            if job.get("pair"):
                libs = []
                for k, sd in zip("ab", sides(job)):
                    so, vs = self.path(job, ".%s.%s.so" % (kind, k)), self.path(job, ".%s.%s.map" % (kind, k))
                    open(vs, "w").write("{ global: run_%s; local: *; };\n" % k)
                    rc, o, e = run([cc] + fl + flags(sd) + ["-fPIC", "-shared", "-Wl,--version-script=" + vs, "-Wl,-Bsymbolic", os.path.join(HARNESS, sd["h"]), "-o", so], 300)
                    if rc:
                        return (rc, out, o + e)
                    libs.append(so)
                rc, o, e = run([cc] + fl + ["-std=c++14", "-I" + HARNESS, "-w", "-rdynamic", os.path.join(HARNESS, "h_pair.cpp"), os.path.join(HARNESS, "sx_rt.cpp")] + libs + ["-o", out], 300)
                return (rc, out, o + e)
            rc, o, e = run([cc] + fl + flags(job) + [os.path.join(HARNESS, job["h"]), os.path.join(HARNESS, "sx_rt.cpp"), "-o", out], 300)
            return (rc, out, o + e)
        return self.once((kind,) + self.ckey(job), go)


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0")


def native_run(exe, inputs, scratch, leak=True, timeout=20):
    fd, p = tempfile.mkstemp(dir=scratch)
    os.write(fd, "".join("%d\n" % v for _, v in inputs).encode())
    os.close(fd)
    env = dict(NENV)
    if not leak:
        env["SX_NO_LEAK_CHECK"] = "1"
    rc, o, e = run([exe, p], timeout, env)
    os.unlink(p)
    obs = [int(x) for x in re.findall(r"^OBS (\d+)$", o, re.M)]
    if rc == -999:
        return ("fail", "does not terminate natively", obs)
    m = re.search(r"^SXFAIL (.*)$", o, re.M)
    if m:
        return ("fail", m.group(1), obs)
    if "SXOK" in o and rc == 0 and "WARNING: ThreadSanitizer: data race" not in e:
        return ("ok", "", obs)
    m = re.search(r"^(SXASSUME|SXRANGE|SXEXHAUSTED).*$", o, re.M)
    if m and rc in (77, 78):
        return ("diverged", m.group(0), obs)
    why = re.search(r"(ERROR: \w+Sanitizer.*|runtime error:.*|WARNING: MemorySanitizer.*|WARNING: ThreadSanitizer: data race.*|Assertion.*failed.*|terminate called.*)", e)
    return ("fail", why.group(1)[:300] if why else "exit status %d" % rc, obs)


def confirm(w, job, err):
    """Replays a counterexample; returns (reproduced, text)."""
    notes = []
    for kind in ["tsan", "tsan-clang"] if err["kind"] == "race" else ["gcc", "clang"] + (["msan"] if err["kind"] in ("uninit", "memory", "lifetime", "assert") else []):
        rc, exe, log = w.native(job, kind)
        if rc:
            notes.append("%s: build failed" % kind)
            continue
        st, msg, _ = native_run(exe, err["inputs"], w.dir, job.get("leak", True))
        if st == "fail":
            return True, "%s: %s" % (kind, msg)
        notes.append("%s: %s %s" % (kind, st, msg))
    return False, "; ".join(notes)


def do_job(w, job):
    r = {"job": jobname(job), "t": time.time()}
    rc, bc, log = w.bitcode(job)
    if rc:
        rc2, _, log2 = w.native(job, "gcc-fast")
        if rc2:
            r["compile"] = "clang:\n" + log[-6000:] + "\ng++:\n" + log2[-6000:]
        else:
            r["fatal"] = "compiles with g++ but not with clang: " + log[-2000:]
        return r
    tl = job.get("time", 240 if w.tier == "quick" else 1500)
    cmd = [ENGINE, bc, "sx_main", "--time", str(tl), "--seed", str(w.seed), "--samples", str(job.get("samples", 6)),
           "--max-errors", "6", "--max-steps", str(job.get("steps", 4000000))]
    for k, v in job.get("fix", []):
        cmd += ["--fix", "%s=%s" % (k, v)]
    if not job.get("leak", True):
        cmd.append("--no-leak-check")
    smt = None
    if w.tier == "thorough":
        smt = tempfile.mkdtemp(dir=w.dir)
        cmd += ["--smt-dump", smt]
    rc, o, e = run(cmd, tl + 60)
    try:
        rep = json.loads(o)
    except ValueError:
        r["fatal"] = "engine failed (%s): %s %s" % (rc, o[-400:], e[-400:])
        return r
    if "fatal" in rep:
        r["fatal"] = rep["fatal"]
        return r
    r["rep"] = rep
    r["violations"], r["unconfirmed"] = [], []
    groups = {}
    for err in rep["errors"]:
        groups.setdefault((err["kind"], err["msg"]), []).append(err)
    for g in groups.values():  # the first input of each kind of error that reproduces
        for err in g:
            ok, text = confirm(w, job, err)
            if ok:
                break
        (r["violations"] if ok else r["unconfirmed"]).append({"job": job, "err": err, "native": text})
    missing = [c for c in job.get("covers", ["end"]) if c not in rep["covers"]]
    if missing and not rep["errors"]:
        r["fatal"] = "vacuous: not reached: %s" % missing
    # validate the encoding: passing paths must behave natively as predicted
    r["validated"] = 0
    r["mismatch"] = []
    if rep["samples"] and not r["violations"]:
        rc, exe, log = w.native(job, "gcc")
        if rc:
            r["fatal"] = "native build failed: " + log[-2000:]
        else:
            for s in rep["samples"]:
                st, msg, obs = native_run(exe, s["inputs"], w.dir, job.get("leak", True))
                if st == "ok" and obs == s["obs"]:
                    r["validated"] += 1
                elif st == "fail":
                    # the real code fails on an input the engine passed: a violation all the same
                    r["violations"].append({"job": job, "err": {"kind": "native", "msg": msg, "where": "", "inputs": s["inputs"]}, "native": "gcc: " + msg})
                else:
                    r["mismatch"].append({"inputs": s["inputs"], "predicted": s["obs"], "native": obs, "status": st})
    if smt:
        r["crosschecked"], bad = 0, []
        qs = sorted(os.listdir(smt))
        for q in qs[:: max(1, len(qs) // 40)][:40]:
            want = q.split(".")[1]
            rc, o, e = run(["cvc5", os.path.join(smt, q)], 60)
            got = o.strip().split("\n")[0] if o.strip() else "?"
            if got in ("sat", "unsat"):
                r["crosschecked"] += 1
                if got != want:
                    bad.append(q)
        if bad:
            r["fatal"] = "z3 and cvc5 disagree on %d assertion queries" % len(bad)
        shutil.rmtree(smt, True)
    r["t"] = time.time() - r["t"]
    return r


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def matches(k, v):
    return k["harness"] == v["job"]["h"] and k["msg"] == v["err"]["msg"] and all(str(v["job"]["D"].get(a)) == str(b) for a, b in k.get("D", {}).items()) \
        and all([n, x] in v["err"]["inputs"] or (n, x) in v["err"]["inputs"] for n, x in k.get("inputs", []))


def main():
    t0 = time.time()
    args = sys.argv[1:]
    build_engine()
    if args == ["--setup"]:
        return 0
    if args and args[0] == "--replay":
        v = json.load(open(args[1]))
        if "compile" in v:
            print(v["compile"])
            return 1
        w = Work("replay", "quick", 1)
        ok, text = confirm(w, v["job"], v["err"])
        print(("REPRODUCED " if ok else "not reproduced ") + text)
        return 1 if ok else 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    w = Work(pid, tier, seed)
    joblist = J.jobs(pid, tier)
    only = [a[7:] for a in args[1:] if a.startswith("--only=")]
    if only:
        joblist = [j for j in joblist if all(o in jobname(j) for o in only)]
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VX_JOBS", "8"))) as ex:
        res = list(ex.map(lambda j: do_job(w, j), joblist))
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    kf = known_findings(pid)
    nviol, bad, seen = 0, [], set()
    for r in res:
        if "compile" in r:
            nviol += 1
            p = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
            json.dump({"job": r["job"], "compile": r["compile"]}, open(p, "w"), indent=1)
            print("  harness does not compile against the tree: %s" % r["job"])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        if "fatal" in r:
            bad.append("%s: %s" % (r["job"], r["fatal"]))
        for v in r.get("violations", []):
            k = [x for x in kf if matches(x, v)]
            if k:
                for x in k:
                    if x["what"] not in seen:
                        seen.add(x["what"])
                        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
                continue
            nviol += 1
            p = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
            json.dump(v, open(p, "w"), indent=1)
            print("  %s: %s\n    %s\n    native replay: %s\n    inputs: %s\n    at: %s" % (
                v["err"]["kind"], v["err"]["msg"], r["job"], v["native"],
                " ".join("%s=%s" % tuple(i) for i in v["err"]["inputs"]), v["err"]["where"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        for v in r.get("unconfirmed", []):
            if v["err"]["kind"] == "unsupported":
                bad.append("%s: unsupported: %s at %s" % (r["job"], v["err"]["msg"], v["err"]["where"][:200]))
                continue
            bad.append("%s: counterexample does not reproduce natively: %s %s (%s) at %s inputs %s" % (r["job"], v["err"]["kind"], v["err"]["msg"], v["native"], v["err"]["where"][:300], v["err"]["inputs"]))
        for m in r.get("mismatch", []):
            bad.append("%s: engine and native run disagree: %s" % (r["job"], m))
    reps = [r["rep"] for r in res if "rep" in r]
    S = lambda k: sum(x[k] for x in reps)
    fn = sorted({f for x in reps for f in x["functions"]})
    try:
        dem = run(["c++filt"], None) if False else subprocess.run(["c++filt"], input="\n".join(fn).encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
    except OSError:
        dem = fn
    lib = [d for d in dem if d.startswith("boost::") or " boost::" in d]
    short = sorted({re.sub(r"<.*", "", re.sub(r"^.*?(boost::[\w:~]+).*$", r"\1", d)) for d in lib})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("states"), "transitions": S("instructions"),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in res),
            "samples": [{"job": r["job"], "inputs": r["rep"]["samples"][0]["inputs"], "observations": r["rep"]["samples"][0]["obs"]} for r in res if "rep" in r and r["rep"]["samples"]][:4],
            "unit": "states: symbolic states (one per feasible path segment); transitions: LLVM IR instructions executed symbolically",
            "paths": S("paths"), "infeasible_or_assumed_away": S("pruned"), "forks": S("forks"), "solver_queries": S("queries"),
            "branches_decided_by_cached_model": S("model_cache_hits"), "queries_answered_by_a_slice_already_refuted": S("slice_cache_hits"),
            "assertions_checked": S("assertions"), "assertion_queries": S("assertion_queries"),
            "solver_s": round(S("solver_s"), 2), "engine_s": round(S("wall_s"), 2),
            "assertion_queries_crosschecked_with_cvc5": sum(r.get("crosschecked", 0) for r in res),
            "functions_encoded": len(lib), "functions": short[:150],
            "all_paths_explored": all(x["complete"] for x in reps) and not bad,
            "jobs": [{"job": r["job"], "paths": r["rep"]["paths"], "queries": r["rep"]["queries"], "s": round(r["rep"]["wall_s"], 2)} for r in res if "rep" in r],
            "bounds": J.bounds(pid, tier),
        },
        "assumptions": J.assumptions(pid),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for b in bad[:6]:
        sys.stderr.write("CHECK ERROR %s\n" % b[:1500])
    print("%s %s: %d jobs, %d paths, %d queries, %d assertions, %d traces validated, %d violations, %.1f s" % (
        pid, tier, len(res), S("paths"), S("queries"), S("assertions"), ev["coverage"]["traces_validated_against_impl"], nviol, time.time() - t0))
    if nviol:
        return 1
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
