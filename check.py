#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's working tree
   check.py --replay <file>              run the recorded case(s) of a violation again
   check.py --prebuild                   compile everything the quick checks need

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build                                     # noqa: E402
from plan import PLAN, RULES, ASSUME             # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
EVID = os.path.join(VERIF, "evidence")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=77:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:ignore_noninstrumented_modules=1:history_size=4:report_signal_unsafe=0:detect_deadlocks=0",
}


def env_for(job):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["VERIF_BUILD"] = build.BUILD
    e["OMP_NUM_THREADS"] = "1"
    e["GLOG_minloglevel"] = "2"
    if job["variant"] in ("asan", "tsan"):
        e["VERIF_SLOW"] = "1"
    e.update(job.get("env", {}))
    return e


def preexec():
    import resource
    # a runaway allocation in the code under test must not take the box down
    pass


class Result:
    def __init__(self):
        self.cases = {}       # idx -> record
        self.crashes = []     # (idx, why, stderr tail)


def run_range(job, exe, seed, first, to, step, tier, prop, scratch, limit_mul=1, max_crashes=4):
    """Run cases first, first+step, ... < to; restart after a crash."""
    res = Result()
    start = first
    while start < to:
        d = tempfile.mkdtemp(dir=scratch)
        out = os.path.join(d, "out.txt")
        limit = int(job.get("limit", 60) * limit_mul)
        cmd = [exe, "--suite", job["suite"], "--from", str(start), "--to", str(to), "--step", str(step),
               "--seed", str(seed), "--out", out, "--tier", tier, "--filter", job.get("filter", prop),
               "--limit", str(limit)]
        for k, v in job.get("args", {}).items():
            cmd += ["--" + k, str(v)]
        errf = open(os.path.join(d, "err.txt"), "wb")
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=errf, env=env_for(job),
                             start_new_session=True)
        ncase = len(range(start, to, step))
        try:
            rc = p.wait(timeout=limit * min(ncase, 40) + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -14
        errf.close()
        cur, done = None, False
        try:
            for line in open(out, errors="replace"):
                if line.startswith("BEGIN "):
                    cur = int(line.split()[1])
                elif line.startswith("RES "):
                    j = json.loads(line[4:])
                    res.cases[j["case"]] = j
                    cur = None
                elif line.startswith("DONE"):
                    done = True
        except OSError:
            pass
        err = open(os.path.join(d, "err.txt"), "rb").read().decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        if done and rc == 0:
            return res
        if cur is None:
            if done:      # every case ran, the process failed while ending
                res.crashes.append((max(res.cases, default=start), "rc %d at exit" % rc, err[-4000:]))
                return res
            raise RuntimeError("harness failed to run (rc %s): %s" % (rc, err[-2000:]))
        why = ("hang: no answer within %d s" % limit) if rc in (-14, 142) else \
              ("sanitizer report" if rc == 77 else
               "killed by signal %d" % -rc if rc < 0 else "exit code %d" % rc)
        res.crashes.append((cur, why, err[-6000:]))
        if len(res.crashes) >= max_crashes:
            return res
        start = cur + step
    return res


SAN_RE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|"
                    r"Assertion '[^\n]*|terminate called[^\n]*)")


def crash_msg(why, err):
    m = SAN_RE.search(err)
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*(?:McCalib|repo/)[^\n]*)", err)[:3]
    return why + (": " + m.group(1) if m else "") + ("; at " + " <- ".join(f.strip()[:140] for f in frames) if frames else "")


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) suite=(\S+) kind=(\S+) match=/(.*?)/ :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(suite=m.group(2), kind=m.group(3), rx=re.compile(m.group(4)), what=m.group(5)))
    return out


def harness_src(h):
    if h.startswith("app:"):
        return [os.path.join(build.REPO, "apps", h[4:], "src", h[4:] + ".cpp")]
    return [os.path.join(build.HARNESS, h + ".cpp")]


def build_jobs(jobs):
    targets = []
    for j in jobs:
        for t in [(j["variant"], j["harness"])] + [tuple(x) for x in j.get("needs", [])]:
            if t not in targets:
                targets.append(t)
    exes = build.build([(v, harness_src(h)) for v, h in targets])
    return dict(zip(targets, exes))


def app_env(job, exes):
    return {"VH_APP_%s_%s" % (h.replace("app:", "").upper(), v.upper()): exes[(v, h)]
            for v, h in [tuple(x) for x in job.get("needs", [])]}


def main():
    if sys.argv[1:2] == ["--setup"]:
        # checks run in fresh copies and build for themselves; only see that the tools are here
        return 0 if shutil.which("g++") and os.path.isdir(build.REPO) else 1
    if sys.argv[1:2] == ["--prebuild"]:
        jobs = [j for js in PLAN.values() for j in js]
        build_jobs(jobs)
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    jobs = [dict(j) for j in PLAN[prop]]
    try:
        exes = build_jobs(jobs)
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix="mcv-%s-" % prop)
    try:
        return decide(prop, tier, seed, jobs, exes, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, jobs, exes, scratch, t0, tb):
    units = []
    for job in jobs:
        n = job["n"][0 if tier == "quick" else 1]
        if n <= 0:
            continue
        job["total"] = n
        job["env"] = {**job.get("env", {}), **app_env(job, exes)}
        exe = exes[(job["variant"], job["harness"])]
        shards = min(job.get("shards", NCPU), n)
        # thorough runs are cut finer, so that the pool stays full
        if tier != "quick":
            shards = min(n, shards * 4)
        for k in range(shards):
            units.append((job, exe, k, n, shards))
    results = []
    errors = []

    def go(u):
        job, exe, k, n, shards = u
        try:
            return (job, exe, run_range(job, exe, seed, k, n, shards, tier, prop, scratch))
        except Exception as e:                   # harness trouble
            errors.append("%s/%s: %s" % (job["harness"], job["suite"], e))
            return None
    width = max(1, NCPU // max(j.get("threads", 1) for j in jobs))
    with ThreadPoolExecutor(max_workers=width) as ex:
        results = [r for r in ex.map(go, units) if r]

    evals, sigs, cov, samples, suites = 0, set(), {}, [], {}
    viols = []     # dicts
    for job, exe, res in results:
        s = suites.setdefault("%s/%s/%s" % (job["harness"], job["variant"], job["suite"]), {"cases": 0})
        for i in sorted(res.cases):
            j = res.cases[i]
            evals += 1
            s["cases"] += 1
            sigs |= {job["suite"] + ":" + x for x in j["sigs"]}
            for k, v in j["cov"].items():
                cov[k] = max(cov.get(k, 0), v) if k.startswith("max_") else cov.get(k, 0) + v
            if len([x for x in samples if x["suite"] == job["suite"]]) < 3 and j["desc"]:
                samples.append({"suite": job["suite"], "case": i, "input": j["desc"][:300], "observed": j["cov"]})
            for v in j["viol"]:
                if v["prop"] == prop:
                    viols.append(dict(job=job, exe=exe, case=i, kind=v["kind"], msg=v["msg"], desc=j["desc"]))
            if "exception" in j:
                viols.append(dict(job=job, exe=exe, case=i, kind="exception", msg=j["exception"], desc=j["desc"]))
        for (i, why, err) in res.crashes:
            evals += 1
            viols.append(dict(job=job, exe=exe, case=i, kind="crash" if "hang" not in why else "hang",
                              msg=crash_msg(why, err), desc="", err=err))

    # every kind of violation is shown again by its own case before it is reported
    confirmed, dropped = [], []
    seen = {}
    for v in viols:
        key = (v["job"]["suite"], v["kind"])
        if seen.get(key, 0) >= (2 if v["kind"] in ("crash", "hang", "exception") else 1):
            continue
        job = v["job"]
        ok = False
        for attempt in range(job.get("confirm", 2)):
            try:
                r = run_range(job, v["exe"], seed, v["case"], v["case"] + 1, 1, tier, prop, scratch,
                              limit_mul=2 if v["kind"] == "hang" else 1.5)
            except Exception as e:
                errors.append(str(e))
                break
            j = r.cases.get(v["case"])
            if r.crashes or (j and ("exception" in j or any(x["prop"] == prop for x in j["viol"]))):
                ok = True
                break
        san = "sanitizer" in v["msg"].lower() or "Sanitizer" in v.get("err", "")
        if ok or (san and v["kind"] == "crash"):
            seen[key] = seen.get(key, 0) + 1
            v["reproduced"] = ok
            confirmed.append(v)
        else:
            dropped.append("%s case %d %s: %s" % (job["suite"], v["case"], v["kind"], v["msg"][:200]))

    known = known_findings(prop)
    alarms, found = [], {}
    for v in confirmed:
        for k in known:
            if k["suite"] in (v["job"]["suite"], "*") and k["kind"] in (v["kind"], "*") and \
                    k["rx"].search(v["msg"] + " || " + v["desc"]):
                found[k["what"]] = v
                break
        else:
            alarms.append(v)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": RULES[prop],
            "samples": samples[:12] or [{"note": "no case completed"}],
            "observed_by_monitors": dict(sorted(cov.items())), "suites": suites,
            "build_s": round(tb - t0, 1),
        },
        "assumptions": ASSUME,
        "wall_s": round(wall, 1), "violations": len(alarms),
    }
    if found:
        ev["coverage"]["known_findings_seen"] = sorted(found)
    if dropped:
        ev["coverage"]["not_reproduced"] = dropped[:20]
    if errors:
        ev["coverage"]["harness_errors"] = errors[:5]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s seed=%d: %d cases, %d distinct, %.1f s (build %.1f s); observed %s" % (
        prop, tier, seed, evals, len(sigs), wall, tb - t0,
        ", ".join("%s=%d" % kv for kv in sorted(cov.items())[:14])))
    for d in dropped:
        print("not reproduced, not reported: " + d)
    if alarms:
        rp = os.path.join(EVID, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "cases": [{"harness": v["job"]["harness"], "variant": v["job"]["variant"],
                                  "suite": v["job"]["suite"], "case": v["case"], "kind": v["kind"],
                                  "msg": v["msg"], "input": v["desc"], "stderr": v.get("err", "")[-3000:]}
                                 for v in alarms[:20]]}, f, indent=1)
        for v in alarms[:8]:
            print("  %s case %d [%s] %s {%s}" % (v["job"]["suite"], v["case"], v["kind"], v["msg"][:400], v["desc"][:200]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("CHECK ERROR: " + "; ".join(errors[:3]))
        return 2
    if evals == 0 or len(sigs) == 0:
        print("CHECK ERROR: nothing was observed")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    bad = 0
    scratch = tempfile.mkdtemp(prefix="mcv-replay-")
    try:
        for cse in r["cases"]:
            job = next(dict(j) for j in PLAN[r["property"]]
                       if (j["harness"], j["variant"], j["suite"]) == (cse["harness"], cse["variant"], cse["suite"]))
            exes = build_jobs([job])
            job["env"] = {**job.get("env", {}), **app_env(job, exes)}
            res = run_range(job, exes[(job["variant"], job["harness"])], r["seed"], cse["case"], cse["case"] + 1, 1,
                            r["tier"], r["property"], scratch)
            print(json.dumps(res.cases.get(cse["case"]), indent=1))
            for cr in res.crashes:
                print(cr[1], cr[2])
            bad |= bool(res.crashes) or bool(res.cases.get(cse["case"], {}).get("viol"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
