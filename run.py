#!/usr/bin/env python3
"""run.py PROP [--replay FILE] : decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; other: error of the check."""
import sys, os, json, time, subprocess, shutil, signal, tempfile, glob
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import build, fw
from vlib.worker import load

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HANG_S = 90
SHRINK_S = 0.5 if os.environ.get("VERIF_FAST") else 40  # VERIF_FAST: mutation runs (tools/mutate.py)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def env_for(prop):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONHASHSEED="0", VERIF_TIER=TIER, TZ="UTC", LC_ALL="C.UTF-8")
    if prop.asan:
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        std = subprocess.check_output(["g++", "-print-file-name=libstdc++.so"], text=True).strip()
        e["LD_PRELOAD"] = lib + ":" + std
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:"
                             "detect_odr_violation=0:alloc_dealloc_mismatch=0:exitcode=99:max_allocation_size_mb=4096")
        e["PYTHONMALLOC"] = "pymalloc"
    return e


def start(args, env, log):
    return subprocess.Popen([sys.executable, "-W", "ignore", VERIF + "/vlib/worker.py"] + args, cwd=log_dir(log), env=env,
                            stdin=subprocess.DEVNULL, stdout=open(log, "w"), stderr=subprocess.STDOUT,
                            start_new_session=True)


def log_dir(log):
    d = log + ".d"
    os.makedirs(d, exist_ok=True)
    return d


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=2500):
    try:
        return open(path, errors="replace").read()[-n:]
    except OSError:
        return ""


def run_case(prop, sub, case, work, env, tmo=60):
    """-> (failed, error) of one case in a fresh process."""
    f = tempfile.mktemp(dir=work)
    json.dump(case, open(f, "w"))
    out = f + ".out"
    p = start([prop.pid, sub, "--case", f, out], env, f + ".log")
    try:
        p.wait(tmo)
    except subprocess.TimeoutExpired:
        kill(p)
        return True, "the call did not terminate within %d s" % tmo
    if not os.path.exists(out):
        return True, "the process died (status %s): %s" % (p.returncode, tail(f + ".log", 800))
    r = json.load(open(out))
    return r["failed"], r.get("error", "")


def campaign(prop, sub, seed, n, work, env, tag, fork=False, tmo=600):
    out = "%s/%s" % (work, tag)
    p = start([prop.pid, sub, str(seed), str(n), out] + (["--fork"] if fork else []), env, out + ".log")
    return p, out


def confirm(prop, sub, seed, n, res, work, env):
    """Replays a failure 3x in fresh processes. -> (replay dict or None)"""
    case = res.get("case")
    if case is not None:
        errs = [run_case(prop, sub, case, work, env) for _ in range(3)]
        if all(e[0] for e in errs):
            return {"property": prop.pid, "sub": sub, "mode": "case", "case": case, "error": errs[0][1]}
    # the failure depends on what ran before it in the process: replay the whole (seeded) campaign
    ok = 0
    for i in range(3):
        p, out = campaign(prop, sub, seed, n, work, env, "confirm%d-%s" % (i, sub))
        t0 = time.time()
        failed = False
        while time.time() - t0 < 120:
            if os.path.exists(out + ".fail"):
                failed = True
                break
            if p.poll() is not None:
                failed = os.path.exists(out + ".fail") or not os.path.exists(out)
                break
            time.sleep(0.1)
        kill(p)
        if not failed:
            break
        ok += 1
    if ok == 3:
        return {"property": prop.pid, "sub": sub, "mode": "campaign", "seed": seed, "n": n, "case": case,
                "error": res.get("error", "")}
    return None


def write_evidence(prop, t0, evals, distinct, samples, labels, viol, per):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": prop.pid, "tier": TIER, "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": prop.rule, "samples": samples[:12],
                       "classes": labels, "per_subcheck": per},
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open("%s/evidence/%s.json" % (VERIF, prop.pid), "w") as f:
        json.dump(ev, f, indent=1)


def known_findings(prop, work, env):
    """Prints one line for each recorded (unrepaired) defect of this property that still fails."""
    path = VERIF + "/known_findings.json"
    if not os.path.exists(path):
        return
    for k in json.load(open(path)).get("known", []):
        if k["property"] != prop.pid:
            continue
        failed, err = run_case(prop, k["sub"], k["case"], work, env)
        if failed:
            print("KNOWN-FINDING: property=%s %s" % (prop.pid, k["what"]))


def replay(prop, path):
    build.build_targets(prop.targets)
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vw-", dir=build.BUILD)
    try:
        env = env_for(prop)
        if r["mode"] == "case":
            failed, err = run_case(prop, r["sub"], r["case"], work, env)
        else:
            failed = confirm(prop, r["sub"], r["seed"], r["n"], {}, work, env) is not None
            err = r.get("error")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if failed:
        print("reproduced: %s" % err)
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    print("not reproduced")
    return 0


def main():
    t0 = time.time()
    pid = sys.argv[1]
    prop = load(pid)
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    only = sys.argv[sys.argv.index("--sub") + 1] if "--sub" in sys.argv else None
    try:
        build.build_targets(prop.targets)
    except build.BuildError as e:
        print("ERROR: cannot build the code under test: %s" % e)
        return 2
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vw-", dir=build.BUILD)
    env = env_for(prop)
    rc = 0
    try:
        rc = explore(prop, work, env, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s seed=%d build=%.1fs total=%.1fs rc=%d" % (pid, TIER, SEED, tb, time.time() - t0, rc))
    return rc


def explore(prop, work, env, t0, only):
    known_findings(prop, work, env)
    tasks = []
    for si, s in enumerate(prop.subs):
        if only and s.name != only:
            continue
        k = s.shards[TIER]
        for sh in range(k):
            n = max(1, s.n[TIER] // k)
            tasks.append((s, SEED * 10007 + si * 101 + sh, n, "%s-%d" % (s.name, sh)))
    # interleave shards so that every sub-check starts early; long ones first is the author's ordering
    queue = list(tasks)
    running = {}
    results = []
    failure = None          # (task, result)
    fail_seen = None
    unconfirmed = []
    while queue or running:
        while queue and len(running) < JOBS and fail_seen is None:
            t = queue.pop(0)
            p, out = campaign(prop, t[0].name, t[1], t[2], work, env, t[3])
            running[t[3]] = (p, out, t, time.time(), None)
        time.sleep(0.05)
        for tag in list(running):
            p, out, t, ts, hang = running[tag]
            done = p.poll() is not None
            if fail_seen is None and os.path.exists(out + ".fail"):
                fail_seen = (tag, time.time())
            if done:
                del running[tag]
                if os.path.exists(out):
                    r = json.load(open(out))
                    if "harness_error" in r:
                        print("ERROR: harness: %s\n%s" % (r["harness_error"], tail(out + ".log")))
                        for q in running.values():
                            kill(q[0])
                        return 2
                    results.append((t, r))
                    if r["failed"] and failure is None:
                        failure = (t, r)
                else:
                    failure = failure or (t, crash_result(prop, t, out, work, env, p.returncode))
                continue
            # hang: the same case has been executing for a long time
            try:
                m = os.stat(out + ".cur").st_mtime
            except OSError:
                m = ts
            if time.time() - max(m, ts) > HANG_S:
                kill(p)
                del running[tag]
                cur = json.loads(open(out + ".cur").read() or "null")
                failure = failure or (t, {"case": cur, "error": "the call did not terminate within %d s" % HANG_S,
                                          "failed": True, "evals": 1, "distinct": [], "samples": [], "labels": {}})
        if fail_seen and failure is None:
            tag, ft = fail_seen
            if time.time() - ft > SHRINK_S and tag in running:
                p, out, t, _, _ = running.pop(tag)
                kill(p)
                f = json.load(open(out + ".fail"))
                failure = (t, {"case": f["case"], "error": f["error"], "trace": f["trace"], "failed": True, "evals": 1,
                               "distinct": [], "samples": [], "labels": {}})
            elif tag not in running:
                fail_seen = None
        if failure is not None:
            for q in running.values():
                kill(q[0])
            running.clear()
            t, r = failure
            rep = confirm(prop, t[0].name, t[1], t[2], r, work, env)
            if rep is not None:
                return report(prop, t0, results, rep, r)
            print("note: a failure of %s did not reproduce in 3 fresh processes and is not reported: %s\n  case %s"
                  % (t[0].name, r.get("error"), json.dumps(r.get("case"))[:600]))
            failure, fail_seen = None, None
            # carry on with the rest
            done_tags = {x[0][3] for x in results} | {t[3]}
            unconfirmed.append(t[3])
            queue = [x for x in tasks if x[3] not in done_tags and x[3] not in unconfirmed]
    evals, distinct, samples, labels, per = merge(results)
    write_evidence(prop, t0, evals, distinct, samples, labels, 0, per)
    if unconfirmed:
        print("note: unconfirmed failures in: %s" % unconfirmed)
    print("%s: held on %d generated cases, %d distinct non-trivial" % (prop.pid, evals, distinct))
    return 0


def crash_result(prop, t, out, work, env, status):
    """The worker died: re-run the same campaign with every case in a forked child, so that it shrinks."""
    cur = None
    try:
        cur = json.loads(open(out + ".cur").read() or "null")
    except (OSError, ValueError):
        pass
    base = {"case": cur, "error": "the process died (status %s): %s" % (status, tail(out + ".log", 1500)), "failed": True,
            "evals": 1, "distinct": [], "samples": [], "labels": {}}
    p, o2 = campaign(prop, t[0].name, t[1], t[2], work, env, t[3] + "-fork", fork=True)
    ts = time.time()
    seen = None
    while p.poll() is None and time.time() - ts < 150:
        if seen is None and os.path.exists(o2 + ".fail"):
            seen = time.time()
        if seen and time.time() - seen > SHRINK_S:
            break
        time.sleep(0.05)
    kill(p)
    if os.path.exists(o2 + ".fail"):
        f = json.load(open(o2 + ".fail"))
        base["case"] = f["case"]
        base["error"] = f["error"] + " | " + base["error"]
    return base


def merge(results):
    evals, distinct, samples, labels, per = 0, set(), [], {}, {}
    for t, r in results:
        evals += r["evals"]
        d = {t[0].name + h for h in r["distinct"]}
        distinct |= d
        samples += r["samples"][:2]
        q = per.setdefault(t[0].name, {"evaluations": 0, "nontrivial": 0, "rule": t[0].rule})
        q["evaluations"] += r["evals"]
        q["nontrivial"] += len(d)
        for k, v in r["labels"].items():
            labels[t[0].name + ":" + k] = labels.get(t[0].name + ":" + k, 0) + v
    seen, s2 = set(), []
    for s in samples:
        if s["sub"] not in seen or len(s2) < 6:
            seen.add(s["sub"])
            s2.append(s)
    return evals, len(distinct), s2, labels, per


def report(prop, t0, results, rep, r):
    d = VERIF + "/replays"
    os.makedirs(d, exist_ok=True)
    path = "%s/%s-%s-seed%d.json" % (d, prop.pid, rep["sub"], SEED)
    json.dump(rep, open(path, "w"), indent=1)
    evals, distinct, samples, labels, per = merge(results)
    write_evidence(prop, t0, max(evals, 1), distinct, samples, labels, 1, per)
    print("sub-check %s failed: %s" % (rep["sub"], rep["error"]))
    print("case: %s" % json.dumps(rep.get("case"))[:1500])
    print("VIOLATION property=%s replay=%s" % (prop.pid, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
