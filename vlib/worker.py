"""worker.py PROP SUB SEED N OUT [--fork] | worker.py PROP SUB --case FILE OUT

Runs one sub-check with Hypothesis (or one saved case) and writes a JSON result."""
import sys, os, json, hashlib, importlib, signal, traceback, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(sys.path[0], "_build", "py"))
sys.path.insert(0, os.path.join(sys.path[1], "_build", "ext"))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
from vlib import fw


def load(pid):
    return importlib.import_module("props." + pid.lower()).PROP


def split(r):
    if isinstance(r, tuple):
        return bool(r[0]), list(r[1])
    return (True if r is None else bool(r)), []


def short(e):
    return ("%s: %s" % (type(e).__name__, e))[:1500]


def run_forked(check, case, tmo=40):
    """Runs the check in a forked child, so that a crash or a hang is an ordinary failure."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            r = split(check(case))
            msg = json.dumps(["ok", r[0], r[1]])
        except BaseException as e:
            msg = json.dumps(["fail", short(e)])
        try:
            os.write(wr, msg.encode()[:60000])
        finally:
            os._exit(0)
    os.close(wr)
    import select
    buf = b""
    t0 = time.time()
    while True:
        left = tmo - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rd)
            raise fw.Violation("the call did not terminate (%d s)" % tmo)
        rr, _, _ = select.select([rd], [], [], left)
        if rr:
            b = os.read(rd, 65536)
            if not b:
                break
            buf += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise fw.Violation("the process died (wait status %d) while executing this case" % st)
    m = json.loads(buf)
    if m[0] == "fail":
        raise fw.Violation(m[1])
    return m[1], m[2]


def main():
    pid, subname = sys.argv[1], sys.argv[2]
    fw.TIER = os.environ.get("VERIF_TIER", "quick")
    prop = load(pid)
    sub = prop.by_name[subname]
    if sys.argv[3] == "--case":
        out = sys.argv[5]
        case = json.load(open(sys.argv[4]))
        try:
            sub.check(case)
            res = {"failed": False}
        except BaseException as e:
            res = {"failed": True, "error": short(e), "trace": traceback.format_exc()[-3000:]}
        json.dump(res, open(out, "w"))
        sys.stdout.flush()
        os._exit(0)
    seed, n, out = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    fork = "--fork" in sys.argv
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    cur = os.open(out + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    st = {"evals": 0, "nontrivial": set(), "samples": [], "labels": {}, "fails": 0, "best": None, "first": None,
          "error": None}

    def body(case):
        js = fw.canon(case)
        data = js.encode()
        os.ftruncate(cur, 0)
        os.pwrite(cur, data, 0)
        st["evals"] += 1
        try:
            nt, labels = run_forked(sub.check, case) if fork else split(sub.check(case))
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            st["fails"] += 1
            if st["best"] is None or len(js) <= len(st["best"][0]):
                st["best"] = (js, short(e), traceback.format_exc()[-3000:])
                with open(out + ".fail.tmp", "w") as f:
                    json.dump({"case": json.loads(js), "error": short(e), "trace": st["best"][2]}, f)
                os.replace(out + ".fail.tmp", out + ".fail")
            # one exception type for every failure, so that Hypothesis shrinks across messages
            raise fw.Violation("violated") from None
        for l in labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if nt:
            h = hashlib.sha1(data).digest()[:10]
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                k = len(st["nontrivial"])
                if len(data) < 1500 and (k in (1, 7, 40, 150)):
                    st["samples"].append({"sub": subname, "case": json.loads(js)})

    test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(hypothesis.seed(seed)(given(sub.strategy())(body)))
    err = None
    try:
        test()
    except BaseException as e:
        err = short(e)
        if st["best"] is None:
            # not a failure of the property: the harness itself went wrong
            traceback.print_exc()
            json.dump({"harness_error": err}, open(out, "w"))
            os._exit(3)
    res = {"evals": st["evals"], "distinct": [h.hex() for h in st["nontrivial"]], "samples": st["samples"],
           "labels": st["labels"], "failed": st["best"] is not None}
    if st["best"]:
        res["case"] = json.loads(st["best"][0])
        res["error"], res["trace"] = st["best"][1], st["best"][2]
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
