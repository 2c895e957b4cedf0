"""C07: concurrent use from threads behaves like some sequential order; repeated use does not grow memory."""
import threading, os, sys, gc
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require, Violation
from vlib.worker import run_forked
from props.c04 import SPECS, spec, predict

RULE = ("threads: 2-6 Python threads (switch interval from 1 us) start together and call simulate / advanced.simulate on a shared "
        "or separate variogram from one seeded stream; the multiset of fields must be that of a sequential run. "
        "memory: thousands of repetitions of one operation (creation, corr, simulate 1D/2D/3D, seed, size) in a fresh process; "
        "resident memory must stay flat. Non-trivial: at least two threads with two simulations each / every memory case.")

thread_case = st.fixed_dictionaries({
    "seed": gen.seed32(), "spec": st.integers(0, len(SPECS) - 1), "threads": st.integers(2, 6), "each": st.integers(1, 12),
    "interval": st.sampled_from([1e-6, 1e-5, 1e-4]), "shared": st.booleans()})


def check_threads(c):
    g = core.g()
    s, v, r, tot, f, lmax = spec(c["spec"])
    total = c["threads"] * c["each"]
    g.seed(c["seed"])
    seq = [core.call_sim(s, v) for _ in range(total)]
    rng = ref.Rng(c["seed"])
    w, lm = predict(c["spec"], rng)
    core.check_field(seq[0], w, lm, "sequential field")
    vs = [v if c["shared"] else core.mk_vario(s)[0] for _ in range(c["threads"])]
    res = [[] for _ in range(c["threads"])]
    errs = []
    bar = threading.Barrier(c["threads"])

    def work(i):
        try:
            bar.wait()
            for _ in range(c["each"]):
                res[i].append(core.call_sim(s, vs[i]))
        except Exception as e:
            errs.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(c["interval"])
    try:
        g.seed(c["seed"])
        th = [threading.Thread(target=work, args=(i,)) for i in range(c["threads"])]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    require(not errs, "a thread failed: %r", errs)
    a = sorted(x.tobytes() for x in seq)
    b = sorted(x.tobytes() for l in res for x in l)
    require(a == b, "the fields of %d threads are not those of any sequential order", c["threads"])
    order = {x.tobytes(): i for i, x in enumerate(seq)}
    for l in res:
        idx = [order[x.tobytes()] for x in l]
        require(idx == sorted(idx), "a thread saw its fields out of stream order")
    return c["each"] >= 2, ["nd%d" % s["nd"]]


mem_case = st.tuples(st.sampled_from(["vario", "corr", "size", "sim0", "sim1", "sim2", "sim3", "sim4", "sim5", "sim6", "seed", "badsim",
                                      "enum"]),
                     gen.seed32()).map(lambda t: {"op": t[0], "seed": t[1]})


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def check_mem(c):
    for i in range(len(SPECS)):
        spec(i)

    def body(c):
        g = core.g()
        g.seed(c["seed"])
        o = c["op"]

        def one(k):
            if o == "vario":
                g.variogram("spherical", 10.0 + k % 7)
            elif o == "enum":
                g.variogram(g.VariogramType.GENERAL_EXPONENTIAL, 10.0 + k % 7, power=1.7)
            elif o == "corr":
                spec(0)[1].corr(1.0, k * 0.001)
            elif o == "size":
                g.simulation_size(spec(3)[1], 10, 1.0, 10, 1.0)
            elif o == "seed":
                g.seed(k)
                g.seed()
            elif o == "badsim":
                try:
                    g.simulate(None, 10, 1.0)
                except TypeError:
                    pass
            else:
                i = int(o[3:])
                core.call_sim(SPECS[i], spec(i)[1])
        heavy = o.startswith("sim")
        n1, n2 = (400, 3000) if heavy else (3000, 25000)
        for k in range(n1):
            one(k)
        gc.collect()
        a = rss()
        for k in range(n2):
            one(k)
        gc.collect()
        b = rss()
        require(b - a < 2_500_000, "resident memory grew by %d kB over %d repetitions of %s", (b - a) // 1024, n2, o)
        return True
    return run_forked(body, c, tmo=80)[0]


PROP = Prop("C07", ["ref", "ext"], [
    Sub("threads", lambda: thread_case, check_threads, 2500, 20000, shards=5),
    Sub("memory", lambda: mem_case, check_mem, 45, 300, shards=3),
], RULE, ["the interpreter schedules the threads: interleavings are sampled, not enumerated",
          "a leak below 100 bytes per operation (800 per simulation) is not seen"])
