"""C05: simulation_size reports the padded grid, and is the padding simulate uses."""
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require

RULE = ("Variogram x grid sizes (1 to 1e6) x steps x ranges over six decades; the returned list is compared with the padding "
        "rule evaluated independently, for every dimension. For small grids simulate must also equal advanced.simulate with "
        "that padding given explicitly (and every smaller padding must not be used). Non-trivial: range longer than a step.")


@st.composite
def case(draw):
    nd = draw(st.integers(1, 3))
    t = draw(st.sampled_from(ref.TYPES))
    c = {"nd": nd, "type": t, "n": [draw(st.one_of(st.integers(1 if k == 0 else 2, 200), st.integers(2, 10**6))) for k in range(nd)],
         "d": [draw(st.one_of(st.sampled_from([1.0, 10.0, 25.0, 0.5, 2.5]), gen.logfloat(1e-2, 1e3))) for _ in range(nd)],
         "main": draw(st.one_of(gen.logfloat(1e-1, 1e5), st.sampled_from([250.0, 1000.0, 10.0])))}
    if t == "general_exponential" and draw(st.booleans()):
        c["power"] = draw(gen.power())
    sec = st.one_of(st.none(), st.just(-1.0), gen.logfloat(1e-1, 1e5), st.sampled_from([125.0, 500.0]))
    c["perp"], c["depth"] = draw(sec), draw(sec)
    c["azi"] = draw(st.one_of(st.just(0.0), gen.angle()))
    c["dip"] = draw(st.one_of(st.just(0.0), gen.angle()))
    return c


def args_of(c):
    a = []
    for k in range(c["nd"]):
        a += [c["n"][k], c["d"][k]]
    return a


def check(c):
    v, r = core.mk_vario(c)
    got = list(core.g().simulation_size(v, *args_of(c)))
    rr = r.pad_ranges(c["nd"])
    require(len(got) == c["nd"], "%d sizes for %d dimensions", len(got), c["nd"])
    amb = False
    for k in range(c["nd"]):
        want = c["n"][k] + r.pad1(c["n"][k], rr[k], c["d"][k])
        if r.pad_sensitive(c["n"][k], rr[k], c["d"][k]):
            amb = True
            require(abs(got[k] - want) <= 1, "size %d along axis %d, expected about %d", got[k], k, want)
        else:
            require(got[k] == want, "size %d along axis %d, expected %d", got[k], k, want)
        require(got[k] > c["n"][k], "no padding along axis %d", k)
        require(got[k] * c["d"][k] >= (c["n"][k] * c["d"][k] + rr[k]) * (1 - 1e-9) - 1e-9,
                "the grid is not extended by a range along axis %d", k)
    return max(x / d for x, d in zip(rr, c["d"])) > 1, ["nd%d" % c["nd"], "ambiguous" if amb else "exact",
                                                       "azi" if c["azi"] else "noazi"]


def check_used(c):
    """simulate() == advanced.simulate() with the padding that simulation_size reports (also given piecewise)."""
    v, r = core.mk_vario(c)
    g = core.g()
    tot, _ = core.plan(dict(c, pad=None), r)
    if np.prod(tot) > 300000:
        return False
    pad = [s - n for s, n in zip(g.simulation_size(v, *args_of(c)), c["n"])]
    g.seed(c["seed"])
    a = g.simulate(v, *args_of(c))
    names = ("padx", "pady", "padz")
    g.seed(c["seed"])
    b = g.advanced.simulate(v, *args_of(c), **{names[k]: pad[k] for k in range(c["nd"])})
    require(bool(np.array_equal(a, b)), "simulate differs from advanced.simulate with the reported padding %s", pad)
    sub = {names[k]: pad[k] for k in range(c["nd"]) if (c["seed"] >> k) & 1}
    g.seed(c["seed"])
    b = g.advanced.simulate(v, *args_of(c), **sub)
    require(bool(np.array_equal(a, b)), "simulate differs from advanced.simulate with padding %s", sub)
    return c["type"] != "constant", ["nd%d" % c["nd"]]


PROP = Prop("C05", ["ref", "ext"], [
    Sub("rule", case, check, 12000, 150000, shards=5),
    Sub("used", lambda: core.sim_case(pads="none"), check_used, 1200, 15000, shards=3, rule="non-constant model"),
], RULE, ["where range/step is within 1e-9 of an integer without being one, a size off by one is accepted"])
