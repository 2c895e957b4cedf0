"""C02: the simulated field is exactly the seeded white noise filtered by the root of the covariance spectrum."""
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require
import numpy as np

RULE = ("1D/2D/3D grids x steps x 8 variogram types x anisotropy/azimuth/dip x seeds x default, mixed or explicit (also "
        "zero) padding; the whole returned array is compared with an independent numpy reconstruction from the seed. "
        "Non-trivial: more than 3 cells and a non-constant model.")


def check(c):
    v, r = core.mk_vario(c)
    tot, amb = core.plan(c, r)
    if np.prod(tot) > 400000:
        return False
    core.g().seed(c["seed"])
    z = core.call_sim(c, v)
    require(z.size == np.prod(c["n"]), "returned %d values for grid %s", z.size, c["n"])
    if amb:
        return False, ["ambiguous-padding"]
    rng = ref.Rng(c["seed"])
    want, lmax = ref.field(
        r, core.noise(rng, tot), c["n"], c["d"], c.get("s") or [1.0] * c["nd"])
    core.check_field(z, want, lmax, "%dD field" % c["nd"])
    labels = ["nd%d" % c["nd"], "pad-default" if not c["pad"] else "pad-explicit", c["type"]]
    if c.get("azi"):
        labels.append("rotated")
    return int(np.prod(c["n"])) > 3 and c["type"] != "constant", labels


def reduce_case():
    @st.composite
    def s(draw):
        c = draw(core.sim_case(dims=(1, 2), pads="none"))
        c["tail"] = draw(st.sampled_from([[], [1], [1, 1], [0], [1, 0], ["neg"]]))
        c["td"] = draw(st.sampled_from([-1.0, 1.0, 0.0, 5.0]))
        return c
    return s()


def check_reduce(c):
    """ny/nz <= 1 reduce the dimension: same field as the lower-dimensional call."""
    v, r = core.mk_vario(c)
    tot, amb = core.plan(c, r)
    if np.prod(tot) > 300000:
        return False
    args = []
    for k in range(c["nd"]):
        args += [c["n"][k], c["d"][k]]
    ext = list(args)
    missing = 3 - c["nd"]
    tail = c["tail"][:missing]
    for t in tail:
        if t == "neg":
            # a negative step reduces as well (documented default of the step is -1)
            ext += [1, -1.0]
        else:
            ext += [t, c["td"]]
    g = core.g()
    g.seed(c["seed"])
    a = g.simulate(v, *args)
    g.seed(c["seed"])
    b = g.simulate(v, *ext)
    require(a.shape == b.shape and bool(np.array_equal(a, b)), "call %s differs from the reduced call %s", ext, args)
    return len(tail) > 0


PROP = Prop("C02", ["ref", "ext"], [
    Sub("exact1d", lambda: core.sim_case(dims=(1,)), check, 5000, 60000, shards=2),
    Sub("exact2d", lambda: core.sim_case(dims=(2,)), check, 6000, 60000, shards=3),
    Sub("exact3d", lambda: core.sim_case(dims=(3,)), check, 6000, 60000, shards=3),
    Sub("reduce", reduce_case, check_reduce, 400, 5000, shards=1, rule="at least one reduced axis is passed explicitly"),
], RULE, ["tolerance 1e-9 + 20*sqrt(eps*largest eigenvalue): the square root amplifies FFT rounding",
          "cases whose automatic padding is within rounding of an integer boundary only check shape and finiteness"])
