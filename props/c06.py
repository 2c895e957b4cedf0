"""C06: Gaussian smoothing of the covariance in advanced.simulate."""
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require

RULE = ("As C02 with smoothing parameters per axis (below and above the no-smoothing threshold); compared with the reference in "
        "which the covariance along an axis is multiplied by s^((lag/projected range)^2). Non-trivial: some axis is smoothed "
        "and the grid has more than 3 cells.")


@st.composite
def smooth(draw, nd):
    c = draw(core.sim_case(dims=(nd,)))
    c["s"] = [draw(st.one_of(st.sampled_from([1.0, 0.5, 0.1, 0.01, 0.9, 1e-5, 1.5, 0.99999, 0.9999]),
                             gen.logfloat(1e-6, 0.999))) for _ in range(nd)]
    return c


def check(c):
    v, r = core.mk_vario(c)
    tot, amb = core.plan(c, r)
    if np.prod(tot) > 300000:
        return False
    core.g().seed(c["seed"])
    z = core.call_sim(c, v)
    require(z.size == np.prod(c["n"]), "returned %d values for grid %s", z.size, c["n"])
    if amb:
        return False, ["ambiguous-padding"]
    nz = core.noise(ref.Rng(c["seed"]), tot)
    want, lmax = ref.field(r, nz, c["n"], c["d"], c["s"])

    extra = 0.0
    core.check_field(z, want, lmax, "smoothed %dD field" % c["nd"], extra=extra)
    act = [s < 0.99999 for s in c["s"]]
    if not any(act):
        core.g().seed(c["seed"])
        b = core.call_sim(dict(c, s=None), v)
        require(bool(np.array_equal(z, b)), "parameters >= 0.99999 change the field")
    return any(act) and int(np.prod(c["n"])) > 3, ["nd%d" % c["nd"]] + ["axis%d" % k for k in range(c["nd"]) if act[k]]


PROP = Prop("C06", ["ref", "ext"], [
    Sub("smooth1d", lambda: smooth(1), check, 4000, 50000, shards=2),
    Sub("smooth2d", lambda: smooth(2), check, 4500, 50000, shards=3),
    Sub("smooth3d", lambda: smooth(3), check, 4500, 50000, shards=3),
], RULE, ["tolerance as C02"])

