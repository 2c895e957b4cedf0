"""C01: Variogram.corr is the documented correlation model over the rotated anisotropic distance."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require

RULE = ("Variogram types x spelling/enum x ranges (log-uniform, anisotropy up to 1e4, optional/zero/negative secondary "
        "ranges) x azimuth/dip x power x lag vectors of 1, 2 or 3 components scaled around the ranges; non-trivial: the "
        "lag is not zero and the model is not the constant one.")


@st.composite
def case(draw):
    m = draw(gen.logfloat(1e-2, 1e5))
    sec = st.one_of(st.none(), st.just(0.0), st.just(-1.0), gen.logfloat(1e-2, 1e2).map(lambda f: float("%.6g" % (f * m))))
    c = {"type": draw(st.sampled_from(ref.TYPES)), "casing": draw(st.integers(0, 4)), "main": m,
         "perp": draw(sec), "depth": draw(sec), "azi": draw(gen.angle()), "dip": draw(gen.angle())}
    if draw(st.booleans()):
        c["power"] = draw(gen.power())
    nd = draw(st.integers(1, 3))
    v = core.mk_ref(c)
    scale = st.one_of(st.just(0.0), gen.nice(-3, 3), st.sampled_from([1.0, -1.0, 0.5, 20.0]))
    if draw(st.booleans()):
        # along the local axes
        w = [draw(scale) for _ in range(3)]
        h = (np.array(w) * np.array(v.r)) @ v.axes()
    else:
        h = np.array([draw(scale) * v.r[draw(st.integers(0, 2))] for _ in range(3)])
    c["h"] = [float(x) for x in h[:nd]]
    return c


def check(c):
    v, r = core.mk_vario(c)
    h = c["h"]
    full = np.array(list(h) + [0.0] * (3 - len(h)))
    got = v.corr(*h)
    lo, hi = r.corr_bounds(full)
    require(lo <= got <= hi, "corr(%s) = %r, model gives [%r, %r]", h, got, float(lo), float(hi))
    neg = v.corr(*[-x for x in h])
    require(abs(neg - got) <= 1e-15, "corr is not symmetric: %r vs %r", got, neg)
    # fewer components are the same as trailing zeros
    for k in range(1, 4):
        if all(x == 0 for x in full[k:]):
            require(abs(v.corr(*[float(x) for x in full[:k]]) - got) <= 1e-12,
                    "corr with %d components differs from the equivalent 3-component lag", k)
    require(v.corr(0.0) == 1.0 and v.corr(0.0, 0.0) == 1.0 and v.corr(0.0, 0.0, 0.0) == 1.0, "corr(0) != 1")
    require(-1e-15 <= got <= 1.0 + 1e-15, "corr outside [0,1]: %r", got)
    # monotone along the ray
    far = v.corr(*[1.5 * x for x in h])
    require(far <= got + 1e-12, "corr increases along a ray: %r -> %r", got, far)
    labels = [c["type"], "nd%d" % len(h)]
    if c.get("azi") and c.get("dip") and len(h) == 3 and c.get("perp") and c.get("depth"):
        labels.append("full3d")
    return any(h) and c["type"] != "constant", labels


@st.composite
def matcase(draw):
    c = draw(case())
    del c["h"]
    c["casing"] = 0
    n = draw(st.integers(3, 9))
    nd = draw(st.integers(1, 3))
    v = core.mk_ref(c)
    c["pts"] = [[round(draw(st.floats(-2, 2)), 3) * v.r[k] for k in range(nd)] for _ in range(n)]
    return c


def check_psd(c):
    """A correlation function is positive semi-definite for every configuration of points."""
    v, r = core.mk_vario(c)
    P = c["pts"]
    n = len(P)
    A = np.array([[v.corr(*[a - b for a, b in zip(P[i], P[j])]) for j in range(n)] for i in range(n)])
    e = np.linalg.eigvalsh((A + A.T) / 2)
    require(e[0] >= -1e-9 * n, "correlation matrix of %d points has eigenvalue %g", n, float(e[0]))
    return len({tuple(p) for p in P}) > 2


PROP = Prop("C01", ["ext"], [
    Sub("model", case, check, 12000, 200000, shards=6, rule="lag != 0 and type != constant"),
    Sub("psd", matcase, check_psd, 1200, 20000, shards=2, rule="at least three distinct points"),
], RULE, ["double precision; anisotropy ratios up to 1e4", "tolerance: rounding of the squared distance (2e-14 relative to |h|^2/min range^2)"])
