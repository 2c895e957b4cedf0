"""C03: ensembles of simulated fields are standard Gaussian with the requested covariance."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require

RULE = ("Variogram (types, anisotropy, azimuth, dip) x grid x seed; an ensemble of independent fields is simulated with the "
        "default padding, and the empirical mean, variance and covariances (along axes and diagonals, averaged over "
        "translations) are compared with the model, in units of their sampling error. Non-trivial: range longer than one "
        "cell and non-constant model.")


@st.composite
def case(draw):
    nd = draw(st.integers(1, 3))
    t = draw(st.sampled_from([x for x in ref.TYPES if x != "constant"]))
    p = draw(st.sampled_from([1.0, 1.3, 1.5, 1.8]))
    n = [draw(st.integers(*{1: (20, 120), 2: (8, 22), 3: (5, 8)}[nd])) for _ in range(nd)]
    d = [draw(st.sampled_from([1.0, 0.5, 2.0, 10.0])) for _ in range(nd)]
    cells = {1: (1.0, 25.0), 2: (1.0, 8.0), 3: (1.0, 2.5)}[nd]
    r = [round(draw(st.floats(*cells)), 2) for _ in range(3)]
    c = {"nd": nd, "type": t, "n": n, "d": d, "seed": draw(gen.seed32()),
         "main": r[0] * d[0], "perp": r[1] * (d[1] if nd > 1 else 1.0), "depth": r[2] * (d[2] if nd > 2 else 1.0)}
    if t == "general_exponential":
        c["power"] = p
    if nd > 1 and draw(st.booleans()):
        c["perp"] = c["main"] * draw(st.sampled_from([1.0, 0.5, 0.8]))
        if nd == 3:
            c["depth"] = c["main"] * draw(st.sampled_from([1.0, 0.7]))
        c["azi"] = draw(gen.angle())
    return c


def check(c):
    v, r = core.mk_vario(c)
    g = core.g()
    tot, amb = core.plan(c, r)
    m = int(np.prod(tot))
    if m > 40000:
        return False
    M = int(min(1500, max(150, 1.2e6 / m)))
    g.seed(c["seed"])
    args = []
    for k in range(c["nd"]):
        args += [c["n"][k], c["d"][k]]
    Z = np.array([g.simulate(v, *args) for _ in range(M)])
    require(bool(np.all(np.isfinite(Z))), "non-finite values")
    Z = Z.reshape((M,) + tuple(c["n"][::-1])).transpose((0,) + tuple(range(c["nd"], 0, -1)))
    # What the embedding delivers (spectrum clipped at zero): the statement's covariance up to the clipping error.
    f, lmax = ref.embed_filter(r, tot, c["d"], [1.0] * c["nd"])
    eff = np.fft.ifftn(f ** 2).real
    clip = abs(eff.flat[0] - 1.0)
    S = 7.0
    flat = Z.reshape(M, -1)
    # per-field statistics are i.i.d. over the ensemble: their sampling errors come from the data
    def test(stat, want, what, slack):
        mu, se = float(stat.mean()), float(stat.std(ddof=1)) / math.sqrt(M)
        require(abs(mu - want) <= S * se + slack + 1e-9, "%s: %.5f, expected %.5f (sampling error %.5f, %d fields)",
                what, mu, want, se, M)
    test(flat.mean(1), 0.0, "mean", 0.0)
    test((flat ** 2).mean(1), 1.0, "variance", clip)
    for idx in {0, flat.shape[1] - 1, flat.shape[1] // 2}:
        x = flat[:, idx]
        require(abs(x.mean()) <= S / math.sqrt(M), "mean of cell %d is %.4f over %d fields", idx, float(x.mean()), M)
        require(abs((x ** 2).mean() - 1) <= S * math.sqrt(2.0 / M) + clip, "variance of cell %d is %.4f over %d fields", idx,
                float((x ** 2).mean()), M)
    # covariances over several lags
    nd = c["nd"]
    lagset = set()
    for k in range(nd):
        for L in (1, 2, max(1, c["n"][k] // 3), c["n"][k] - 1):
            if 0 < L < c["n"][k]:
                e = [0] * nd
                e[k] = L
                lagset.add(tuple(e))
    if nd >= 2:
        lagset |= {tuple([1, 1] + [0] * (nd - 2)), tuple([1, -1] + [0] * (nd - 2))}
    if nd == 3:
        lagset |= {(0, 1, 1), (1, 0, 1), (1, 1, 1), (1, 0, -1), (0, 1, -1)}
    for L in sorted(lagset):
        a = Z[(slice(None),) + tuple(slice(max(0, l), c["n"][k] + min(0, l)) for k, l in enumerate(L))]
        b = Z[(slice(None),) + tuple(slice(max(0, -l), c["n"][k] + min(0, -l)) for k, l in enumerate(L))]
        h = np.zeros(3)
        h[:nd] = [l * dd for l, dd in zip(L, c["d"])]
        want = float(r.corr(h))
        dev = abs(float(eff[tuple(L)]) - want)
        test((a * b).reshape(M, -1).mean(1), want, "covariance at lag %s" % (L,), max(dev, clip))
    # different fields are independent
    x = (flat[:-1] * flat[1:]).mean(1)
    test(np.concatenate([x, x[:1]]), 0.0, "covariance between successive fields", 0.0)
    return min(c["main"] / c["d"][0], 9) > 1.0, ["nd%d" % nd, c["type"]]


PROP = Prop("C03", ["ref", "ext"], [
    Sub("ensemble", case, check, 400, 6000, shards=8),
], RULE, ["7 sampling errors: false alarm probability below 1e-11 per statistic, and the run is a function of VERIF_SEED",
          "the deviation of the clipped embedding from the model is allowed (known approximation of the method)"])
