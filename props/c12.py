"""C12: the C++ variogram objects under histories, covariance grids and the field simulators of nrlib."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import ref, gen, core
from vlib.fw import Prop, Sub, require, require_close

RULE = ("history: up to 12 operations (set ranges singly or together, limit, set and rotate angles, standard deviation, clone, rejected "
        "values) on two variogram objects of a generated type, checked after each against a model: getters, correlation, covariance "
        "and variogram at generated lags and point pairs. grids: covariance tables for 1-3 dimensions with and without smoothing, and "
        "CovGrid2D. fields: several fields per call, from a given generator, the global one, and restarted from the start seed, with "
        "the whole arrays compared with the numpy construction. Non-trivial: a non-constant model with a lag, or more than 3 cells.")
NAMES = {"constant": "constant", "exponential": "exponential", "spherical": "spherical", "gaussian": "Gaussian", "general_exponential": "general exponential",
         "matern32": "matern 3/2", "matern52": "matern 5/2", "matern72": "matern 7/2"}


def m():
    import vvario
    return vvario


rng_ = gen.logfloat(0.5, 50)
ang = st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi / 4, -1.0]), gen.nice(-4, 4))


@st.composite
def spec(draw):
    return {"t": draw(st.sampled_from(ref.TYPES)), "p": draw(gen.power()), "r": [draw(rng_), draw(rng_), draw(rng_)], "a": draw(ang),
            "d": draw(st.one_of(st.just(0.0), ang)), "s": draw(st.one_of(st.just(1.0), gen.nice(0.1, 5, 3)))}


def build(s):
    v = m().create(m().type(s["t"]), s["p"], *s["r"], s["a"], s["d"], s["s"])
    return v, ref.Vario(s["t"], *s["r"], s["a"], s["d"], s["p"], s["s"])


@st.composite
def hist_case(draw):
    ops = []
    bad = st.one_of(rng_, rng_, rng_, st.sampled_from([0.0, -1.0, -0.001]))
    for _ in range(draw(st.integers(1, 12))):
        o = draw(st.sampled_from(["set", "limit", "ranges", "angles", "angles1", "rotate", "rotate1", "sd", "clone"]))
        w = draw(st.integers(0, 1))
        if o in ("set", "limit"):
            ops.append([o, w, draw(st.integers(0, 2)), draw(bad)])
        elif o == "ranges":
            ops.append([o, w, draw(bad), draw(bad), draw(bad)])
        elif o in ("angles", "rotate"):
            ops.append([o, w, draw(ang), draw(ang)])
        elif o in ("angles1", "rotate1"):
            ops.append([o, w, draw(ang)])
        elif o == "sd":
            ops.append([o, w, draw(gen.nice(-3, 5, 3))])
        else:
            ops.append([o, w])
    h = [[draw(gen.nice(-30, 30, 3)) for _ in range(draw(st.integers(1, 3)))] for _ in range(3)]
    return {"v": [draw(spec()), draw(spec())], "fresh": draw(st.booleans()), "given": draw(st.integers(0, 7)), "ops": ops, "h": h, "x": [draw(gen.nice(-30, 30, 3)) for _ in range(3)]}


def verify(v, r, h, x):
    st_ = list(v.state())
    want = r.r + [r.azi, r.dip, abs(r.sd)]
    for a, b, n in zip(st_, want, ["range x", "range y", "range z", "azimuth", "dip", "standard deviation"]):
        require_close(a, b, n, 1e-12, 1e-14)
    require(v.name() == NAMES[r.t], "name %s", v.name())
    require_close(v.ratio(), ref.ratio(r.t, r.power), "range to grid ratio")
    for l in h:
        l3 = (l + [0, 0])[:3]
        lo, hi = r.corr_bounds(np.array(l3))
        c = v.corr(l)
        require(lo <= c <= hi, "correlation at %s is %r, expected %r", l, c, float(r.corr(np.array(l3))))
        require_close(v.cov(l), r.sd ** 2 * c, "covariance", 1e-12, 1e-14)
        require_close(v.vario(l), r.sd ** 2 * (1 - c), "variogram", 1e-11, 1e-13 * (1 + r.sd ** 2))
        p = x[:len(l)]
        q = [a + b for a, b in zip(p, l)]
        back = [b - a for a, b in zip(p, q)]
        require_close(v.corrp(p, q), v.corr(back), "correlation between points", 1e-12, 1e-14)
        require_close(v.covp(p, q), v.cov(back), "covariance between points", 1e-12, 1e-14)


def check_hist(c):
    vs, rs = [], []
    for s in c["v"]:
        v, r = build(s)
        if c["fresh"]:
            v = m().fresh(s["t"])
            r = ref.Vario(s["t"], 1.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0)
        vs.append(v)
        rs.append(r)
    for o in c["ops"]:
        op, w = o[0], o[1]
        v, r = vs[w], rs[w]
        a = o[2:]
        bad = (op == "set" and a[1] <= 0) or (op == "ranges" and min(a) <= 0) or (op == "limit" and r.r[a[0]] > a[1] and a[1] <= 0)
        if op == "clone":
            vs[1 - w] = v.clone()
            rs[1 - w] = ref.Vario(r.t, *r.r, r.azi, r.dip, r.power, r.sd)
        else:
            try:
                getattr(v, op)(*a)
                ok = True
            except Exception:
                ok = False
            require(ok == (not bad), "%s%s was %s", op, a, "accepted" if ok else "rejected")
            if ok:
                if op == "set":
                    r.r[a[0]] = a[1]
                elif op == "limit":
                    r.r[a[0]] = min(r.r[a[0]], a[1])
                elif op == "ranges":
                    r.r = list(a)
                elif op in ("angles", "angles1"):
                    r.azi, r.dip = (a + [0.0])[:2]
                elif op in ("rotate", "rotate1"):
                    r.azi += a[0]
                    r.dip += (a + [0.0])[1]
                elif op == "sd":
                    r.sd = a[0]
        for v, r in zip(vs, rs):
            verify(v, r, c["h"], c["x"])
    # arguments left out have the defaults
    s = c["v"][0]
    full, dflt = [s["p"]] + s["r"] + [s["a"], s["d"], s["s"]], [1.5, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0]
    g = c["given"]
    a = full[:g] + dflt[g:]
    verify(m().create_n(m().type(s["t"]), full[:g]), ref.Vario(s["t"], a[1], a[2], a[3], a[4], a[5], a[0], a[6]), c["h"], c["x"])
    v = m().make_n(s["t"], s["p"], full[1:max(g, 2)])
    if v is not None:
        g = max(g, 2)
        a = full[:g] + dflt[g:]
        verify(v, ref.Vario(s["t"], a[1], a[2], a[3], a[4], a[5], s["p"], a[6]), c["h"], c["x"])
    try:
        m().create(m().type("no such type"), 1.5, 1.0, 1.0, 1.0, 0.0, 0.0, 1.0)
        ok = True
    except Exception:
        ok = False
    require(not ok, "an unknown type was accepted")
    return any(s["t"] != "constant" for s in c["v"]), [o[0] for o in c["ops"]]


# ---- covariance tables
@st.composite
def grid_case(draw):
    nd = draw(st.integers(1, 3))
    cap = {1: 40, 2: 14, 3: 8}[nd]
    sm = draw(st.booleans())
    return {"v": draw(spec()), "n": [draw(st.integers(1, cap)) for _ in range(nd)], "d": [draw(gen.logfloat(0.2, 20)) for _ in range(nd)],
            "s": [draw(st.one_of(st.just(1.0), gen.nice(0.01, 0.99))) if sm else 1.0 for _ in range(nd)], "table": draw(st.booleans())}


def covfile(v, n, d):
    import os, tempfile
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "c")
        m().covfile(v, n[0], n[1], d[0], d[1], f)
        return [float(x) for x in open(f).read().split()]


def check_grid(c):
    v, r = build(c["v"])
    n, d = c["n"], c["d"]
    nd = len(n)
    if c["table"] and nd == 2:
        a, rx, ry, dx, dy = m().covgrid2d(v, n[0], n[1], d[0], d[1])
        require([dx, dy] == d, "steps")
        i, j = np.meshgrid(np.arange(-n[0] + 1, n[0]), np.arange(-n[1] + 1, n[1]), indexing="ij")
        h = np.stack([i * d[0], j * d[1], 0.0 * i], -1)
        lo, hi = r.corr_bounds(h)
        require(bool(np.all((a >= lo - 1e-7) & (a <= hi + 1e-7))), "covariance table")
        t = covfile(v, n, d)
        require_close(t[:8], [2 * n[0] - 1, 2 * n[1] - 1, d[0], d[1], -d[0] * n[0], d[0] * n[0], -d[1] * n[1], d[1] * n[1]], "header of the covariance file", 1e-12, 1e-12)
        require(len(t) == 8 + a.size, "%d values in the covariance file, expected %d", len(t) - 8, a.size)
        require_close(t[8:], np.asarray(a).T.ravel().tolist(), "values of the covariance file", 1e-12, 1e-12)
        # the largest tabulated lag (x: 0..nx-1, y: -ny..ny-1) with correlation 0.05
        i, j = np.meshgrid(np.arange(0, n[0]), np.arange(-n[1], n[1]), indexing="ij")
        q = r.corr(np.stack([i * d[0], j * d[1], 0.0 * i], -1))
        if not np.any(np.abs(q - 0.05) < 1e-6):
            require_close(rx, float((i * d[0])[q >= 0.05].max()), "range x of the table")
            require_close(ry, float((np.abs(j) * d[1])[q >= 0.05].max()), "range y of the table")
        return n[0] > 1 and n[1] > 1, ["CovGrid2D"]
    a = m().fftcov(v, n, d, c["s"])
    require(list(a.shape) == n, "shape %s", a.shape)
    g = np.meshgrid(*[ref.lags(k, x) for k, x in zip(n, d)], indexing="ij")
    h = np.zeros(g[0].shape + (3,))
    for k in range(nd):
        h[..., k] = g[k]
    lo, hi = r.corr_bounds(h)
    f = r.sd ** 2 * np.ones_like(lo)
    sr = r.smooth_ranges()
    for k in range(nd):
        if c["s"][k] < 0.99999:
            f = f * c["s"][k] ** ((g[k] / sr[k]) ** 2)
    e = 1e-10 * r.sd ** 2
    require(bool(np.all((a >= lo * f - e) & (a <= hi * f + e))), "covariance grid differs: %s, expected %s", np.asarray(a).ravel()[:12], (f * r.corr(h)).ravel()[:12])
    return int(np.prod(n)) > 3, ["%dD" % nd, "smooth" if min(c["s"]) < 1 else "plain"]


# ---- fields
@st.composite
def field_case(draw):
    nd = draw(st.integers(1, 3))
    cap = {1: 60, 2: 16, 3: 8}[nd]
    d = [draw(gen.logfloat(0.5, 10)) for _ in range(nd)]
    s = draw(spec())
    s["r"] = [draw(gen.nice(0.3, 4)) * d[min(k, nd - 1)] for k in range(3)]
    return {"v": s, "n": [draw(st.integers(1, cap)) for _ in range(nd)], "d": d, "how": draw(st.sampled_from(["given", "given", "null", "one"])),
            "pad": [draw(st.one_of(st.just(-1), st.integers(0, 12))) for _ in range(nd)], "s": [draw(st.one_of(st.just(1.0), st.just(1.0), gen.nice(0.05, 0.95))) for _ in range(nd)],
            "nf": draw(st.integers(1, 3)), "seed": draw(gen.seed32()), "gseed": draw(gen.seed32()), "burn": draw(st.integers(0, 3))}


def check_field(c):
    v, r = build(c["v"])
    n, d, nd = c["n"], c["d"], len(c["n"])
    how, pad, s = c["how"], list(c["pad"]), list(c["s"])
    if how == "one" and nd == 2:
        pad, s = [-1, -1], [1.0, 1.0]
    pr = r.pad_ranges(nd)
    used = n[:1] + [max(k, 2) for k in n[1:]]   # padding in all directions
    pads = m().padding(v, used, d)
    require(len(pads) == nd, "number of paddings")
    for k in range(nd):
        p = pads[k]
        if not r.pad_sensitive(used[k], pr[k], d[k]):
            require(p == r.pad1(used[k], pr[k], d[k]), "padding %d along axis %d, expected %d", p, k, r.pad1(used[k], pr[k], d[k]))
        if pad[k] < 0:
            pad[k] = p
    tot = [ref.smooth7(n[k] + pad[k], nd > 1 and k == 0) for k in range(nd)]
    if np.prod(tot) > 150000:
        return False
    m().seed(c["gseed"])
    glob = ref.Rng(c["gseed"])
    for _ in range(c["burn"]):
        m().unif()
        glob.unif()
    nf = c["nf"]
    own = None
    if nd == 3:
        out = m().sim3(v, n, d, nf, c["pad"], s)
        src = glob
    elif nd == 2 and how == "one":
        out = [m().sim2one(v, n, d)]
        nf = 1
        src = ref.Rng(c["gseed"])
    else:
        own = m().Gen(c["seed"]) if how == "given" else None
        src = ref.Rng(c["seed"] if how == "given" else glob.u32())
        if nd == 2:
            out = m().sim2(v, n, d, nf, own, c["pad"], s)
        else:
            nf = 1
            k = max(1, n[0] - c["burn"])
            out = [m().sim1(v, n[0], d[0], own, c["pad"][0], s[0], k)]
    require(len(out) == nf, "%d fields, expected %d", len(out), nf)
    for z in out:
        want, lmax = ref.field(r, src.norms(int(np.prod(tot))).reshape(tot), n, d, s)
        if nd == 1:
            want = want[:len(z)]
        require(z.shape == want.shape, "shape %s", z.shape)
        tol = 1e-9 * max(1, r.sd) + 20 * math.sqrt(2.3e-16 * max(lmax, 1.0))
        dmax = float(np.max(np.abs(z - want)))
        require(dmax <= tol, "field differs by %g (tolerance %g)", dmax, tol)
    # the generators end where the model says
    require(m().unif() == glob.unif(), "the global stream after the call")
    if own is not None:
        require(own.norm() == src.norm(), "the given generator after the call")
    return int(np.prod(n)) > 3, ["%dD" % nd, how if nd < 3 else "global", "nf%d" % nf]


PROP = Prop("C12", ["ref", {"shim": "vvario", "mods": ["variogram", "fft", "random/random.cpp", "random/randomgenerator.cpp", "random/dSFMT.cpp", "iotools/fileio.cpp", "iotools/stringtools.cpp", "math"], "asan": False}], [
    Sub("history", hist_case, check_hist, 4000, 60000, shards=3, rule="a non-constant model"),
    Sub("grids", grid_case, check_grid, 4000, 60000, shards=2, rule="more than 3 cells"),
    Sub("fields", field_case, check_field, 3000, 40000, shards=3, rule="more than 3 cells"),
], RULE, ["angles in radians, ratio of ranges up to 100"])
