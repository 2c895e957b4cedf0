"""C13: summary statistics, numerical comparisons, conditional normal distributions and kriging."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import ref, gen
from vlib.fw import Prop, Sub, require, require_close

RULE = ("stats: lists of 0-12 numbers with and without missing values, empty and all-missing ones included, against math.fsum formulas and the "
        "documented errors. math: the tolerance comparisons, angle conversions and wavelet formulas at generated points, near their borders "
        "too. normal: potential against the log density, draws from the global and an own generator against mean + Cholesky factor times the "
        "reference normal numbers, after SetParameters too. cond/cond2: conditional mean and covariance (1D; 2D with secondary and nearly "
        "equal observations) against the normal equations in numpy. krig1/krig2: whole fields against numpy simple kriging. Non-trivial: at "
        "least two values, one observation and one unknown, and a correlation between them that is neither 0 nor 1.")
TYPES = ["exponential", "spherical", "matern32", "matern52"]


def m():
    import scipy.linalg, vstat
    return vstat


num = st.one_of(gen.nice(-50, 50, 3), st.sampled_from([0.0, 1.0, -1.0]), st.integers(-5, 5).map(float))


def raises(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def var(x):
    mu = math.fsum(x) / len(x)
    return 0.0 if len(x) == 1 else math.fsum((t - mu) ** 2 for t in x) / (len(x) - 1)


@st.composite
def stat_case(draw):
    miss = draw(st.sampled_from([-999.0, 0.0, 99999.0, 1.0]))
    el = st.one_of(num, num, num, st.just(miss))
    a = draw(st.lists(el, max_size=12))
    b = draw(st.lists(num, min_size=len(a), max_size=len(a))) if draw(st.booleans()) else draw(st.lists(num, max_size=12))
    return {"a": a, "b": b, "miss": miss, "i": draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=9))}


def check_stat(c):
    v = m()
    a, b, miss = c["a"], c["b"], c["miss"]
    tol = 1e-12 * (1 + sum(abs(t) for t in a) + sum(abs(t) for t in b)) ** 2

    def near(x, y, what):
        require_close(x, y, what, 1e-10, tol)

    if a:
        n, lo, hi, s, mean, va, mean2, va2 = v.stats(a, True)
        require(n == len(a) and lo == a.index(min(a)) and hi == a.index(max(a)), "count/min/max %s", (n, lo, hi))
        near(s, math.fsum(a), "sum")
        near(mean, math.fsum(a) / len(a), "mean")
        near(mean2, mean, "mean of a collection")
        near(va, var(a), "variance")
        near(va2, va, "variance of a collection")
    else:
        require(raises(v.mean, a, True) and raises(v.var, a, True), "no error for no data")
        require(v.mean(a, False) == 0 and v.var(a, False) == 0, "no data should give 0")
    k = [t for t in a if t != miss]
    n, lo, hi, s = v.statsm(a, miss)
    require(n == len(k), "count %d of %d not missing", n, len(k))
    near(s, math.fsum(k), "sum without missing")
    if k:
        require(lo == a.index(min(k)) and hi == a.index(max(k)), "min/max position %s without missing", (lo, hi))
        for x in v.meanm(a, miss, True) + v.meanm(a, miss, False):
            near(x, math.fsum(k) / len(k), "mean without missing")
        for x in v.varm(a, miss, True) + v.varm(a, miss, False):
            near(x, var(k), "variance without missing")
    else:
        require(lo == len(a) and hi == len(a), "position of the extreme of nothing")
        require(raises(v.meanm, a, miss, True) and raises(v.varm, a, miss, True), "no error for only missing data")
        require(v.meanm(a, miss, False) == [0, 0] and v.varm(a, miss, False) == [0, 0], "only missing data should give 0")
    if len(a) != len(b) or not a:
        require(raises(v.cov, a, b, True), "covariance of %d and %d values did not raise", len(a), len(b))
        require(v.cov(a, b, False) == [0, 0], "covariance should be 0")
    else:
        ma, mb = math.fsum(a) / len(a), math.fsum(b) / len(b)
        w = 0.0 if len(a) == 1 else math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (len(a) - 1)
        for x in v.cov(a, b, True) + v.cov(a, b, False):
            near(x, w, "covariance")
    i = c["i"]
    s, mu, va = v.statsi(i)
    require(s == sum(i), "sum of integers")
    require_close(mu, sum(i) / len(i), "mean of integers")
    require_close(va, var(i), "variance of integers", 1e-9, 1e-9)
    return len(k) >= 2


# ---- numerical comparisons

@st.composite
def math_case(draw):
    tol = draw(st.sampled_from([1e-6, 1e-3, 0.1, 1e-9]))
    mag = draw(st.sampled_from([0.0, 1e-7, 1e-3, 0.5, 1.0, 3.0, 1e4]))
    a = mag * draw(st.sampled_from([1.0, -1.0, 0.7]))
    f = draw(st.sampled_from([0.0, 0.5, -0.5, 0.99, -0.99, 1.01, -1.01, 3.0, -3.0, 1e3]))
    return {"tol": tol, "a": a, "b": a + f * tol * max(1.0, abs(a)), "x": draw(num), "y": draw(num), "f": f,
            "ang": draw(gen.nice(-1000, 1000, 3)), "t": draw(gen.nice(-80, 80, 2)), "fr": draw(gen.nice(1, 80, 2)), "w": draw(gen.logfloat(0.01, 100))}


def check_math(c):
    v = m()
    a, b, t, f = c["a"], c["b"], c["tol"], c["f"]
    if abs(f) != 1.0:
        require(v.is_equal(a, b, t) == (abs(f) <= 1), "IsEqual(%r,%r,%r)", a, b, t)
        if t == 1e-6:
            require(v.is_equal0(a, b) == (abs(f) <= 1), "IsEqual(%r,%r)", a, b)
        w = f * t
        z = abs(f) <= 1
        require(v.signs(w, t) == [z, not z and w > 0, not z and w < 0], "IsZero/IsPositive/IsNegative(%r,%r): %s", w, t, v.signs(w, t))
        lo, hi = min(a, c["x"]), max(a, c["x"])
        require(v.in_interval(lo + f * t * max(1.0, abs(lo)), lo, hi + 5 * t * max(1.0, abs(hi)) + 4000 * t * (1 + abs(lo)), t) == (f >= -1), "InInterval below")
        require(v.in_interval(hi + f * t * max(1.0, abs(hi)), lo - 4000 * t * (1 + abs(hi)), hi, t) == (f <= 1), "InInterval above")
    x, y = c["x"], c["y"]
    require(v.same_sign(x, y) == ((x >= 0) == (y >= 0)), "IsSameSign(%r,%r)", x, y)
    e = c["w"] * 1e-6
    if abs(e - 1e-6) > 1e-9 and abs(y) > 1e-3 and abs(e / y) - 1e-6 != 0 and abs(abs(e / y) / 1e-6 - 1) > 1e-6:
        require(v.zero_compared(e, y) == (e <= 1e-6 or abs(e / y) <= 1e-6), "ZeroComparedTo(%r,%r)", e, y)
    require(v.zero_compared(1.0, 0.0) is False and v.zero_compared(0.0, 0.0) is True, "ZeroComparedTo with 0")
    d, r, u = v.angles(c["ang"])
    require_close(d, math.radians(c["ang"]), "DegToRad", 1e-12)
    require_close(r, math.degrees(c["ang"]), "RadToDeg", 1e-12)
    require(-1e-9 <= u < math.pi + 1e-9, "UnwindRad(%r) = %r", c["ang"], u)
    q = (c["ang"] - u) / math.pi
    require(abs(q - round(q)) < 1e-9, "UnwindRad(%r) = %r", c["ang"], u)
    s = (math.pi * c["fr"] * c["t"] * 1e-3) ** 2
    require_close(v.ricker(c["t"], c["fr"]), (1 - 2 * s) * math.exp(-s), "Ricker(%r,%r)" % (c["t"], c["fr"]), 1e-10, 1e-13)
    require_close(v.expcorr(x, c["w"]), math.exp(-3 * abs(x) / c["w"]), "ExponentialCorr", 1e-10, 1e-300)
    for g, w in zip(v.constants(), [math.pi, math.pi / 2, math.sqrt(2), math.sqrt(0.5), math.pi / 180, 180 / math.pi, math.e, math.log(2 * math.pi)]):
        require_close(g, w, "constant", 1e-14)
    return abs(f) > 0 and x != 0


# ---- multinormal distribution

def spd(draw, n):
    """Positive definite: random factor plus a diagonal."""
    a = np.array([[draw(st.integers(-8, 8)) / 4 for _ in range(n)] for _ in range(n)])
    d = np.diag([draw(st.sampled_from([0.25, 1.0, 2.0])) for _ in range(n)])
    return (a @ a.T + d).tolist()


@st.composite
def normal_case(draw):
    n = draw(st.integers(1, 5))
    p = [{"e": [draw(gen.nice(-5, 5, 3)) for _ in range(n)], "c": spd(draw, n)} for n in (n, draw(st.integers(1, 5)))]
    if draw(st.integers(0, 9)) == 0:    # many components, with a determinant far outside the range of doubles
        k, f, r = draw(st.integers(20, 60)), draw(st.sampled_from([1e-10, 1e-6, 1.0, 1e10])), draw(st.sampled_from([0.0, 0.5, -0.4]))
        p[0] = {"e": [0.0] * k, "c": [[f * r ** abs(i - j) if i != j else f for j in range(k)] for i in range(k)]}
    return {"p": p, "seed": draw(st.integers(0, 10**6)), "x": [draw(gen.nice(-5, 5, 3)) for _ in range(5)], "set": draw(st.booleans()), "nd": draw(st.integers(1, 4))}


def check_normal(c):
    v = m()
    p = c["p"][0]
    o = v.MultiNormal(p["e"], p["c"])
    if c["set"]:
        o.draw_g(v.Gen(1))
        p = c["p"][1]
        o.set(p["e"], p["c"])
    n = len(p["e"])
    C = np.array(p["c"])
    mu = np.array(p["e"])
    L = np.linalg.cholesky(C)
    x = mu + np.sqrt(C[0, 0]) * np.resize(c["x"], n) if n > 5 else np.array(c["x"][:n])
    d = np.linalg.solve(C, x - mu) @ (x - mu)
    want = 0.5 * (n * math.log(2 * math.pi) + np.linalg.slogdet(C)[1] + d)
    cond = np.linalg.cond(C)
    require_close(o.potential(x.tolist()), float(want), "potential", 1e-10, 1e-13 * cond * (1 + abs(d)))
    for own in (True, False):
        r = ref.Rng(c["seed"])
        if own:
            g = v.Gen(c["seed"])
        else:
            v.seed(c["seed"])
        for k in range(c["nd"]):
            z = mu + L @ r.norms(n)
            got = np.array(o.draw_g(g) if own else o.draw())
            require(got.shape == z.shape and np.all(np.abs(got - z) <= 1e-10 * (1 + np.abs(z))), "draw %d (%s): %s, expected %s", k, own, got, z)
    return n >= 2


# ---- conditional distributions

@st.composite
def vario(draw):
    return {"t": draw(st.sampled_from(TYPES)), "r": [draw(gen.logfloat(1, 20)), draw(gen.logfloat(1, 20))], "a": draw(gen.nice(-3, 3, 2)), "s": draw(st.sampled_from([1.0, 2.0, 0.5]))}


def mk(s, iso=False):
    r = [s["r"][0], s["r"][0] if iso else s["r"][1], s["r"][1]]
    return m().create(m().type(s["t"]), 1.5, *r, s["a"], 0.0, s["s"]), ref.Vario(s["t"], *r, s["a"], 0.0, 1.5, s["s"])


def corr(rv, p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    h = np.zeros((len(p), len(q), 3))
    if len(p) and len(q):
        h[..., :p.shape[1]] = p[:, None, :] - q[None, :, :]
    return rv.corr(h)


def solve(S11, S12, S22, mu, d):
    if not len(d):
        return mu, S11
    w = np.linalg.solve(S22, S12.T)
    return mu + w.T @ d, S11 - S12 @ w


def compare(got, want, S22, scale, what):
    e, cv = np.array(got[0]), np.array(got[1])
    tol = 1e-12 * (np.linalg.cond(S22) if len(S22) else 1) * scale
    require(e.shape == want[0].shape and np.all(np.abs(e - want[0]) <= tol), "%s mean %s, expected %s", what, e, want[0])
    require(cv.shape == want[1].shape and np.all(np.abs(cv - want[1]) <= tol), "%s covariance %s, expected %s", what, cv, want[1])


@st.composite
def cond_case(draw):
    pos = draw(st.lists(st.integers(-40, 40), min_size=1, max_size=9, unique=True))
    nk = draw(st.integers(0, len(pos) - 1))
    ux = [p / 2 + draw(st.sampled_from([0.0, 0.0, 0.125])) for p in pos]
    col = lambda n, s: [draw(s) for _ in range(n)]
    u = ux[nk:] + ([ux[0]] if nk and draw(st.booleans()) else [])
    return {"v": draw(vario()), "k": ux[:nk], "u": u, "z": col(nk, num), "ek": col(nk, num), "eu": col(len(u), num),
            "sk": col(nk, gen.nice(0.2, 5, 2)), "su": col(len(u), gen.nice(0.2, 5, 2)),
            "p": [draw(num), draw(gen.nice(0.1, 9, 2)), draw(num), draw(gen.nice(0.1, 9, 2)), draw(gen.nice(-1, 1, 3)), draw(num)]}


def check_cond(c):
    v, r = mk(c["v"])
    k, u = [[x] for x in c["k"]], [[x] for x in c["u"]]
    sk, su = np.array(c["sk"]), np.array(c["su"])
    S22 = corr(r, k, k) * np.outer(sk, sk)
    S12 = corr(r, u, k) * np.outer(su, sk)
    S11 = corr(r, u, u) * np.outer(su, su)
    d = np.array(c["z"]) - np.array(c["ek"])
    want = solve(S11, S12, S22, np.array(c["eu"]), d)
    got = m().cond(c["k"], c["z"], c["u"], c["ek"], c["eu"], c["sk"], c["su"], v)
    compare(got, want, S22, 1e3, "conditional")
    ep, cp, eo, co, rho, o = c["p"]
    e, cv = m().post1(*c["p"])
    require_close(e, ep + rho * math.sqrt(cp / co) * (o - eo), "posterior mean", 1e-11, 1e-11)
    require_close(cv, cp * (1 - rho * rho), "posterior variance", 1e-11, 1e-13)
    return bool(len(k) and np.any((S12 != 0)))


@st.composite
def cond2_case(draw):
    sites = draw(st.lists(st.tuples(st.integers(-6, 6), st.integers(-6, 6)), min_size=1, max_size=7, unique=True))
    s = draw(vario())
    s["r"] = [max(2.0, x) for x in s["r"]]
    obs = [[draw(st.integers(0, len(sites) - 1)), draw(st.sampled_from([1.0, 1.0, 0.7, 0.4])), draw(num), draw(num), draw(gen.nice(0.2, 5, 2)),
            draw(st.sampled_from([0.0, 0.0, 1e-6, -1e-6]))] for _ in range(draw(st.integers(0, 9)))]
    un = draw(st.lists(st.tuples(st.integers(-6, 6), st.integers(-6, 6)), min_size=1, max_size=4, unique=True))
    return {"v": s, "sites": [[x * 2.0, y * 2.0] for x, y in sites], "obs": obs, "u": [[x * 2.0 + 1, y * 2.0] for x, y in un],
            "eu": [draw(num) for _ in un], "su": [draw(gen.nice(0.2, 5, 2)) for _ in un]}


def check_cond2(c):
    v, r = mk(c["v"])
    pos = [[c["sites"][o[0]][0] + o[5], c["sites"][o[0]][1]] for o in c["obs"]]
    C = corr(r, c["sites"], c["sites"]) if c["sites"] else np.zeros((0, 0))
    off = C[~np.eye(len(C), dtype=bool)]
    if off.size and off.max() > 0.98:
        return False
    seen, keep = set(), []
    for i, o in enumerate(c["obs"]):
        if (o[0], o[1]) not in seen:
            seen.add((o[0], o[1]))
            keep.append(i)
    lc = np.array([o[1] for o in c["obs"]])
    su = np.array(c["su"])
    kp = [pos[i] for i in keep]
    kl = lc[keep] if keep else lc
    ks = np.array([c["obs"][i][4] for i in keep])
    f = np.where(kl[:, None] == kl[None, :], 1.0, np.minimum(kl[:, None], kl[None, :]))
    S22 = corr(r, kp, kp) * f * np.outer(ks, ks)
    S12 = corr(r, c["u"], kp) * kl[None, :] * np.outer(su, ks)
    S11 = corr(r, c["u"], c["u"]) * np.outer(su, su)
    if len(kp) and np.linalg.eigvalsh(S22 / np.outer(ks, ks)).min() < 1e-4:
        return False
    d = np.array([c["obs"][i][2] - c["obs"][i][3] for i in keep])
    want = solve(S11, S12, S22, np.array(c["eu"]), d)
    col = lambda k: [o[k] for o in c["obs"]]
    got = m().cond2(pos, col(2), col(1), c["u"], col(3), c["eu"], col(4), c["su"], v)
    compare(got, want, S22, 1e3, "conditional")
    return len(keep) >= 2, (["dropped"] if len(keep) < len(c["obs"]) else []) + (["secondary"] if len(set(kl)) > 1 else [])


# ---- kriging

@st.composite
def krig1_case(draw):
    n = draw(st.integers(1, 25))
    known = [draw(st.booleans()) for _ in range(n)]
    if sum(known) == 0:
        known[draw(st.integers(0, n - 1))] = True
    return {"v": draw(vario()), "n": n, "known": known, "f": [draw(num) for _ in range(n)], "o": [draw(num) for _ in range(sum(known))], "dx": draw(gen.logfloat(0.2, 5))}


def check_krig1(c):
    v, r = mk(c["v"])
    x = [[i * c["dx"]] for i in range(c["n"])]
    k = [i for i in range(c["n"]) if c["known"][i]]
    f = np.array(c["f"])
    xk = [x[i] for i in k]
    K = corr(r, xk, xk)
    if np.linalg.cond(K) > 1e8:
        return False
    want = f + corr(r, x, xk) @ np.linalg.solve(K, np.array(c["o"]) - f[k])
    want[k] = c["o"]
    got = np.array(m().krig1(c["f"], c["known"], c["o"], c["dx"], v))
    tol = 1e-11 * np.linalg.cond(K) * 100
    require(np.all(np.abs(got - want) <= tol), "kriged %s, expected %s", got, want)
    require(all(got[i] == o for i, o in zip(k, c["o"])), "observations are not honoured")
    return len(k) >= 1 and len(k) < c["n"]


@st.composite
def krig2_case(draw):
    kind = draw(st.sampled_from(["nodal", "nodal", "index", "cont"]))
    nx, ny = draw(st.integers(2, 26)), draw(st.integers(2, 26))
    big = draw(st.integers(0, 14)) == 0 and kind != "cont"
    if big:
        nx, ny = draw(st.integers(20, 26)), draw(st.integers(20, 26))
    mode = draw(st.sampled_from(["all", "wide", "local", "local"]))
    d = [draw(st.sampled_from([1.0, 0.5, 2.0])), draw(st.sampled_from([1.0, 0.5, 2.0]))]
    s = draw(vario())
    s["r"] = [draw(st.sampled_from([0.75, 1.5, 3.0, 5.0, 8.0])), draw(st.sampled_from([0.75, 1.5, 3.0, 5.0]))]
    if mode == "local":
        s["t"] = "spherical"
    n = draw(st.integers(201, 260)) if big else draw(st.integers(0, min(12, nx * ny)))
    if big:
        rs = np.random.RandomState(draw(st.integers(0, 9999)))
        ij = [[int(q) // ny, int(q) % ny] for q in rs.permutation(nx * ny)[:n]]
        z = [float(q) / 8 for q in rs.randint(-80, 81, n)]
    else:
        uniq = draw(st.booleans())
        ij = draw(st.lists(st.tuples(st.integers(0, nx - 1), st.integers(0, ny - 1)).map(list), min_size=n, max_size=n, unique_by=tuple if uniq or kind == "cont" else None)) if n <= nx * ny else []
        z = [draw(st.one_of(st.integers(-80, 80).map(lambda q: q / 8), st.just(99999.0) if draw(st.integers(0, 5)) == 0 else st.just(1.5))) for _ in ij]
    return {"kind": kind, "n": [nx, ny], "mode": mode, "d": d, "v": s, "ij": ij, "z": z, "t": [draw(st.integers(-8, 8)) / 4 for _ in range(4)], "res": draw(st.booleans()),
            "o": [draw(st.sampled_from([0.0, 100.0, -7.5])) for _ in range(2)], "f": draw(st.sampled_from([[0.0, 0.0], [0.25, 0.5], [0.75, 0.125]]))}


def check_krig2(c):
    nx, ny = c["n"]
    d, t = c["d"], c["t"]
    v, r = mk(c["v"], iso=c["mode"] == "local")
    I, J = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    trend = t[0] + t[1] * I + t[2] * J + t[3] * ((I * 3 + J * 5) % 7)
    P = {"all": 2.0, "wide": 400.0, "local": 2.0}[c["mode"]]
    kind = c["kind"]
    fr = c["f"] if kind != "nodal" else [0.0, 0.0]
    ij = c["ij"]
    if kind != "nodal":   # points inside the surface
        keep = [k for k, q in enumerate(ij) if q[0] + fr[0] <= nx - 1 and q[1] + fr[1] <= ny - 1]
        ij = [ij[k] for k in keep]
        z = [c["z"][k] for k in keep]
    else:
        z = c["z"]
    pts = [[c["o"][0] + (q[0] + fr[0]) * d[0], c["o"][1] + (q[1] + fr[1]) * d[1], w] for q, w in zip(ij, z)]
    if kind == "nodal":
        got = m().krig2n(np.asfortranarray(trend), ij, z, v, d[0], d[1], c["res"], c["mode"] == "all", P)
    else:
        got = m().krig2s(np.asfortranarray(trend), c["o"][0], c["o"][1], (nx - 1) * d[0], (ny - 1) * d[1], pts, v, c["res"], kind == "index", c["mode"] == "all", P)
    # the data: means per node, without missing values
    cells = {}
    for q, w, p in zip(ij, z, pts):
        if w != 99999.0:
            cells.setdefault(tuple(q), []).append((w, p))
    nodes = [[c["o"][0] + i * d[0], c["o"][1] + j * d[1]] for i in range(nx) for j in range(ny)]
    keys = list(cells)
    if kind == "cont":
        at = [cells[k][0][1][:2] for k in keys]
        fx, fy = fr
        T = trend

        def tz(i, j):
            i1, j1 = min(i + 1, nx - 1), min(j + 1, ny - 1)
            return (T[i, j] * (1 - fx) + T[i1, j] * fx) * (1 - fy) + (T[i, j1] * (1 - fx) + T[i1, j1] * fx) * fy
        tr = np.array([tz(*k) for k in keys])
    else:
        at = [[c["o"][0] + k[0] * d[0], c["o"][1] + k[1] * d[1]] for k in keys]
        tr = np.array([trend[k] for k in keys])
    zz = np.array([sum(w for w, _ in cells[k]) / len(cells[k]) for k in keys])
    base = np.zeros_like(trend) if c["res"] else trend
    got = np.array(got)
    require(got.shape == (nx, ny), "shape %s", got.shape)
    if not keys or (kind == "cont" and len(keys) > nx * ny):
        require(np.array_equal(got, base), "kriging without data changed the trend") if not keys else None
        return False
    K = corr(r, at, at)
    cond = np.linalg.cond(K)
    if cond > 1e5:
        return False
    resid = zz - tr
    kv = corr(r, nodes, at)
    if kind != "cont":   # the covariance table is in single precision
        K, kv = K.astype(np.float32).astype(float), kv.astype(np.float32).astype(float)
    exact = base + (kv @ np.linalg.solve(K, resid)).reshape(nx, ny)
    for k in keys:
        if kind != "cont":
            exact[k] = base[k] + resid[keys.index(k)]
    scale = 1 + np.abs(trend).max() + np.abs(zz).max()
    tol = scale * (1e-8 * cond + 3e-6)
    far = (np.abs(kv).max(axis=1) == 0).reshape(nx, ny)
    compact = max(math.hypot(p[0] - q[0], p[1] - q[1]) for p in at for q in at) <= 1.2 * (c["v"]["r"][0] - max(d))
    lab = [kind, c["mode"]] + (["many"] if len(keys) > 200 else [])
    wide = c["mode"] == "wide" and min(c["v"]["r"]) >= max(d)   # the neighbourhood is P ranges in whole cells
    if c["mode"] == "all" or wide or (c["mode"] == "local" and compact and len(keys) <= 200):
        bad = np.argwhere(np.abs(got - exact) > tol)
        if len(bad):
            i, j = bad[0]
            require(False, "node (%d,%d): %r, expected %r", i, j, got[i, j], exact[i, j])
        lab.append("exact")
    else:
        require(not (far & (np.abs(got - base) > tol)).any(), "a node beyond the range of all data changed")
        for k, w in zip(keys, resid):
            if kind != "cont" or fr == [0.0, 0.0]:
                require(abs(got[k] - (base[k] + w)) <= tol, "datum at %s: %r, expected %r", k, got[k], base[k] + w)
        require(np.all(np.isfinite(got)), "not finite")
    if kind != "cont":
        i, j, dat = m().nodal(ij, z)
        require([tuple(q) for q in zip(i, j)] == keys, "data nodes %s, expected %s", list(zip(i, j)), keys)
        require(np.all(np.abs(np.array(dat) - zz) <= 1e-5 * (1 + np.abs(zz))), "node means %s, expected %s", dat, zz)
    off = K[~np.eye(len(K), dtype=bool)]
    return bool(np.any((kv > 1e-6) & (kv < 1))), lab


PROP = Prop("C13", [{"shim": "vstat", "mods": ["statistics", "flens", "+flens", "iotools", "random", "variogram", "fft", "geometry", "surface", "math"], "asan": False}, "ref"], [
    Sub("stats", stat_case, check_stat, 3000, 40000, shards=1, rule="two values that are not missing"),
    Sub("math", math_case, check_math, 3000, 40000, shards=1, rule="a non-zero offset"),
    Sub("normal", normal_case, check_normal, 1200, 20000, shards=1, rule="two dimensions or more"),
    Sub("cond", cond_case, check_cond, 2000, 30000, shards=1, rule="an observation correlated with an unknown"),
    Sub("cond2", cond2_case, check_cond2, 2500, 30000, shards=1, rule="two observations kept"),
    Sub("krig1", krig1_case, check_krig1, 2000, 30000, shards=1, rule="known and unknown nodes"),
    Sub("krig2", krig2_case, check_krig2, 2500, 40000, shards=2, rule="a node within range of a datum but not on it"),
], RULE, ["kriging systems with condition number below 1e5 (2D) and 1e8 (1D)", "values beyond the documented local neighbourhood are approximations and are claimed only at data, beyond the range, and when all data are near"])
