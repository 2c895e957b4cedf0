"""C29: estimation of trends from well data."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Observations in one and two dimensions, dense, clustered and sparse, with weights and missing values, more than 16384 at times, on trend cubes of 2 to 300 nodes; the steps of the estimation one by one and the storages that put them together. "
        "Non-trivial: at least 11 observations with different values.")
M = -99999.0
L5 = math.log(1e5)


class Skip(Exception):
    """the case is too close to a decision for rounding errors to leave it alone"""


def far(a, b, tol=1e-9):
    if abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-300:
        raise Skip()


# --- reference

def bandwidth(x, scale, power):
    n = len(x)
    return scale * 0.7071068 * math.sqrt(max(np.var(x, ddof=1), 0.0)) * n ** -power


def regrid(bw, x0):
    lo, hi = min(x0), max(x0)
    q = 7 * (hi - lo) / (2 * bw)
    if abs(q - round(q)) < 1e-7 * max(q, 1) and q < 200:
        raise Skip()
    n = max(2, min(int(math.ceil(q)), 128) if q < 1e6 else 128)
    return np.array([lo + (hi - lo) / (n - 1) * i for i in range(n)])


def window(xs, lo, hi):
    """first and last of the sorted values used for the interval: those in it and one more on each side"""
    n = len(xs)
    if len(xs) and min(np.min(np.abs(xs - lo)), np.min(np.abs(xs - hi))) < 1e-9 * (np.max(np.abs(xs)) + hi - lo):
        raise Skip()
    a = 0 if lo <= xs[0] else n - 1 if lo >= xs[-1] else int(np.searchsorted(xs, lo, "right")) - 1
    b = 0 if hi <= xs[0] else n - 1 if hi >= xs[-1] else int(np.searchsorted(xs, hi, "left"))
    return a, b


def order(x):
    o = np.argsort(x, kind="stable")
    r = np.empty(len(x), int)
    r[o] = np.arange(len(x))
    return x[o], o, r


def kern1(x, y, w, bw, at):
    xs, o, _ = order(x)
    a, b = window(xs, at - math.sqrt(L5) * bw, at + math.sqrt(L5) * bw)
    k = o[a:b + 1]
    d = ((at - x[k]) / bw) ** 2
    if np.any(np.abs(d - 2 * L5) < 1e-9):
        raise Skip()
    k = k[(d < 2 * L5) & (y[k] != M)]
    return k, w[k] * np.exp(-0.5 * ((at - x[k]) / bw) ** 2)


def kern2(x, y, z, w, bx, by, gx, gy):
    """weight of every observation at all nodes of the grid"""
    wx, wy = [], []
    for v, g, h, out in ((x, gx, bx, wx), (y, gy, by, wy)):
        vs, _, r = order(v)
        for at in g:
            a, b = window(vs, at - math.sqrt(L5) * h, at + math.sqrt(L5) * h)
            out.append((r >= a) & (r <= b))
    q = (((gx[:, None] - x) / bx) ** 2)[:, None, :] + (((gy[:, None] - y) / by) ** 2)[None, :, :]
    m = np.array(wx)[:, None, :] & np.array(wy)[None, :, :]
    if np.any(m & (np.abs(q - 2 * L5) < 1e-9)):
        raise Skip()
    m &= (q < 2 * L5) & (z != M)
    return np.where(m, w * np.exp(-0.5 * np.where(m, q, 0.0)), 0.0)


def bin1(x, y, w, xn):
    inc, n = xn[1] - xn[0], len(xn)
    yn, wl, wn = np.zeros(n), np.zeros(n), np.zeros(n)
    lo, hi = xn[0] + 1e-5, xn[-1] - 1e-5
    if np.any(np.abs(x - lo) < 1e-10) or np.any(np.abs(x - hi) < 1e-10):
        raise Skip()
    j = np.floor((x - xn[0]) / inc).astype(int)
    j = np.where(x < lo, 0, np.where(x > hi, n - 1, np.clip(j, 0, n - 2)))
    g = np.maximum(1 - np.abs(x - xn[j]) / inc, 0)
    ww = np.ones(len(x)) if w is None else w
    np.add.at(wl, j, g)
    np.add.at(yn, j, g * y)
    np.add.at(wn, j, g * ww)
    s = (x >= lo) & (x <= hi)
    np.add.at(wl, j[s] + 1, 1 - g[s])
    np.add.at(yn, j[s] + 1, (1 - g[s]) * y[s])
    np.add.at(wn, j[s] + 1, (1 - g[s]) * ww[s])
    e = wl == 0
    if np.any((wl > 0) & (wl < 1e-7)):
        raise Skip()
    d = np.where(e, 1.0, wl)
    return np.where(e, M, yn / d), wl if w is None else np.where(e, 0.0, wn / d)


def bin2(x, y, z, x0, y0):
    zz, ww = np.zeros((len(x0), len(y0))), np.zeros((len(x0), len(y0)))

    def cell(v, g):
        inc = g[1] - g[0]
        if np.any(np.abs(np.abs(v - g[0]) - 1e-5) < 1e-9) or np.any(np.abs(np.abs(v - g[-1]) - 1e-5) < 1e-9):
            raise Skip()
        k = np.floor((v - g[0]) / inc).astype(int)
        t = (v - g[0] - k * inc) / inc
        k2 = np.where(v < g[0] + 1e-5, 0, np.where(v > g[-1] - 1e-5, len(g) - 2, np.clip(k, 0, len(g) - 2)))
        return k2, np.where(v < g[0] + 1e-5, 0.0, np.where(v > g[-1] - 1e-5, 1.0, (v - g[0] - k2 * inc) / inc))
    s = (x > x0[0] - 1e-5) & (x < x0[-1] + 1e-5) & (y > y0[0] - 1e-5) & (y < y0[-1] + 1e-5)
    k, t = cell(x, x0)
    l, u = cell(y, y0)
    k, t, l, u, q = k[s], t[s], l[s], u[s], z[s]
    for a, b, g in ((0, 0, (1 - t) * (1 - u)), (1, 0, t * (1 - u)), (0, 1, (1 - t) * u), (1, 1, t * u)):
        np.add.at(zz, (k + a, l + b), q * g)
        np.add.at(ww, (k + a, l + b), g)
    if np.any(np.abs(ww - 1e-5) < 1e-9):
        raise Skip()
    keep = ww > 1e-5
    if not keep.any():
        raise Skip()
    i, j = np.nonzero(keep)
    return x0[i], y0[j], zz[keep] / ww[keep], ww[keep]


def lin(x, y, x0):
    if np.any(np.abs(x0 - (x[0] - 1e-5)) < 1e-9) or np.any(np.abs(x0 - (x[-1] + 1e-5)) < 1e-9):
        raise Skip()
    return np.where((x0 > x[0] - 1e-5) & (x0 < x[-1] + 1e-5), np.interp(x0, x, y), M)


def bil(x, y, z, ax, ay):
    if min(abs(ax - x[0] + 1e-5), abs(ax - x[-1] - 1e-5), abs(ay - y[0] + 1e-5), abs(ay - y[-1] - 1e-5)) < 1e-9:
        raise Skip()
    if not (x[0] - 1e-5 < ax < x[-1] + 1e-5 and y[0] - 1e-5 < ay < y[-1] + 1e-5):
        return M
    f, g = min(max((ax - x[0]) / (x[1] - x[0]), 0), len(x) - 1.0), min(max((ay - y[0]) / (y[1] - y[0]), 0), len(y) - 1.0)
    k, l = min(int(f), len(x) - 2), min(int(g), len(y) - 2)
    s, t = f - k, g - l
    return (1 - s) * (1 - t) * z[k][l] + s * (1 - t) * z[k + 1][l] + (1 - s) * t * z[k][l + 1] + s * t * z[k + 1][l + 1]


def est1(x, y, x0, bw, w=None, big=16384):
    g = regrid(bw, x0) if len(x0) > 128 else x0
    ww = np.ones(len(x)) if w is None else w
    if len(x) > big:
        y, ww = bin1(x, y, w, g)
        x = g
    eff = 2.506628 * bw * ww.sum() / (x.max() - x.min())
    far(eff, ww.sum())
    if eff > ww.sum():
        return None
    r = np.full(len(g), M)
    todo = list(range(len(g)))
    for it in range(700):
        left = []
        for i in todo:
            k, u = kern1(x, y, ww, bw, g[i])
            t = u.sum()
            far(t, eff)
            ok = t > eff
            if ok:
                a01, a11 = (x[k] * u).sum(), (x[k] ** 2 * u).sum() * (1 + 1e-4)
                det = t * a11 - a01 ** 2
                if abs(det - 1e-6) < 1e-11 * t * a11 + 1e-15:
                    raise Skip()
                ok = det > 1e-6
            if not ok:
                left.append(i)
                continue
            c0, c1 = (y[k] * u).sum(), (x[k] * y[k] * u).sum()
            r[i] = (a11 * c0 - a01 * c1 + g[i] * (t * c1 - a01 * c0)) / det
        todo = left
        if not todo:
            break
        bw *= 1.005
    else:
        raise Skip()
    return lin(g, r, x0) if len(g) != len(x0) else r


def var1(x, y, x0, tr, bw, w=None, big=16384):
    m = lin(x0, tr, x)
    s = (m != M) & (y != M)
    x, r = x[s], (y[s] - m[s]) ** 2
    ww = np.ones(len(x)) if w is None else w[s]
    if len(x) < 2:
        return None
    gv = r.sum() / (len(r) - 1)
    g = regrid(bw, x0) if len(x0) > 128 else x0
    if len(x) > big:
        r, ww = bin1(x, r, None if w is None else ww, g)
        x = g
    if x.max() - x.min() < 1e-9:
        raise Skip()
    eff = min(2.506628 * bw * ww.sum() / (x.max() - x.min()), ww.sum())
    out = np.empty(len(g))
    for i in range(len(g)):
        k, u = kern1(x, r, ww, bw, g[i])
        out[i] = ((u * r[k]).sum() + eff * gv) / (u.sum() + eff)
    return lin(g, out, x0) if len(g) != len(x0) else out


def est2(x, y, z, x0, y0, bx, by, big=16384):
    gx, gy = regrid(bx, x0), regrid(by, y0)
    w = np.ones(len(x))
    if len(z) > big:
        x, y, z, w = bin2(x, y, z, gx, gy)
    eff = 6.283185 * bx * by * len(x) / ((x.max() - x.min()) * (y.max() - y.min()))
    far(eff, len(z))
    if eff > len(z):
        return None
    r = np.full((len(gx), len(gy)), M)
    for it in range(250):
        left = r == M
        if not left.any():
            break
        u = kern2(x, y, z, w, bx, by, gx, gy)[left]
        t = u.sum(1)
        if np.any(np.abs(t - eff) < 1e-9 * (t + eff)):
            raise Skip()
        X = np.stack([np.ones(len(x)), x, y], 1)
        A = np.einsum("nk,ki,kj->nij", u, X, X, optimize=True)
        A[:, 1, 1] *= 1 + 1e-4
        A[:, 2, 2] *= 1 + 1e-4
        det = np.linalg.det(A)
        if np.any((t > eff) & (np.abs(det - 1e-4) < 1e-10 * A[:, 0, 0] * A[:, 1, 1] * A[:, 2, 2] + 1e-12)):
            raise Skip()
        ok = (t > eff) & (det > 1e-4)
        i, j = np.nonzero(left)
        i, j = i[ok], j[ok]
        if ok.any():
            beta = np.linalg.solve(A[ok], (u[ok] @ (X * z[:, None]))[:, :, None])[:, :, 0]
            r[i, j] = beta[:, 0] + gx[i] * beta[:, 1] + gy[j] * beta[:, 2]
        bx *= 1.02
        by *= 1.02
    else:
        raise Skip()
    return np.array([[bil(gx, gy, r, a, b) for b in y0] for a in x0])


def var2(x, y, z, x0, y0, tr, bx, by, big=16384):
    m = np.array([bil(x0, y0, tr, a, b) for a, b in zip(x, y)])
    s = (m != M) & (z != M)
    x, y, r = x[s], y[s], (z[s] - m[s]) ** 2
    if len(x) < 2:
        return None
    gv = r.sum() / (len(r) - 1)
    gx, gy = regrid(bx, x0), regrid(by, y0)
    w = np.ones(len(x))
    if len(r) > big:
        x, y, r, w = bin2(x, y, r, gx, gy)
    if x.max() - x.min() < 1e-9 or y.max() - y.min() < 1e-9:
        raise Skip()
    eff = min(6.283185 * bx * by * len(x) / ((x.max() - x.min()) * (y.max() - y.min())), len(x))
    u = kern2(x, y, r, w, bx, by, gx, gy)
    v = (u @ np.where(r == M, 0.0, r) + eff * gv) / (u.sum(2) + eff)
    return np.array([[bil(gx, gy, v, a, b) for b in y0] for a in x0])


def conf1(n, x, x0, bw):
    """True: fine, False: refused, None: too close or not stated"""
    if n == 0:
        return False
    if any(a > b for a, b in zip(x0, x0[1:])):
        return False
    d = max(x) - min(x)
    for f in (3, 1):
        far(min(x0), min(x) - f * d)
        far(max(x0), max(x) + f * d)
    if min(x0) < min(x) - 3 * d and max(x) + 3 * d < max(x0):
        return False
    if min(x0) < min(x) - d or max(x0) > max(x) + d:
        return True
    if n == 10:
        raise Skip()
    return not (n < 10 or bw < 1e-5)


def conf2(n, x, y, x0, y0, bx, by):
    if n == 0 or any(a > b for v in (x0, y0) for a, b in zip(v, v[1:])):
        return False
    o3, o1 = [], False
    for u, v in ((x, x0), (y, y0)):
        d = max(u) - min(u)
        for f in (3, 1):
            far(v[0], min(u) - f * d)
            far(v[-1], max(u) + f * d)
        o3.append(v[0] < min(u) - 3 * d and max(u) + 3 * d < v[-1])
        o1 = o1 or v[0] < min(u) - d or v[-1] > max(u) + d
    if all(o3):
        return False
    if o1:
        return True
    if n == 10:
        raise Skip()
    return not (n < 10 or bx < 1e-5 or by < 1e-5)


# --- data

def skipping(f):
    def run(c):
        try:
            return f(c)
        except Skip:
            return False, ["close"]
    return run


@st.composite
def data(draw, big=False):
    return {"n": draw(st.integers(16385, 22000)) if big else draw(st.one_of(st.integers(11, 40), st.integers(11, 150))), "seed": draw(st.integers(0, 2**31)), "kind": draw(st.sampled_from(["even", "even", "cluster", "grid", "walk", "centre"])), "o": [draw(st.sampled_from([0.0, 0.0, 5.0, -3.0, 50.0, 200.0])) for _ in range(2)], "sc": [draw(st.sampled_from([1.0, 10.0, 100.0, 3.7])) for _ in range(2)],
            "n0": [draw(st.one_of(st.integers(2, 30), st.integers(2, 30), st.sampled_from([128, 129, 150, 300]))), draw(st.integers(2, 24))], "lo": [draw(gen.nice(-0.4, 0.6, 2)) for _ in range(2)], "hi": [draw(gen.nice(0.7, 1.4, 2)) for _ in range(2)],
            "b": draw(st.sampled_from([1.0, 1.0, 1.0, 0.4, 0.15, 1.8])), "w": draw(st.sampled_from([None, None, "one", "varied"])), "miss": draw(st.sampled_from([0.0, 0.0, 0.1, 0.9])), "f": draw(st.sampled_from(["linear", "wave", "noise", "constant"]))}


def observations(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]

    def one():
        if c["kind"] == "even":
            return r.uniform(0, 1, n)
        if c["kind"] == "cluster":
            return np.clip(r.choice([0.1, 0.5, 0.95], n) + r.normal(0, 0.04, n), 0, 1)
        if c["kind"] == "grid":
            return np.round(r.uniform(0, 1, n), 1)
        if c["kind"] == "centre":
            return np.clip(r.normal(0.5, 0.12, n), 0, 1)
        return np.cumsum(r.uniform(0, 1, n)) / n
    x, y = c["o"][0] + c["sc"][0] * one(), c["o"][1] + c["sc"][1] * one()
    u, v = (x - c["o"][0]) / c["sc"][0], (y - c["o"][1]) / c["sc"][1]
    z = {"linear": 3 + 2 * u - 5 * v, "wave": np.sin(6 * u) * np.cos(3 * v) + 1, "noise": np.zeros(n), "constant": np.full(n, 7.5)}[c["f"]] + (0 if c["f"] == "constant" else r.normal(0, 0.3, n))
    w = None if c["w"] is None else np.ones(n) if c["w"] == "one" else r.uniform(0.2, 2, n)
    x0 = np.array([c["o"][0] + c["sc"][0] * (c["lo"][0] + (c["hi"][0] - c["lo"][0]) * i / (c["n0"][0] - 1)) for i in range(c["n0"][0])])
    y0 = np.array([c["o"][1] + c["sc"][1] * (c["lo"][1] + (c["hi"][1] - c["lo"][1]) * i / (c["n0"][1] - 1)) for i in range(c["n0"][1])])
    miss = r.random(n) < c["miss"]
    if x.max() - x.min() < 1e-6 or y.max() - y.min() < 1e-6:
        raise Skip()
    return x, y, z, w, x0, y0, miss


@skipping
def check_1d(c):
    import vtrend as v
    x, _, z, w, x0, _, miss = observations(c)
    bw = c["b"] * bandwidth(x, 1.414214, 0.2)
    require_close(v.bandwidth(x.tolist(), 1.414214, 0.2), bw / c["b"], "bandwidth", 1e-7, 1e-12)
    wl = [] if w is None else w.tolist()
    labels = [c["kind"], "weights" if wl else "plain"]
    r = np.random.default_rng(c["seed"] + 1)
    tr = 1.5 + np.cumsum(r.normal(0, 1, len(x0))) / len(x0)
    zz = np.where(miss, M, z)
    ex = var1(x, zz, x0, tr, bw, w)
    got, err = v.var1(x.tolist(), zz.tolist(), x0.tolist(), tr.tolist(), bw, wl)
    if ex is None:
        require(err != "", "1D variance estimated without two observations")
    else:
        require(err == "", "1D variance: %r", err)
        require_close(got, ex.tolist(), "1D variance", 1e-7, 1e-9 * (1 + float(np.max(ex))))
    ex = est1(x, z, x0, bw, w)
    if ex is None:
        return False, ["wide"]
    got, err = v.est1(x.tolist(), z.tolist(), x0.tolist(), bw, wl)
    require(err == "", "1D trend: %r", err)
    require_close(got, ex.tolist(), "1D trend", 1e-6, 1e-7 * (1 + float(np.max(np.abs(ex)))))
    return True, labels + (["regridded"] if len(x0) > 128 else []) + (["binned"] if c["n"] > 16384 else [])


@skipping
def check_2d(c):
    import vtrend as v
    if c["n0"][0] > 30:
        c = dict(c, n0=[c["n0"][0] // 8, c["n0"][1]])
    x, y, z, _, x0, y0, miss = observations(c)
    bx, by = c["b"] * bandwidth(x, 1.0, 0.167), c["b"] * bandwidth(y, 1.0, 0.167)
    while len(regrid(bx, x0)) * len(regrid(by, y0)) * min(len(x), 1500) > 250000:
        bx, by = bx * 1.2, by * 1.2
    r = np.random.default_rng(c["seed"] + 1)
    tr = r.uniform(0, 2, (len(x0), len(y0)))
    zz = np.where(miss, M, z)
    ex = var2(x, y, zz, x0, y0, tr, bx, by)
    got, err = v.var2(x.tolist(), y.tolist(), zz.tolist(), x0.tolist(), y0.tolist(), tr.tolist(), bx, by)
    if ex is None:
        require(err != "", "2D variance estimated without two observations")
    else:
        require(err == "", "2D variance: %r", err)
        require_close(np.array(got).ravel().tolist(), ex.ravel().tolist(), "2D variance", 1e-7, 1e-9 * (1 + float(np.max(ex))))
    ex = est2(x, y, z, x0, y0, bx, by)
    if ex is None:
        return False, ["wide"]
    got, err = v.est2(x.tolist(), y.tolist(), z.tolist(), x0.tolist(), y0.tolist(), bx, by)
    require(err == "", "2D trend: %r", err)
    require_close(np.array(got).ravel().tolist(), ex.ravel().tolist(), "2D trend", 1e-4, 1e-5 * (1 + float(np.max(np.abs(ex)))))
    return True, [c["kind"]] + (["binned"] if c["n"] > 16384 else [])


@skipping
def check_steps(c):
    import vtrend as v
    x, y, z, w, x0, y0, miss = observations(c)
    n = len(x)
    zz = np.where(miss, M, z)
    k = ~miss
    if k.sum() > 1:
        require_close(v.variance(zz.tolist()), float(np.var(z[k], ddof=1)), "variance", 1e-7, 1e-9)
    s, o, rk = v.rank(x.tolist())
    es, eo, er = order(x)
    require(s == es.tolist() and o == eo.tolist() and rk == er.tolist(), "order and rank of %r", x.tolist()[:8])
    require(v.sorted(s) and v.sorted(x0.tolist()) and v.sorted(x.tolist()) == bool(np.all(np.diff(x) >= 0)), "the check for sorted values")
    for q in np.concatenate([x[:4], x0[:4], [x.min() - 1, x.max() + 1]]).tolist():
        a, b = v.lower(s, q), v.upper(s, q)
        ea = 0 if q <= es[0] else n - 1 if q >= es[-1] else int(np.searchsorted(es, q, "right")) - 1
        eb = 0 if q <= es[0] else n - 1 if q >= es[-1] else int(np.searchsorted(es, q, "left"))
        require((a, b) == (ea, eb), "bounds %r of %r in sorted values, expected %r", (a, b), q, (ea, eb))
    bw = c["b"] * bandwidth(x, 1.0, 0.2)
    g = regrid(bw, x0)
    require_close(v.regrid(bw, x0.tolist()), g.tolist(), "nodes of the coarser grid", 1e-12, 1e-9)
    a, b = v.bin1(x.tolist(), z.tolist(), [] if w is None else w.tolist(), x0.tolist())
    ea, eb = bin1(x, z, w, x0)
    require_close(a, ea.tolist(), "binned values", 1e-6, 1e-6)
    require_close(b, eb.tolist(), "binned weights", 1e-7, 1e-7)
    e = bin2(x, y, z, x0, y0)
    got = v.bin2(x.tolist(), y.tolist(), z.tolist(), x0.tolist(), y0.tolist())
    for p, q, what in zip(got, e, ("x", "y", "values", "weights")):
        require_close(p, q.tolist(), "2D bins: " + what, 1e-4, 1e-6)
    t = np.random.default_rng(c["seed"]).uniform(-3, 3, len(x0))
    q = np.concatenate([x0, x[:10], [x0[0] - 1e-6, x0[-1] + 1e-6, x0[0] - 1e-3, x0[-1] + 1e-3]])
    require_close(v.lin(x0.tolist(), t.tolist(), q.tolist()), lin(x0, t, q).tolist(), "linear interpolation", 1e-6, 1e-4 * 3 / (x0[1] - x0[0]) + 1e-9)
    t = np.random.default_rng(c["seed"]).uniform(-3, 3, (len(x0), len(y0)))
    p = np.concatenate([y0[:6], y[:6], [y0[0] - 1e-3, y0[-1] + 1e-6]])
    q = q[-12:]
    got = v.bil(x0.tolist(), y0.tolist(), t.tolist(), q.tolist(), p.tolist())
    for i in range(len(q)):
        for j in range(len(p)):
            require_close(got[i][j], bil(x0, y0, t, q[i], p[j]), "bilinear interpolation at %r, %r" % (q[i], p[j]), 1e-6, 1e-4 * 3 * (1 / (x0[1] - x0[0]) + 1 / (y0[1] - y0[0])) + 1e-9)
    return True, [c["kind"]]


@st.composite
def conf(draw):
    c = draw(data())
    c["n"] = draw(st.sampled_from([0, 1, 2, 5, 9, 10, 11, 12, 40]))
    c["lo"] = [draw(gen.nice(-5, 0.5, 2)) for _ in range(2)]
    c["hi"] = [draw(gen.nice(0.7, 6, 2)) for _ in range(2)]
    c["rev"] = draw(st.integers(0, 7))
    c["small"] = draw(st.integers(0, 3))
    return c


@skipping
def check_conf(c):
    import vtrend as v
    n = c["n"]
    x, y, z, w, x0, y0, miss = observations(dict(c, n=max(n, 3)))
    x, y, z = x[:n], y[:n], z[:n]
    if c["rev"] == 0 and len(x0) > 2:
        x0[1], x0[2] = x0[2], x0[1]
    if c["rev"] == 1:
        y0 = y0[::-1]
    bx, by = (1e-6 if c["small"] == 0 else 0.3), (1e-6 if c["small"] == 1 else 0.3)
    e = conf1(n, x, x0, bx)
    ok, err = v.check1(x.tolist(), z.tolist(), x0.tolist(), bx)
    require(ok == e and (err == "") == e, "1D configuration of %d observations in %s, nodes %s, bandwidth %r is %s (%r)", n, x.tolist(), x0.tolist(), bx, "accepted" if ok else "refused", err)
    e2 = conf2(n, x, y, x0, y0, bx, by)
    ok, err = v.check2(x.tolist(), y.tolist(), z.tolist(), x0.tolist(), y0.tolist(), bx, by)
    require(ok == e2 and (err == "") == e2, "2D configuration is %s (%r)", "accepted" if ok else "refused", err)
    return n > 0, ["accepted" if e else "refused"]


@st.composite
def wells(draw):
    c = draw(data())
    c["cut"] = sorted(draw(st.lists(st.integers(0, c["n"]), min_size=1, max_size=4)))
    c["mean"] = draw(st.integers(0, 2))
    c["ref"] = draw(st.integers(1, 2))
    c["n0"] = [min(k, 40) for k in c["n0"]]
    c["miss"] = draw(st.sampled_from([0.0, 0.1, 0.3, 1.0]))
    c["how"] = draw(st.sampled_from(["const", "one", "two"]))
    return c


@skipping
def check_wells(c):
    import vtrend as v
    x, y, z, _, x0, y0, miss = observations(c)
    r = np.random.default_rng(c["seed"] + 5)
    n = len(x)
    # the logs: missing values anywhere, positions relative to the first node of the trend cubes
    a, b, l = x - x0[0], y - y0[0], z.copy()
    which = r.integers(0, 3, n)
    a[miss & (which == 0)] = M
    b[miss & (which == 1)] = M
    l[miss & (which == 2)] = M
    cut = [0] + c["cut"] + [n]
    part = lambda q: [q[i:j].tolist() for i, j in zip(cut, cut[1:])]
    A, B, Z = part(a), part(b), part(l)
    xx, yy = a + x0[0], b + y0[0]
    k0, k1, k2, k12 = l != M, (l != M) & (a != M), (l != M) & (b != M), (l != M) & (a != M) & (b != M)
    require(v.pre0(Z) == l[k0].tolist(), "observations collected from the wells")
    require_close(v.pre1(A, Z, x0.tolist())[0], xx[k1].tolist(), "positions collected from the wells", 0.0, 1e-9)
    require(v.pre1(A, Z, x0.tolist())[1] == l[k1].tolist(), "observations with positions collected from the wells")
    p = v.pre2(A, B, Z, [x0.tolist(), y0.tolist()])
    require_close(p[0], xx[k12].tolist(), "x collected from the wells", 0.0, 1e-9)
    require_close(p[1], yy[k12].tolist(), "y collected from the wells", 0.0, 1e-9)
    require(p[2] == l[k12].tolist(), "observations with x and y collected from the wells")
    require_close(v.constant(Z, 5.0), float(l[k0].mean()) if k0.any() else 0.0, "constant trend", 1e-9, 1e-9)
    samp, par = [x0.tolist(), y0.tolist()], ["a", "b"]
    # the mean used for the variance
    ref = c["ref"]
    m0 = r.uniform(0, 2)
    m1 = r.uniform(0, 2, len(samp[ref - 1]))
    m2 = r.uniform(0, 2, (len(x0), len(y0)))
    mean = [v.T.c(m0), v.T.t1(m1.tolist(), ref, samp[ref - 1][1] - samp[ref - 1][0]), v.T.t2(len(x0), len(y0), m2.ravel(order="F").tolist(), 1, 2, x0[1] - x0[0], y0[1] - y0[0])][c["mean"]]
    g0 = np.array(samp[ref - 1])
    pos, kk = (xx, k1) if ref == 1 else (yy, k2)
    labels = [c["how"], "mean %dD" % c["mean"]]

    def run(s, typ, mt):
        require(s.estimate() and s.clone().estimate(), "the storage does not estimate")
        return s.clone().gen("", par, samp, Z, A, B, typ, mt)

    if c["how"] == "const":
        t, err = run(v.TS.c(3.0, True), v.MEAN, None)
        require(err == "" and t.kind() == 0, "constant trend: %r", err)
        require_close(t.at(0, 0, 0), float(l[k0].mean()) if k0.any() else 0.0, "estimated constant trend", 1e-9, 1e-9)
        if c["mean"] == 0:
            res = l[k0] - m0
        elif c["mean"] == 1:
            q = lin(g0, m1, pos[kk])
            res = (l[kk] - q)[q != M]
        else:
            q = np.array([bil(x0, y0, m2, s, t) for s, t in zip(xx[k12], yy[k12])])
            res = (l[k12] - q)[q != M]
        t, err = run(v.TS.c(3.0, True), v.VAR, mean)
        if len(res) < 2:
            require(t is None and err != "", "a constant variance is estimated from %d observations", len(res))
            return False, labels + ["none"]
        require(err == "" and t.kind() == 0, "constant variance: %r", err)
        require_close(t.at(0, 0, 0), float((res ** 2).sum() / (len(res) - 1)), "estimated constant variance", 1e-6, 1e-9)
        return True, labels
    if c["how"] == "one":
        s = v.TS.s1("none", par[ref - 1], True)
        q, o = pos[kk], l[kk]
        bw = bandwidth(q, 1.414214, 0.2) if len(q) > 1 else 0.0
        if len(q) > 1 and q.max() - q.min() < 1e-3:
            raise Skip()
        fine = conf1(len(q), q, g0, bw)
        if not fine:
            t, err = run(s, v.MEAN, None)
            require(t is None and err != "", "a 1D trend is estimated from %d observations", len(q))
        elif len(q) >= 11:
            ex = est1(q, o, g0, bw)
            if ex is not None:
                t, err = run(s, v.MEAN, None)
                require(err == "" and t.kind() == 1 and t.ref() == ref, "1D trend: %r", err)
                require_close([t.el(i, i, i) for i in range(len(g0))], ex.tolist(), "estimated 1D trend", 1e-6, 1e-6 * (1 + float(np.max(np.abs(ex)))))
                require_close(t.inc()[ref - 1], g0[1] - g0[0], "increment of the estimated 1D trend", 1e-9)
        if c["mean"] == 2:
            q2, o2 = (xx if ref == 1 else yy)[k12], l[k12]
            mm = np.array([bil(x0, y0, m2, s_, t_) for s_, t_ in zip(xx[k12], yy[k12])])
            o2 = np.where(mm != M, o2 - mm, M) if len(mm) else o2
            tr = np.zeros(len(g0))
        else:
            q2, o2, tr = q, o, np.full(len(g0), m0) if c["mean"] == 0 else m1
        if len(q2) > 1 and q2.max() - q2.min() < 1e-3:
            raise Skip()
        bw = bandwidth(q2, 1.414214, 0.2) if len(q2) > 1 else 0.0
        t, err = run(s, v.VAR, mean)
        if not conf1(len(q2), q2, g0, bw):
            require(t is None and err != "", "a 1D variance is estimated from %d observations", len(q2))
            return False, labels + ["none"]
        if len(q2) < 11:
            raise Skip()
        ex = var1(q2, o2, g0, tr, bw)
        if ex is None:
            require(t is None and err != "", "a 1D variance is estimated without residuals")
            return False, labels + ["none"]
        require(err == "" and t.kind() == 1 and t.ref() == ref, "1D variance: %r", err)
        require_close([t.el(i, i, i) for i in range(len(g0))], ex.tolist(), "estimated 1D variance", 1e-6, 1e-9)
        return True, labels
    s = v.TS.s2("none", "a", "b", True)
    q, p, o = xx[k12], yy[k12], l[k12]
    if len(q) > 1 and min(q.max() - q.min(), p.max() - p.min()) < 1e-3:
        raise Skip()
    bx, by = (bandwidth(q, 1.0, 0.167), bandwidth(p, 1.0, 0.167)) if len(q) > 1 else (0.0, 0.0)
    if not conf2(len(q), q, p, x0, y0, bx, by):
        t, err = run(s, v.MEAN, None)
        require(err != "", "a 2D trend is estimated from %d observations", len(q))
        return False, labels + ["none"]
    if len(q) < 11:
        raise Skip()
    mt = np.full((len(x0), len(y0)), m0) if c["mean"] == 0 else (m1[:, None] + 0 * y0[None, :] if ref == 1 else m1[None, :] + 0 * x0[:, None]) if c["mean"] == 1 else m2
    t, err = run(s, v.VAR, mean)
    ex = var2(q, p, o, x0, y0, mt, bx, by)
    if ex is None:
        require(err != "", "a 2D variance is estimated without residuals")
        return False, labels + ["none"]
    require(err == "" and t.kind() == 2 and t.size() == [len(x0), len(y0), 0], "2D variance: %r", err)
    require_close([t.el(i, j, 0) for i in range(len(x0)) for j in range(len(y0))], ex.ravel().tolist(), "estimated 2D variance", 1e-6, 1e-9)
    require(run(s, v.VAR, None)[1] != "", "a 2D variance is estimated without a mean")
    if len(x0) * len(y0) > 300 and c["seed"] % 4:
        return True, labels
    ex = est2(q, p, o, x0, y0, bx, by)
    if ex is not None:
        t, err = run(s, v.MEAN, None)
        require(err == "" and t.kind() == 2, "2D trend: %r", err)
        require_close([t.el(i, j, 0) for i in range(len(x0)) for j in range(len(y0))], ex.ravel().tolist(), "estimated 2D trend", 1e-4, 1e-5 * (1 + float(np.max(np.abs(ex)))))
        require_close(t.inc(), [x0[1] - x0[0], y0[1] - y0[0], 0.0], "increments of the estimated 2D trend", 1e-9, 1e-12)
    return True, labels


@st.composite
def hopeless(draw):
    """data on a line: no surface can be fitted, which is reported"""
    return {"n": draw(st.integers(11, 14)), "seed": draw(st.integers(0, 10**6)), "d": draw(st.sampled_from([1, 2]))}


def check_hopeless(c):
    import vtrend as v
    r = np.random.default_rng(c["seed"])
    if c["d"] == 1:
        # positions so small that the fit is never well determined
        x = r.uniform(0, 1e-5, c["n"])
        got, err = v.est1(x.tolist(), r.normal(0, 1, c["n"]).tolist(), [0.0, 5e-6, 1e-5], 2e-6, [])
    else:
        x, y = r.uniform(0, 1e-3, c["n"]), r.uniform(0, 1e-3, c["n"])
        got, err = v.est2(x.tolist(), y.tolist(), r.normal(0, 1, c["n"]).tolist(), [0.0, 1e-3], [0.0, 1e-3], 2e-4, 2e-4)
    require(err != "", "a %dD trend that can not be estimated is returned without a message: %r", c["d"], got)
    return True, ["%dD" % c["d"]]


PROP = Prop("C29", [{"shim": "vtrend", "mods": ["trend", "volume", "surface", "iotools", "random", "math", "geometry"], "asan": False}],
            [Sub("steps", data, check_steps, 400, 8000, shards=2, rule=RULE),
             Sub("one dimension", data, check_1d, 300, 6000, shards=3, rule=RULE),
             Sub("two dimensions", data, check_2d, 80, 2000, shards=3, rule=RULE),
             Sub("many observations 1D", lambda: data(big=True), check_1d, 10, 200, shards=1, rule="more than 16384 observations"),
             Sub("many observations 2D", lambda: data(big=True), check_2d, 6, 100, shards=1, rule="more than 16384 observations"),
             Sub("configurations", conf, check_conf, 500, 8000, rule="with observations"),
             Sub("wells", wells, check_wells, 240, 5000, shards=3, rule=RULE),
             Sub("impossible", hopeless, check_hopeless, 4, 40, rule="all")],
            RULE, ["the nodes of trend cubes are equally spaced", "cases within rounding of a decision (a point at the edge of the kernel, a weight equal to the limit) are left out"])
