"""C28: trends."""
import math, os, shutil, struct, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen, ref

RULE = ("Histories of adding, truncating, scaling, copying and reading constant, 1D, 2D and 3D trends, made from values, with an own increment or from files (plain, with comments and header, surfaces, binary); resampling and storages that read trends. "
        "Non-trivial: a trend of at least one dimension with different values.")

val = st.one_of(st.integers(-9, 9).map(float), gen.nice(-50, 50, 3), gen.nice(0, 1e4, 2))
pos = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25]), gen.nice(0, 1, 4), st.floats(0, 1))
out = st.one_of(pos, pos, gen.nice(-0.5, 1.6, 3))


def scratch(f):
    def run(c):
        import vtrend
        d = tempfile.mkdtemp()
        try:
            return f(c, vtrend, d)
        finally:
            shutil.rmtree(d)
    return run


def raises(v, f, *a):
    try:
        f(*a)
    except (v.Exc, v.IOErr, v.FormatErr, v.Eof):
        return True
    return False


@st.composite
def trend(draw):
    dim = draw(st.integers(0, 3))
    n = [draw(st.integers(2, 6)) for _ in range(dim)]
    c = {"dim": dim, "n": n, "v": draw(st.lists(val, min_size=int(np.prod(n)), max_size=int(np.prod(n)))), "ref": draw(st.integers(1, 3)) if dim == 1 else draw(st.sampled_from([[1, 2], [1, 3], [2, 3]])), "d": draw(st.lists(gen.nice(0.05, 30, 3), min_size=2, max_size=2)) if draw(st.integers(0, 2)) == 0 else None,
         "src": draw(st.sampled_from(["values", "values", "file"])), "form": draw(st.integers(0, 3)), "lay": draw(st.integers(0, 5)), "s0": draw(gen.nice(-100, 3000, 3)), "dz": draw(gen.nice(0.1, 20, 3))}
    if dim == 0 or dim == 3 or c["src"] == "file":
        c["d"] = None
    return c


def text(vals, lay):
    w = ["%r" % x for x in vals]
    if lay == 0:
        return "\n".join(w) + "\n"
    if lay == 1:
        return " ".join(w)
    if lay == 2:
        return "".join(x + ("\n" if k % 3 == 2 else "  ") for k, x in enumerate(w)) + "\n\n"
    if lay == 3:
        return "\n".join(w)
    if lay == 4:
        return "  " + "\t".join(w) + "  \n"
    return " \r\n".join(w) + "\r\n"


COM = ["* Trend from well 1", "\"WELLS\" 1", "*", "*no space 3 4", "\"", "* 1 2 3"]


def bad_dims(c):
    """dimensions of which one is zero, or two are negative"""
    n, k = list(c["n"]), c["lay"] % len(c["n"])
    if sum(c["n"]) % 2:
        n[k] = 0
    else:
        n[k], n[k - 1] = -n[k], -n[k - 1]
    return n


def build(c, v, d):
    """the trend and its values as an array"""
    a = np.array(c["v"], float).reshape(c["n"], order="F") if c["dim"] else np.array(c["v"][0] if c["v"] else 1.0)
    p = os.path.join(d, "trend")
    if c["dim"] == 0:
        return v.T.c(float(a)), a
    if c["src"] == "values":
        if c["dim"] == 1:
            return v.T.t1(a.tolist(), c["ref"], c["d"][0] if c["d"] else 0.0), a
        if c["dim"] == 2:
            return v.T.t2(c["n"][0], c["n"][1], c["v"], c["ref"][0], c["ref"][1], *(c["d"] or [0.0, 0.0])), a
        return v.T.t3(*c["n"], c["v"]), a
    if c["dim"] == 1:
        if c["form"] < 2:
            open(p, "w", newline="").write(text(c["v"], c["lay"]))
        else:
            com = [COM[(c["lay"] + k) % len(COM)] for k in range(1 + c["lay"] % 3)]
            head = "\n".join(com) + "\n" + "%r\n%r%s\n%d%s\n" % (c["s0"], c["dz"], " ! step" if c["form"] == 3 else "", len(c["v"]), " values" if c["form"] == 3 else "")
            extra = "1.0 2.0\n" if c["lay"] == 2 else ""
            open(p, "w", newline="").write(head + text(c["v"], c["lay"]) + extra)
            t, s0, dz, err = v.read1(p)
            require(err == "" and t == c["v"] and s0 == c["s0"] and dz == c["dz"], "reading a 1D trend file gives %r, start %r, step %r and the message %r, expected %r, %r, %r", t, s0, dz, err, c["v"], c["s0"], c["dz"])
        require(v.format1(p) == (1 if c["form"] < 2 else 0, ""), "format %r of a 1D trend file %s comments", v.format1(p), "without" if c["form"] < 2 else "with")
        for r in (0, 4, -1):
            require(raises(v, v.T.f1, p, r), "a 1D trend file is accepted with reference %d", r)
        return v.T.f1(p, c["ref"]), a
    if c["dim"] == 2:
        if c["form"] < 3:
            t = text(a.ravel().tolist(), c["lay"])
            open(p, "w", newline="").write("%d %d\n" % tuple(c["n"]) + t)
            tr = v.T.f2(p, *c["ref"])
            w = ["%r" % x for x in a.ravel().tolist()]
            open(p, "w").write("%d %d\n" % tuple(c["n"]) + " ".join(w[:-1]))
            w = w[:c["lay"] % len(w)]
            open(p, "w").write("%d %d\n" % tuple(c["n"]) + " ".join(w))
            try:
                v.T.f2(p, *c["ref"])
                require(False, "a 2D trend file with %d values for %r nodes is accepted", len(w), c["n"])
            except (v.Exc, v.IOErr, v.FormatErr, v.Eof) as e:
                require(str(e).count(p) == 1, "the message on a 2D trend file that is too short names it %d times", str(e).count(p))
            m = bad_dims(c)
            open(p, "w").write("%d %d\n" % tuple(m) + t)
            require(raises(v, v.T.f2, p, *c["ref"]), "a 2D trend file with the dimensions %r is accepted", m)
            return tr, a
        v.surface_file(p, 10.0, 20.0, 100.0, 200.0, c["n"][0], c["n"][1], c["v"], True)
        return v.T.f2(p, *c["ref"]), a
    if c["form"] == 0:
        open(p, "w", newline="").write("%d %d\n%d\n" % tuple(c["n"]) + text(c["v"], c["lay"]))
        tr = v.T.f3(p, 0)
        open(p, "w").write("%d %d %d\n" % tuple(c["n"]) + " ".join("%r" % x for x in c["v"][:-1]))
        require(raises(v, v.T.f3, p, 0), "a 3D trend file that is too short is accepted")
        m = bad_dims(c)
        open(p, "w").write("%d %d %d\n" % tuple(m) + " ".join("%r" % x for x in c["v"]))
        require(raises(v, v.T.f3, p, 0), "a 3D trend file with the dimensions %r is accepted", m)
        return tr, a
    e = ">" if c["form"] == 3 else "<"
    b = np.array(c["n"], e + "i4").tobytes() + np.array(c["v"], e + "f4").tobytes()
    open(p, "wb").write(b)
    tr = v.T.f3(p, c["form"])
    open(p, "wb").write(b[:-1 - c["lay"] % 4])
    require(raises(v, v.T.f3, p, c["form"]), "a binary 3D trend file that is too short is accepted")
    m = bad_dims(c)
    open(p, "wb").write(np.array(m, e + "i4").tobytes() + b[12:])
    require(raises(v, v.T.f3, p, c["form"]), "a binary 3D trend file with the dimensions %r is accepted", m)
    return tr, np.array(c["v"], np.float32).astype(float).reshape(c["n"], order="F")


def interp(a, f):
    """multilinear interpolation at the fractional indices f, constant outside"""
    r = np.array(a, float)
    for x in f:
        n = r.shape[0]
        x = min(max(x, 0.0), n - 1.0)
        i = min(int(math.floor(x)), n - 2) if n > 1 else 0
        t = x - i
        r = (1 - t) * r[i] + t * r[i + 1] if n > 1 else r[0]
    return float(r)


def model_value(c, a, s, vol=None):
    if c["dim"] == 0:
        return float(a)
    if vol is not None:
        s = [s[0] / vol[0], s[1] / vol[1], s[2] / vol[2]]
    n = c["n"]
    if c["dim"] == 1:
        w = [s[c["ref"] - 1]]
    elif c["dim"] == 2:
        w = [s[c["ref"][0] - 1], s[c["ref"][1] - 1]] if vol is not None else [s[0], s[1]]
    else:
        w = s
    return interp(a, [x / d if d else x * (m - 1) for x, m, d in zip(w, n, c["d"] or [None] * 3)])


def same(c, t, a, what, tol):
    require(t.kind() == c["dim"] and t.dim() == c["dim"], "%s: dimension %r of a %dD trend", what, t.dim(), c["dim"])
    dirs = [] if c["dim"] == 0 else [c["ref"]] if c["dim"] == 1 else c["ref"] if c["dim"] == 2 else [1, 2, 3]
    size, inc = [0, 0, 0], [0.0, 0.0, 0.0]
    for k, r in enumerate(dirs):
        size[r - 1] = c["n"][k]
        inc[r - 1] = c["d"][k] if c["d"] else 1.0 / (c["n"][k] - 1)
    if c["dim"] == 0:
        size = [1, 0, 0]
    require(t.size() == size, "%s: size %r, expected %r", what, t.size(), size)
    if c["dim"] < 3:
        require_close(t.inc(), inc, what + ": increments", 1e-12, 1e-300)
    require(t.ref() == (0 if c["dim"] in (0, 3) else dirs[0]), "%s: reference %r of %r", what, t.ref(), dirs)
    for idx in np.ndindex(a.shape):
        ijk = [7, 7, 7]
        for r, k in zip(dirs, idx):
            ijk[r - 1] = k
        require_close(t.el(*ijk), float(a[idx]), "%s: element %r" % (what, idx), tol, tol)
    mn, mx, mean, ok = t.stat()
    sc = float(np.abs(a).max()) + 1e-300
    require_close([mn, mx], [float(a.min()), float(a.max())], what + ": minimum and maximum", tol, tol * sc)
    require_close(mean, math.fsum(a.ravel().tolist()) / a.size, what + ": mean", 1e-12, (1e-13 + tol) * sc)
    if abs(a.min()) > 1e-9 * sc:
        require(ok == bool(a.min() >= 0), "%s: the check for negative values says %r for a minimum of %r", what, ok, float(a.min()))


def values(c, t, a, what, tol):
    sc = float(np.abs(a).max()) + 1e-300
    for s in c["q"]:
        if c["dim"] == 3:
            s = [min(max(x, 0.0), 1.0) for x in s]
        elif c["d"]:
            s = [x * d * 5 for x, d in zip(s, (c["d"] * 3 if c["dim"] == 1 else [c["d"][0], c["d"][1], 1.0]))]
        require_close(t.at(*s), model_value(c, a, s), "%s: value at %r" % (what, s), 1e-9, (1e-9 + tol) * sc)
        if c["dim"] == 0:
            require_close(t.at0(), model_value(c, a, s), what + ": value", tol, tol)
        if c["dim"] == 1:
            require_close(t.at1(s[0]), model_value(c, a, [s[0], 0.0, 0.0]), "%s: value at %r" % (what, s[0]), 1e-9, (1e-9 + tol) * sc)
        if c["dim"] in (1, 2):
            require_close(t.at2(s[0], s[1]), model_value(c, a, [s[0], s[1], 0.0]), "%s: value at %r" % (what, s[:2]), 1e-9, (1e-9 + tol) * sc)
        if not c["d"]:
            w = c["vol"]
            g = [x * l for x, l in zip(s, w[2:5])]
            lz = w[4]
            vol = [w[0], w[1], w[2], w[3], w[5], w[5] + lz, w[6]]
            require_close(t.atv(*g, vol), model_value(c, a, g, (w[2], w[3], lz)), "%s: value at %r in a volume of %r" % (what, g, w[2:5]), 1e-9, (1e-8 + tol) * sc)


@st.composite
def history(draw):
    c = draw(trend())
    c["q"] = draw(st.lists(st.lists(out, min_size=3, max_size=3), min_size=2, max_size=5))
    c["vol"] = [draw(gen.nice(-100, 1000, 2)), draw(gen.nice(-100, 1000, 2)), draw(gen.nice(1, 500, 2)), draw(gen.nice(1, 500, 2)), draw(gen.nice(1, 200, 2)), draw(gen.nice(-10, 2000, 2)), draw(gen.nice(0, 6, 3))]
    c["ops"] = draw(st.lists(st.one_of(st.tuples(st.just("add"), val), st.tuples(st.just("trunc"), val, gen.nice(0, 60, 2)), st.tuples(st.just("scale"), st.one_of(val, st.just(1.0))), st.tuples(st.just("clone")), st.tuples(st.just("copy"))), max_size=6))
    c["seed"] = draw(gen.seed32())
    return c


@scratch
def check_history(c, v, d):
    t, a = build(c, v, d)
    same(c, t, a, "new trend", 0.0)
    values(c, t, a, "new trend", 0.0)
    others, tol = [], 0.0
    for op in c["ops"]:
        if op[0] == "add":
            t.add(op[1])
            a = a + op[1]
            tol += 1e-14 * (1 + abs(op[1]))
        elif op[0] == "trunc":
            t.trunc(op[1], op[1] + op[2])
            a = np.minimum(np.maximum(a, op[1]), op[1] + op[2])
        elif op[0] == "scale":
            m, sc = math.fsum(a.ravel().tolist()) / a.size, np.abs(a).max()
            if c["dim"] and (abs(m) < 1e-3 * sc or sc == 0 or abs(op[1]) > 1e3 * abs(m)):
                continue
            t.scale(op[1])
            a = a * (op[1] / m) if c["dim"] else np.array(op[1])
            tol = (tol + 1e-13 * (1 + sc / abs(m) if m else 0)) * 10 * (1 + (abs(op[1] / m) if m else 0))
        else:
            others.append((t, a.copy(), tol, op[0]))
            t = t.clone() if op[0] == "clone" else t.copy()
        same(c, t, a, "after %s" % op[0], tol)
    values(c, t, a, "after the history", tol)
    for o, b, q, how in others:
        same(c, o, b, "original after changing its %s" % how, q)
    if c["dim"] == 0:
        w = c["vol"]
        p = t.draw([w[0], w[1], w[2], w[3], w[5], w[5] + w[4], w[6]], c["seed"])
        r = ref.Rng(c["seed"])
        u = [r.unif() for _ in range(3)]
        x = w[0] + u[0] * w[2] * math.cos(w[6]) - u[1] * w[3] * math.sin(w[6])
        y = w[1] + u[0] * w[2] * math.sin(w[6]) + u[1] * w[3] * math.cos(w[6])
        require_close(p, [x, y, u[2] * w[4]], "point drawn in the volume", 1e-9, 1e-6)
    return c["dim"] > 0 and len(set(c["v"])) > 1, ["dim %d" % c["dim"], c["src"]] + (["history"] if c["ops"] else [])


def check_args(c):
    import vtrend as v
    for r in (0, 4, -1):
        require(raises(v, v.T.t1, c["v"], r, 0.0) and raises(v, v.T.t1, c["v"], r, 1.0), "a 1D trend with reference %d is accepted", r)
    require(raises(v, v.T.t1, [], 1, 0.0) and raises(v, v.T.t1, [], 2, 1.0), "a 1D trend without values is accepted")
    return True, []


@st.composite
def resample(draw):
    n = draw(st.integers(2, 8))
    x0, dx = draw(gen.nice(-100, 3000, 2)), draw(gen.nice(0.1, 20, 2))
    return {"x0": x0, "dx": dx, "v": draw(st.lists(val, min_size=n, max_size=n)), "y": sorted(draw(st.lists(st.one_of(out, st.integers(0, n - 1).map(lambda k: k / (n - 1))), min_size=2, max_size=9))), "gap": draw(st.lists(gen.nice(0.2, 3, 1), min_size=n, max_size=n)), "even": draw(st.booleans()),
            "nj": draw(st.integers(2, 5)), "seed": draw(st.integers(0, 10**6)), "y2": sorted(draw(st.lists(out, min_size=2, max_size=6))), "tr": draw(st.booleans())}


def check_resample(c):
    import vtrend as v
    n = len(c["v"])
    x = [c["x0"] + k * c["dx"] for k in range(n)] if c["even"] else [c["x0"] + c["dx"] * s for s in np.cumsum(c["gap"]).tolist()]
    y = [x[0] + (x[-1] - x[0]) * min(max(t, 0.0), 1.0) if t != 1.0 else x[-1] for t in c["y"]]
    y = sorted(min(max(t, x[0]), x[-1]) for t in y)
    got = v.resample1(x, c["v"], y, -777.0)
    require_close(got, np.interp(y, x, c["v"]).tolist(), "values of a 1D trend resampled at %r" % y, 1e-9, 1e-9 * (max(map(abs, c["v"])) + 1e-300))
    # 2D: resampling of a surface
    g = np.random.default_rng(c["seed"]).uniform(-10, 10, (n, c["nj"]))
    lx, ly = (n - 1) * c["dx"], (c["nj"] - 1) * 2.5
    px = [c["x0"] + lx * (0.001 + 0.998 * min(max(t, 0), 1)) for t in c["y"]]
    py = [5.0 + ly * (0.001 + 0.998 * min(max(t, 0), 1)) for t in c["y2"]]
    qx, qy = (py, px) if c["tr"] else (px, py)
    ni, nj, val_ = v.resample2(c["x0"], 5.0, lx, ly, n, c["nj"], g.ravel(order="F").tolist(), qx, qy, c["tr"])
    require((ni, nj) == (len(qx), len(qy)), "resampled surface of %d by %d nodes, expected %d by %d", ni, nj, len(qx), len(qy))
    got = np.array(val_).reshape((ni, nj), order="F")
    for i in range(ni):
        for j in range(nj):
            a, b = (qy[j], qx[i]) if c["tr"] else (qx[i], qy[j])
            require_close(got[i, j], interp(g, [(a - c["x0"]) / c["dx"], (b - 5.0) / 2.5]), "resampled surface at %r, %r" % (a, b), 1e-7, 1e-6)
    return len(set(c["v"])) > 1, ["transposed" if c["tr"] else "plain"]


@st.composite
def storage(draw):
    c = draw(resample())
    c["par"] = draw(st.sampled_from([["depth", "vp"], ["a", "b"], ["one", "two"]]))
    c["k"] = draw(st.integers(0, 2))
    c["nc"] = [draw(st.integers(2, 7)), draw(st.integers(2, 7))]
    c["off"] = [draw(gen.nice(-0.4, 0.6, 2)) for _ in range(2)]
    c["span"] = [draw(gen.nice(0.1, 1.3, 2)) for _ in range(2)]
    c["cons"] = draw(val)
    return c


@scratch
def check_storage(c, v, d):
    n = len(c["v"])
    p = d + "/"
    # cube samplings
    x = [c["x0"] + k * c["dx"] for k in range(n)]
    labels = []
    samp = []
    for k in range(2):
        lo = x[0] + c["off"][k] * (x[-1] - x[0])
        samp.append([lo + c["span"][k] * (x[-1] - x[0]) * i / (c["nc"][k] - 1) for i in range(c["nc"][k])])
    r = v.TS.c(c["cons"], False)
    for s in (r, r.clone()):
        t, err = s.gen(p, c["par"], samp, [], [], [], v.MEAN, None)
        require(err == "" and not s.estimate() and t.kind() == 0 and t.at(0.0, 0.0, 0.0) == c["cons"], "constant trend from a storage")
    # 1D
    open(p + "t1", "w").write("* trend\n%r\n%r\n%d\n" % (c["x0"], c["dx"], n) + text(c["v"], c["seed"] % 6))
    k = c["k"]
    for s in (v.TS.s1("t1", (c["par"] + ["other"])[k], False), v.TS.s1("t1", (c["par"] + ["other"])[k], False).clone()):
        require(not s.estimate(), "a trend from file counts as estimated")
        t, err = s.gen(p, c["par"], samp, [], [], [], v.MEAN, None)
        if k == 2:
            require(err != "" and t is None, "a 1D trend of an unknown parameter is generated")
            labels.append("unknown")
            continue
        lo, hi = samp[k][0] - x[0], samp[k][-1] - (x[-1] + c["dx"])
        if abs(lo) < 1e-6 or abs(hi) < 1e-6:
            if lo != 0.0 or abs(hi) < 1e-6:
                continue
        if lo < 0 or hi > 0:
            require(err != "" and t is None, "a 1D trend from %r to %r is used for %r to %r", x[0], x[-1], samp[k][0], samp[k][-1])
            labels.append("outside")
            continue
        require(err == "" and t is not None and t.kind() == 1 and t.ref() == k + 1, "1D trend from file: %r", err)
        sc = max(map(abs, c["v"])) + 1e-300
        ex = np.interp(samp[k], x, c["v"]).tolist()
        for i in range(c["nc"][k]):
            ij = [9, 9, 9]
            ij[k] = i
            require_close(t.el(*ij), ex[i], "1D trend resampled at %r" % samp[k][i], 1e-9, 1e-8 * sc)
            s3 = [0.0, 0.0, 0.0]
            s3[k] = samp[k][i] - samp[k][0]
            require_close(t.at(*s3), ex[i], "1D trend at %r" % samp[k][i], 1e-7, 1e-6 * sc)
        labels.append("inside")
    # 2D
    g = np.random.default_rng(c["seed"]).uniform(-10, 10, (n, c["nj"]))
    lx, ly = (n - 1) * c["dx"], (c["nj"] - 1) * 2.5
    v.surface_file(p + "t2", c["x0"], 5.0, lx, ly, n, c["nj"], g.ravel(order="F").tolist(), True)
    px = [c["x0"] + lx * (0.001 + 0.998 * i / (c["nc"][0] - 1)) for i in range(c["nc"][0])]
    py = [5.0 + ly * (0.001 + 0.998 * i / (c["nc"][1] - 1)) for i in range(c["nc"][1])]
    q = [py, px] if c["tr"] else [px, py]
    names = c["par"][::-1] if c["tr"] else c["par"]
    s = v.TS.s2("t2", names[0], names[1], False)
    for s in (s, s.clone()):
        t, err = s.gen(p, c["par"], q, [], [], [], v.MEAN, None)
        require(err == "" and t is not None and t.kind() == 2 and not s.estimate(), "2D trend from file: %r", err)
        require(t.size() == [len(q[0]), len(q[1]), 0], "2D trend from file: size %r, expected %r", t.size(), [len(q[0]), len(q[1]), 0])
        require_close(t.inc(), [q[0][1] - q[0][0], q[1][1] - q[1][0], 0.0], "2D trend from file: increments", 1e-9, 1e-300)
        for i in range(len(q[0])):
            for j in range(len(q[1])):
                a, b = (q[1][j], q[0][i]) if c["tr"] else (q[0][i], q[1][j])
                require_close(t.el(i, j, 3), interp(g, [(a - c["x0"]) / c["dx"], (b - 5.0) / 2.5]), "2D trend from file at %r, %r" % (a, b), 1e-5, 1e-4)
    t, err = v.TS.s2("t2", names[0], "other", False).gen(p, c["par"], q, [], [], [], v.MEAN, None)
    require(err != "", "a 2D trend of an unknown parameter is generated")
    return True, labels


@st.composite
def written(draw):
    n = draw(st.integers(2, 12))
    return {"s0": draw(gen.nice(-100, 3000, 3)), "ds": draw(gen.nice(0.1, 20, 3)), "v": draw(st.lists(gen.nice(-1000, 1000, 5), min_size=n, max_size=n))}


@scratch
def check_written(c, v, d):
    p = os.path.join(d, "w")
    v.write1(p, [c["s0"] + k * c["ds"] for k in range(len(c["v"]))], c["v"])
    t, s0, dz, err = v.read1(p)
    require(err == "", "reading a written 1D trend: %r", err)
    require_close([s0, dz], [c["s0"], c["ds"]], "start and step of a written 1D trend", 0.0, 6e-7)
    require_close(t, c["v"], "values of a written 1D trend", 0.0, 6e-7)
    # a file cut in the middle is reported
    b = open(p).read().split("\n")
    for k in (1, 2, 3, len(b) - 2):
        open(p, "w").write("\n".join(b[:k]) + "\n")
        require(v.read1(p)[3] != "", "a 1D trend file of %d lines out of %d is read without a message", k, len(b) - 1)
    return True, []


PROP = Prop("C28", [{"shim": "vtrend", "mods": ["trend", "volume", "surface", "iotools", "random", "math", "geometry"], "asan": False}],
            [Sub("histories", history, check_history, 1500, 40000, shards=4, rule=RULE),
             Sub("arguments", lambda: st.fixed_dictionaries({"v": st.lists(val, min_size=2, max_size=4)}), check_args, 20, 100, rule="all"),
             Sub("resampling", resample, check_resample, 800, 20000, shards=2, rule="different values"),
             Sub("storages", storage, check_storage, 800, 20000, shards=2, rule="all"),
             Sub("written", written, check_written, 400, 8000, rule="all")],
            RULE, ["the references of 2D trends are in increasing order", "positions in a volume are used with trends of total length one", "1D trend files have their comments first, without empty lines, and one header value per line"])
