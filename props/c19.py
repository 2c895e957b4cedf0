"""C19: geometry."""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st, assume
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Points, lines (segments, rays in both directions, infinite), planes, triangles, polygons, boxes, bilinear patches, knots and transformations with small integer, decimal and large (map) coordinates; "
        "results are compared with numpy, rational arithmetic or exhaustive search. Non-trivial: the objects are not degenerate and, where an intersection is asked for, it exists.")

co = st.one_of(st.integers(-6, 6).map(float), st.integers(-6, 6).map(float), gen.nice(-20, 20, 2))
pt = st.tuples(co, co, co).map(list)
big = st.one_of(st.just(0.0), st.just(0.0), st.sampled_from([4000.0, -12000.0]))


def N(p):
    return float(np.linalg.norm(p))


# ---------------------------------------------------------------- points
def case_point():
    return st.fixed_dictionaries({"a": pt, "b": st.one_of(pt, st.just("same"), st.just("scaled")), "t": st.one_of(gen.nice(-9, 9, 2), st.sampled_from([2.0, -0.5])).filter(lambda t: t != 0), "c": pt, "tol": st.sampled_from([1e-6, 1e-3, 0.1]), "rel": gen.nice(-3, 3, 2), "path": st.lists(pt, max_size=5)})


def check_point(c):
    import vgeo
    a, t = np.array(c["a"]), c["t"]
    b = a.copy() if c["b"] == "same" else a * 1.7 if c["b"] == "scaled" else np.array(c["b"])
    d = vgeo.point(list(a), list(b), t)
    e = {"+": a + b, "-": a - b, "neg": -a, "*": a * t, "t*": a * t, "/": a / t, "+=": a + b, "-=": a - b, "*=": a * t, "/=": a / t, "cross": np.cross(a, b), "cross2": np.cross(a, b), "unit": a / N(a) if N(a) else a, "unit2": a / N(a) if N(a) else a,
         "swap": b, "swap2": a, "set": a[[1, 2, 0]], "in": [7, 8.5, -9]}
    for k, v in e.items():
        require_close(d[k], v, "point %s of %s and %s" % (k, a, b), 1e-12, 1e-11)
    for k, v in {"dot": a @ b, "dot2": a @ b, "dist": N(a - b), "distxy": N((a - b)[:2]), "norm": N(a), "norm2": N(a)}.items():
        require_close(d[k], float(v), "point %s of %s and %s" % (k, a, b), 1e-12, 1e-11)
    require(d["=="] == bool((a == b).all()) and d["!="] != d["=="], "equality of %s and %s", a, b)
    require_close(d["angle"], math.atan2(N(np.cross(a, b)), a @ b) if N(a) * N(b) else 0.0, "angle between %s and %s" % (a, b), 1e-6, 3e-7)
    f = d["out"].replace("(", " ").replace(")", " ").split(",")
    require(len(f) == 3 and np.allclose([float(x) for x in f], a, rtol=1e-5, atol=1e-9) and d["out"].startswith("(") and d["out"].endswith(")"), "printed as %s", d["out"])
    tol = c["tol"]
    lim = np.maximum(np.abs(b), 1) * tol
    for s in (0.9, -0.9, 1.1, -1.1):
        for k in range(3):
            p = b.copy()
            p[k] += s * lim[k]
            require(vgeo.is_equal(list(p), list(b), tol) == (abs(s) < 1), "%s equal to %s within %g", p, b, tol)
    p = np.array(c["c"])
    l = vgeo.left(list(p), list(a), list(b))
    w = (b - a)[0] * (p - a)[1] - (b - a)[1] * (p - a)[0]
    require_close(l, float(w), "left from line", 1e-12, 1e-9)
    lst = [list(x) for x in c["path"]]
    require(vgeo.in_list(list(a), lst) == (list(a) in lst) and vgeo.in_list(list(a), lst + [list(a)]), "%s in list %s", a, lst)
    require_close(vgeo.path_len(lst), sum(N(np.subtract(x, y)) for x, y in zip(lst, lst[1:])), "length of path", 1e-12, 1e-12)
    return N(a) > 0 and N(b) > 0, [c["b"] if isinstance(c["b"], str) else "other"]


# ---------------------------------------------------------------- lines
ENDS = [(True, True), (True, False), (False, False), (False, True)]


def clamp(t, k):
    e1, e2 = ENDS[k]
    if e1:
        t = max(t, 0.0)
    if e2:
        t = min(t, 1.0)
    return t


def nearest(p, a, b, k):
    u = b - a
    uu = u @ u
    return a if uu == 0 else a + clamp(float(u @ (p - a)) / uu, k) * u


def line_dist(a, b, k, c, d, l):
    """Minimum of the convex quadratic over the parameter rectangle."""
    u, v, w = b - a, d - c, a - c
    A, B, C, D, E = u @ u, u @ v, v @ v, u @ w, v @ w
    dd = A * C - B * B
    best = math.inf

    def at(s, t):
        nonlocal best
        best = min(best, N(w + s * u - t * v))
    if dd > 1e-12 * A * C:
        s, t = (B * E - C * D) / dd, (A * E - B * D) / dd
        if clamp(s, k) == s and clamp(t, l) == t:
            at(s, t)
    elif not any(ENDS[k]) and not any(ENDS[l]):
        at(0, E / C if C else 0)
    for s, on in zip((0, 1), ENDS[k]):
        if on:
            at(s, clamp((E + s * B) / C, l) if C else 0)
    for t, on in zip((0, 1), ENDS[l]):
        if on:
            at(clamp((t * B - D) / A, k) if A else 0, t)
    return best


@st.composite
def case_line(draw):
    a, b, c, d, p = (draw(pt) for _ in range(5))
    k, l = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    mode = draw(st.sampled_from(["any", "any", "any", "parallel", "same", "point", "meet"]))
    a, b, c, d = map(np.array, (a, b, c, d))
    if mode in ("parallel", "same"):
        a, b, c, d = (np.round(x) for x in (a, b, c, d))
        if mode == "same":
            c = a + draw(st.integers(-3, 3)) * (b - a)
        d = c + draw(st.sampled_from([-3, -2, -1, 1, 2, 3])) * (b - a)
    elif mode == "meet":
        x = a + draw(st.sampled_from([-1, 0, 0.5, 1, 2])) * (b - a)
        d = x + draw(st.sampled_from([-1, 0, 0.5, 1])) * (x - c)
    if mode == "point":
        if draw(st.booleans()):
            b, k = a.copy(), 0
        else:
            d, l = c.copy(), 0
    else:
        assume(N(b - a) > 0.05 and N(d - c) > 0.05)
    cr = np.cross(b - a, d - c)
    if mode in ("any", "meet"):
        assume(N(cr) > 0.02 * N(b - a) * N(d - c))
    if mode == "point":
        assume((N(b - a) > 0.05 or k == 0) and (N(d - c) > 0.05 or l == 0))
    if draw(st.booleans()):
        p = list(a + draw(gen.nice(-2, 3, 2)) * (b - a))
    return {"a": a.tolist(), "b": b.tolist(), "c": c.tolist(), "d": d.tolist(), "p": list(p), "k": k, "l": l, "mode": mode, "ang": draw(gen.nice(-7, 7, 3))}


def check_line(c):
    import vgeo
    a, b, p = (np.array(c[x], float) for x in "abp")
    cc, dd = np.array(c["c"], float), np.array(c["d"], float)
    k, l = c["k"], c["l"]
    r = vgeo.line(c["a"], c["b"], k, c["p"])
    require_close(r["p1"], a, "first point", 0, 0)
    require_close(r["p2"], b, "second point", 1e-14, 1e-14)
    require((r["e1"], r["e2"]) == ENDS[k] == (r["e1b"], r["e2b"]) and r["q1"] == r["p1"] and r["q2"] == r["p2"], "end points of line of kind %d", k)
    u = b - a
    require_close(r["dir"], u / N(u) if N(u) else u, "direction", 1e-12, 1e-12)
    require_close(r["len"], N(u) if k == 0 else math.inf, "length", 1e-12, 1e-12)
    q = nearest(p, a, b, k)
    require_close(r["proj"], q, "projection of %s on %s-%s kind %d" % (p, a, b, k), 1e-9, 1e-9)
    ds = N(p - q)
    require_close(r["dist"], ds, "distance", 1e-9, 1e-9)
    require_close(r["dist2"], ds, "distance with side", 1e-9, 1e-9)
    if abs(ds - 1e-6) > 1e-8:
        require(r["on"] == (ds < 1e-6), "point %s on line %s-%s: %s", p, a, b, r["on"])
    if ds > 1e-3:
        require(vgeo.on_line(c["a"], c["b"], k, c["p"], ds * 1.01) and not vgeo.on_line(c["a"], c["b"], k, c["p"], ds * 0.99), "on line within a tolerance")
    lab = {c["mode"]}
    cr = float(np.cross(np.append((p - a)[:2], 0), np.append(u[:2], 0))[2])
    if u[2] == 0 and p[2] == a[2] and abs(cr) > 1e-6:   # the side is one of the xy plane
        require(r["right"] == (cr > 0), "point %s is %s of line %s-%s, kind %d", p, "right" if r["right"] else "left", a, b, k)
        lab.add("side")
    if N(u):
        require_close(vgeo.param(c["a"], c["b"], c["p"]), float(u @ (p - a) / (u @ u)), "parameter", 1e-9, 1e-9)
    if N(u[:2]):
        require_close(r["xy1"] + r["xy2"], [a[0], a[1], 0, b[0], b[1], 0], "line in the plane", 1e-12, 1e-12)
        require(tuple(r["xye"]) == ENDS[k], "end points in the plane")
    e = line_dist(a, b, k, cc, dd, l)
    g, x, y, g2 = vgeo.line_line(c["a"], c["b"], k, c["c"], c["d"], l)
    what = "distance between %s-%s (%d) and %s-%s (%d)" % (a, b, k, cc, dd, l)
    require_close(g, e, what, 1e-7, 1e-7)
    require(g2 == g and abs(N(np.subtract(x, y)) - g) < 1e-9 * (1 + g), what + ": points %s and %s", x, y)
    sc = 1 + N(a) + N(b) + N(cc) + N(dd) + N(x)
    require(N(nearest(np.array(x), a, b, k) - x) < 1e-8 * sc and N(nearest(np.array(y), cc, dd, l) - y) < 1e-8 * sc, what + ": points %s and %s are not on the lines", x, y)
    # parallel and overlapping
    v = dd - cc
    if N(u) and N(v):
        s = N(np.cross(u, v)) / N(u) / N(v)
        par = c["mode"] in ("parallel", "same")
        args = (c["a"], c["b"], k, c["c"], c["d"], l)
        require(vgeo.parallel(*args, 1e-6) == par, "parallel: %s", args)
        if par and N(u) == N(v):
            require(vgeo.parallel(*args, -1.0), "same direction but not parallel: %s", args)
        if not par:
            require(vgeo.parallel(*args, s * 1.01) and not vgeo.parallel(*args, s * 0.99) and not vgeo.parallel(*args, -1.0), "parallel within a tolerance: %s", args)
            require(not vgeo.overlap(*args, -1.0), "lines that are not parallel overlap")
        elif abs(e - 1e-6) > 1e-8:
            require(vgeo.overlap(*args, -1.0) == (e < 1e-6), "overlap of %s at distance %g", args, e)
    # crossing in the plane
    den = u[0] * v[1] - u[1] * v[0]
    if abs(den) > 1e-3 * N(u) * N(v) or den == 0:
        w = cc - a
        hit, x = vgeo.cross_xy(c["a"], c["b"], c["c"], c["d"], False)
        hit2, x2 = vgeo.cross_xy(c["a"], c["b"], c["c"], c["d"], True)
        if abs(den) < 1e-9:
            if den == 0 and all(float(z).is_integer() for z in (*a, *b, *cc, *dd)):
                require(not hit and not hit2 and x == x2 == [0, 0, 0], "parallel lines cross")
        else:
            s, t = (w[0] * v[1] - w[1] * v[0]) / den, (w[0] * u[1] - w[1] * u[0]) / den
            z = [a[0] + s * u[0], a[1] + s * u[1], 0.0]
            for h, xx, ok in ((hit, x, [s, t]), (hit2, x2, [t])):
                mg = min(min(q, 1 - q) for q in ok)
                if abs(mg) > 1e-7:
                    require(h == (mg > 0), "crossing of %s-%s and %s-%s: %s, parameters %g and %g", a, b, cc, dd, h, s, t)
                    require_close(xx, z if h else [0, 0, 0], "crossing point", 1e-7, 1e-7)
                    lab.add("cross" if h else "no cross")
    p1, dr, e1, e2 = vgeo.inf_angle(c["a"], c["ang"])
    require(p1 == c["a"] and not e1 and not e2, "infinite line by angle")
    require_close(dr, [math.cos(c["ang"]), math.sin(c["ang"]), 0], "direction by angle", 1e-9, 1e-9)
    return N(u) > 0 and N(v) > 0, sorted(lab)


# ---------------------------------------------------------------- planes and triangles
@st.composite
def case_plane(draw):
    a, b, c = (np.array(draw(pt)) for _ in range(3))
    n = np.cross(b - a, c - a)
    assume(N(n) > 0.05 * (N(b - a) * N(c - a)) and N(b - a) > 0.3 and N(c - a) > 0.3 and N(c - b) > 0.3)
    s, e = np.array(draw(pt)), np.array(draw(pt))
    if draw(st.booleans()):   # aim at the triangle
        w = draw(st.tuples(gen.nice(-0.3, 1.2, 2), gen.nice(-0.3, 1.2, 2)))
        x = a + w[0] * (b - a) + w[1] * (c - a)
        e = x + draw(st.sampled_from([0.5, 1.0, -0.5, 2.0, -2.0])) * (x - s)
    assume(N(e - s) > 0.1)
    m = np.array(draw(pt))
    assume(N(np.cross(m, n)) > 0.02 * N(m) * N(n) and N(m) > 0.1)
    return {"a": a.tolist(), "b": b.tolist(), "c": c.tolist(), "s": s.tolist(), "e": e.tolist(), "k": draw(st.integers(0, 3)), "p": draw(pt), "q": draw(pt), "m": m.tolist(), "edge": draw(st.booleans())}


def check_plane(c):
    import vgeo
    a, b, cc, s, e, p, q, m = (np.array(c[x], float) for x in ("a", "b", "c", "s", "e", "p", "q", "m"))
    n = np.cross(a - b, a - cc)
    n /= N(n)
    k = c["k"]
    h = float(n @ (p - a))
    for three in (True, False):
        r = vgeo.plane(c["a"], c["b"] if three else (n * 3).tolist(), c["c"], three, c["p"])
        require_close(r["ref"], a, "reference point", 0, 0)
        require_close(r["n"], n, "normal vector of %s, %s, %s" % (a, b, cc), 1e-9, 1e-9)
        require_close(r["proj"], p - h * n, "projection", 1e-9, 1e-9)
        require_close(r["dist"], abs(h), "distance", 1e-9, 1e-9)
        if abs(h) > 1e-6 or abs(h) < 1e-9:
            require(r["on"] == (abs(h) <= 1e-7), "point at distance %g on plane: %s", h, r["on"])
        if abs(h) > 1e-9:
            require(r["pos"] == (h > 0), "point at %g on positive side: %s", h, r["pos"])
    u = e - s
    f = float(n @ u)
    lab = set()
    if abs(f) > 0.01 * N(u):
        t = float(n @ (a - s)) / f
        x = s + t * u
        par, hit, y, z = vgeo.plane_line(c["a"], n.tolist(), c["s"], c["e"], k)
        require(not par, "parallel")
        require_close(z, x, "intersection of plane and line", 1e-8, 1e-8)
        if min(abs(t), abs(t - 1)) > 1e-9:
            require(hit == (clamp(t, k) == t), "plane and line of kind %d meet at %g: %s", k, t, hit)
            if hit:
                require_close(y, x, "intersection", 1e-8, 1e-8)
        # triangle
        M = np.stack([b - a, cc - a, n], 1)
        w = np.linalg.solve(M, x - a)
        mg = min(w[0], w[1], 1 - w[0] - w[1])
        hit, y, d, near = vgeo.tri(c["a"], c["b"], c["c"], c["s"], c["e"], k, c["edge"])
        if min(abs(t), abs(t - 1), abs(mg)) > 1e-7:
            ins = mg > 0 and clamp(t, k) == t
            require(hit == ins, "line %s-%s (%d) through triangle %s %s %s: %s, expected %s", s, e, k, a, b, cc, hit, ins)
            lab.add("hit" if ins else "miss")
            if ins:
                require_close(y, x, "intersection with triangle", 1e-8, 1e-8)
        # distance: the smallest over the edges, the end points and the inside
        ds = [line_dist(v, w2, 0, s, e, k) for v, w2 in ((a, b), (b, cc), (a, cc))]
        if mg >= 0 and clamp(t, k) == t:
            ds.append(0.0)
        for g, on in zip((s, e), ENDS[k]):
            if on:
                w3 = np.linalg.solve(M, g - a)
                if min(w3[0], w3[1], 1 - w3[0] - w3[1]) >= 0:
                    ds.append(abs(float(n @ (g - a))))
        require_close(d, min(ds), "distance from triangle %s %s %s to line %s-%s (%d)" % (a, b, cc, s, e, k), 1e-6, 1e-6)
        near = np.array(near)
        w4 = np.linalg.solve(M, near - a)
        require(min(w4[0], w4[1], 1 - w4[0] - w4[1]) > -1e-6 and abs(w4[2]) < 1e-6 * (1 + N(near)), "nearest point %s is not in the triangle", near)
        if N(near - nearest(near, s, e, k)) > 1e-6 + d * (1 + 1e-6):
            require(False, "nearest point %s is not at distance %g", near, d)
    # two planes
    mm = m / N(m)
    p1, p2, e1, e2 = vgeo.plane_plane(c["a"], n.tolist(), c["q"], c["m"])
    require(not e1 and not e2, "intersection of planes has an end")
    sc = 1 + N(a) + N(q)
    for x in (np.array(p1), np.array(p2)):
        require(abs(n @ (x - a)) < 1e-6 * sc and abs(mm @ (x - q)) < 1e-6 * sc, "point %s on the intersection line is not on both planes", x)
    require(N(np.subtract(p2, p1)) > 0.01, "intersection of planes has no direction")
    p1, p2, e1, e2 = vgeo.plane_plane(c["a"], [0, 0, 1], c["q"], [0, 0, -2])
    require(p1 == p2 and e1 and e2, "intersection of parallel planes")
    return bool(lab), sorted(lab)


# ---------------------------------------------------------------- polygons
@st.composite
def case_poly(draw):
    kind = draw(st.sampled_from(["star", "star", "convex", "any"]))
    n = draw(st.integers(3, 9))
    off = draw(st.tuples(big, big))
    if kind == "any":
        g = draw(st.lists(st.tuples(st.integers(-6, 6), st.integers(-6, 6)), min_size=3, max_size=8))
    else:
        an = sorted(set(draw(st.lists(st.integers(0, 71), min_size=n, max_size=n))))
        gap = max((y - x) % 72 or 72 for x, y in zip(an, an[1:] + an[:1])) if len(an) > 1 else 72
        assume(len(an) >= 3 and gap < 34)
        R = [draw(st.integers(2, 12)) for _ in an]
        if kind == "convex":
            R = [9] * len(an)
            ex = draw(st.sampled_from([1.0, 1.0, 2.0, 0.4]))
        else:
            ex = 1.0
        g = [(round(r * math.cos(t * math.pi / 36), 3), round(ex * r * math.sin(t * math.pi / 36), 3)) for r, t in zip(R, an)]
        if draw(st.booleans()):
            g = g[::-1]
        if draw(st.integers(0, 3)) == 0 and kind == "convex":
            g = draw(st.sampled_from([[(0, 0), (4, 0), (4, 3), (0, 3)], [(0, 0), (2, 0), (4, 0), (4, 4), (0, 4)], [(1, 1), (5, 3), (4, 5), (0, 3)], [(0, 0), (3, 0), (0, 3)]]))
    k = draw(st.integers(0, len(g) - 1))
    g = g[k:] + g[:k]
    z = draw(st.sampled_from([0.0, 0.0, 5.0]))
    return {"g": [[x + off[0], y + off[1], z] for x, y in g], "kind": kind, "off": list(off), "p": [list(p) for p in draw(st.lists(st.tuples(st.one_of(st.integers(-13, 13).map(float), gen.nice(-13, 13, 2)), st.one_of(st.integers(-13, 13).map(float), gen.nice(-13, 13, 2))), min_size=2, max_size=5))], "i": draw(st.integers(0, 20)), "j": draw(st.integers(0, 20))}


def exact_inside(g, x, y):
    """None on the boundary."""
    x, y = F(x), F(y)
    ins = False
    for (x1, y1, _), (x2, y2, _) in zip(g, g[1:] + g[:1]):
        x1, y1, x2, y2 = map(F, (x1, y1, x2, y2))
        cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        L = (x2 - x1) ** 2 + (y2 - y1) ** 2
        if cr * cr <= L * F(1, 10 ** 14) and min(x1, x2) - 1 <= x <= max(x1, x2) + 1 and min(y1, y2) - 1 <= y <= max(y1, y2) + 1:
            return None
        if (y1 < y) != (y2 < y) and cr != 0 and (x < x1 + (y - y1) * (x2 - x1) / (y2 - y1)):
            ins = not ins
    return ins


def hull(g):
    P = sorted(set((F(x), F(y)) for x, y, _ in g))

    def half(P):
        o = []
        for p in P:
            while len(o) > 1 and (o[-1][0] - o[-2][0]) * (p[1] - o[-2][1]) - (o[-1][1] - o[-2][1]) * (p[0] - o[-2][0]) <= 0:
                o.pop()
            o.append(p)
        return o[:-1]
    return half(P) + half(P[::-1])


def check_poly(c):
    import vgeo
    g = c["g"]
    n = len(g)
    A = np.array(g)
    r = vgeo.poly(g)
    lab = {c["kind"]}
    require(r["n"] == n and r["pts"] == g and r["nc"] == n + 1 and r["last"] == g[0], "points of polygon %s: %s", g, r)
    require((r["ext"] + [r["ymax"]]) == [A[:, 0].min(), A[:, 0].max(), A[:, 1].min(), A[:, 1].max()], "extent of %s: %s, %s", g, r["ext"], r["ymax"])
    for q in c["p"]:
        x, y = q[0] + c["off"][0], q[1] + c["off"][1]
        e = exact_inside(g, x, y)
        i1, i2 = vgeo.inside(g, [x, y, 3.0])
        require(i1 == i2, "inside")
        if e is not None:
            require(i1 == e, "(%r, %r) inside %s: %s", x, y, g, i1)
            lab.add("in" if e else "out")
    ed = [N(np.subtract(q, p)) for p, q in zip(g, g[1:] + g[:1])]
    require_close(r["circ"], sum(ed), "circumference of %s" % g, 1e-9, 1e-9)
    i, j = c["i"] % n, c["j"] % n
    d = sum(ed[min(i, j):max(i, j)])
    require_close(vgeo.poly_dist(g, i, j), min(d, sum(ed) - d), "distance along %s from %d to %d" % (g, i, j), 1e-9, 1e-9)
    require(vgeo.poly_find(g, g[i]) == g.index(g[i]) and vgeo.poly_find(g, [1e6, 0, 0]) == n, "position of point %d in %s", i, g)
    if c["kind"] == "any":
        return True, sorted(lab)
    H = hull(g)
    area2 = sum(F(a[0]) * F(b[1]) - F(a[1]) * F(b[0]) for a, b in zip(g, g[1:] + g[:1]))
    cr = []
    for k in range(n):
        a, b, e = g[k - 1], g[k], g[(k + 1) % n]
        cr.append(float((F(b[0]) - F(a[0])) * (F(e[1]) - F(b[1])) - (F(b[1]) - F(a[1])) * (F(e[0]) - F(b[0]))) * (1 if area2 > 0 else -1))
    require(r["ccw"] == (area2 > 0), "%s is %scounterclockwise", g, "" if r["ccw"] else "not ")
    if all(abs(x) > 1e-7 or x == 0 and all(float(z).is_integer() for p in g for z in p) for x in cr):
        convex = all(x >= 0 for x in cr)
        require(r["convex"] == convex, "%s convex: %s", g, r["convex"])
        m = vgeo.make_convex(g)
        if convex:
            require(m == g, "convex polygon %s changed to %s", g, m)
        else:
            lab.add("made convex")
            it = iter(g)
            hs = set(H)
            ms = [(F(x), F(y)) for x, y, _ in m]
            require(hs <= set(ms), "hull point deleted from %s: %s", g, m)
            k0 = g.index(m[0])
            it = iter(g)
            require(all(any(x == y for y in it) for x in m), "points of %s reordered in %s", g, m)
            for x in ms:
                if x not in hs:
                    on = min(abs(float((b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0]))) for a, b in zip(H, H[1:] + H[:1]))
                    require(on < 1e-6, "point %s left inside the hull of %s", x, g)
    # convex counterclockwise polygons: rectangle and tangents
    Hf = [[float(x), float(y), 0.0] for x, y in H]
    if len(Hf) >= 3:
        k = c["i"] % len(Hf)
        Hf = Hf[k:] + Hf[:k]
        B = np.array(Hf)[:, :2]
        best = math.inf
        for a, b in zip(B, np.roll(B, -1, 0)):
            u = (b - a) / N(b - a)
            s, t = B @ u, B @ np.array([-u[1], u[0]])
            best = min(best, float(np.ptp(s) * np.ptp(t)))
        x, y, l1, l2, an = vgeo.min_rect(Hf)
        u, v = np.array([math.cos(an), math.sin(an)]), np.array([-math.sin(an), math.cos(an)])
        tol = 2e-3 * (l1 + l2)
        require(abs(l1 * l2 - best) <= 1e-3 * best, "rectangle around %s of area %g, smallest is %g", Hf, l1 * l2, best)
        s, t = (B - [x, y]) @ u, (B - [x, y]) @ v
        require(s.min() > -tol and s.max() < l1 + tol and t.min() > -tol and t.max() < l2 + tol, "rectangle at (%g, %g), %g x %g, angle %g does not enclose %s", x, y, l1, l2, an, Hf)
        for q in c["p"]:
            p = [q[0] * 2 + c["off"][0], q[1] * 2 + c["off"][1], 0.0]
            sd = [(b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for a, b in zip(B, np.roll(B, -1, 0))]
            if min(sd) < -1e-3 and all(abs(z) > 1e-6 for z in sd):
                rt, lt = vgeo.tangents(Hf, p)
                wr = [(B[rt][0] - p[0]) * (z[1] - p[1]) - (B[rt][1] - p[1]) * (z[0] - p[0]) for z in B]
                wl = [(B[lt][0] - p[0]) * (z[1] - p[1]) - (B[lt][1] - p[1]) * (z[0] - p[0]) for z in B]
                require(min(wr) > -1e-6 and max(wl) < 1e-6, "tangents %d and %d from %s to %s", rt, lt, p, Hf)
                lab.add("tangent")
    return True, sorted(lab)


# ---------------------------------------------------------------- boxes
@st.composite
def case_box(draw):
    l = [draw(st.one_of(st.integers(1, 6).map(float), gen.nice(0.3, 9, 2))) for _ in range(3)]
    r = draw(pt)
    an = draw(st.one_of(st.just(0.0), gen.nice(-3.2, 3.2, 3), st.sampled_from([math.pi / 2, -math.pi / 4])))
    f = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.02, 0.98, -0.02, 1.02]), gen.nice(-1, 2, 2))
    g = st.one_of(st.sampled_from([-1.0, 2.0]), gen.nice(-1.5, 2.5, 2))
    mode = draw(st.sampled_from(["any", "aim", "aim", "corner"]))
    s, e = [draw(g) for _ in range(3)], [draw(g) for _ in range(3)]
    if mode == "aim":
        e = [draw(gen.nice(0.05, 0.95, 2)) for _ in range(3)]
    if mode == "corner":
        e = [draw(st.sampled_from([0.0, 1.0, 0.5, 0.0, 1.0])) for _ in range(3)]
    assume(max(abs(x - y) for x, y in zip(s, e)) > 0.05)
    return {"r": r, "l": l, "an": an, "p": [draw(f) for _ in range(3)], "s": s, "e": e, "k": draw(st.integers(0, 3)), "mm": draw(st.booleans()), "swap": draw(st.booleans()), "mode": mode}


def check_box(c):
    import vgeo
    l, r = np.array(c["l"]), np.array(c["r"])
    an = 0.0 if c["mm"] else c["an"]
    ca, sa = math.cos(an), math.sin(an)

    def glob(q):
        q = np.array(q) * l
        return np.array([ca * q[0] - sa * q[1], sa * q[0] + ca * q[1], q[2]]) + r
    p = glob(c["p"])
    b = vgeo.box(c["r"], c["l"], c["an"], p.tolist(), c["mm"], c["swap"])
    require_close(b["ref"] + b["l"] + [b["angle"]], [*r, *l, an], "definition of box", 1e-12, 1e-12)
    for i in range(8):
        e = glob([i & 1, i >> 1 & 1, i >> 2])
        require_close(b["corners"][i], e, "corner %d" % i, 1e-9, 1e-9)
        require_close(b["corners2"][i], e, "corner %d" % i, 1e-9, 1e-9)
    q = np.array(c["p"]) * l
    mg = min(min(q), min(l - q))
    if abs(mg) > 1e-9:
        require(b["in"] == (mg > 0), "point %s inside box: %s", c["p"], b["in"])
    d = float(mg) if mg > 0 else N(q - np.clip(q, 0, l))
    require_close(b["dist"], d, "distance from %s to box %s" % (q, l), 1e-9, 1e-9)
    # line and box: slab method
    s, e = np.array(c["s"]) * l, np.array(c["e"]) * l
    u = e - s
    t0, t1, amb, out = -math.inf, math.inf, False, False
    for k in range(3):
        if abs(u[k]) < 1e-12:
            if min(abs(s[k]), abs(s[k] - l[k])) < 1e-9:
                amb = True
            elif s[k] < 0 or s[k] > l[k]:
                out = True
        else:
            x, y = sorted([-s[k] / u[k], (l[k] - s[k]) / u[k]])
            t0, t1 = max(t0, x), min(t1, y)
    lab = {c["mode"]}
    got = [np.array(g) for g in vgeo.box_line(c["r"], c["l"], an, glob(c["s"]).tolist(), glob(c["e"]).tolist(), c["k"])]
    require(len(got) <= 2, "%d intersections with a box", len(got))
    for g in got:   # each is on the line and on the surface of the box
        near = nearest(g, glob(c["s"]), glob(c["e"]), c["k"])
        require(N(near - g) < 1e-6 * (1 + N(g)), "intersection %s is not on the line", g)
        w = g - r
        w = np.array([ca * w[0] + sa * w[1], -sa * w[0] + ca * w[1], w[2]])
        m2 = min(min(w), min(l - w))
        require(abs(m2) < 1e-7 * (1 + N(g)), "intersection %s is not on the box", g)
    if len(got) == 2:
        require(N(got[0] - got[1]) > 1e-8, "the same intersection twice: %s", got)
    if not amb and (out or t1 < t0 - 1e-4):
        require(not got, "line %s-%s outside box gives %s", c["s"], c["e"], got)
    elif not amb and t1 > t0 + 1e-4:
        ts = [t for t in (t0, t1) if clamp(t, c["k"]) == t]
        edge = any(sum(min(abs(w), abs(w - q)) < 1e-6 for w, q in zip(s + t * u, l)) > 1 for t in ts)   # through an edge: may be rounded off the box
        if not edge and all(min(abs(t), abs(t - 1)) > 1e-9 for t in (t0, t1)):
            require(len(got) == len(ts), "line %s-%s (%d) and box: %s, expected parameters %s", c["s"], c["e"], c["k"], got, ts)
            for t in ts:
                x = glob((s + t * u) / l)
                require(min(N(x - g) for g in got) < 1e-5 * (1 + N(x)), "intersection at %s not found: %s", x, got)
            lab.add("n%d" % len(ts))
    return True, sorted(lab)


# ---------------------------------------------------------------- bilinear surfaces
@st.composite
def case_bil(draw):
    j = st.integers(-2, 2)
    x0, y0, s = draw(st.integers(-9, 9)), draw(st.integers(-9, 9)), draw(st.integers(6, 12))
    z = [draw(st.integers(-3, 3)) + draw(st.sampled_from([0, 100])) * 0 for _ in range(4)]
    kind = draw(st.sampled_from(["graph", "graph", "skew", "plane"]))
    q = [[x0, y0], [x0 + s, y0], [x0 + s, y0 + s], [x0, y0 + s]]
    if kind == "skew":
        q = [[x + draw(j), y + draw(j)] for x, y in q]
        q[0], q[1] = q[0], q[1]
    if kind == "plane":
        z[2] = z[1] + z[3] - z[0]
    if draw(st.booleans()) and kind != "skew":
        h = draw(j)
        q[2][0] += h
        q[3][0] += h
    base = 0   # a twist below 0.001 of the coordinates is taken as planar
    P = [[float(x), float(y), float(w + base)] for (x, y), w in zip(q, z)]
    return {"P": P, "kind": kind, "u": draw(gen.nice(0.03, 0.97, 2)), "v": draw(gen.nice(0.03, 0.97, 2)), "du": draw(gen.nice(-1, 2, 2)), "h": draw(gen.nice(0.02, 5, 2)), "dir": [draw(gen.nice(-.6, .6, 2)), draw(gen.nice(-.6, .6, 2)), 1.0], "t": draw(gen.nice(-9, 9, 1)), "len": draw(st.sampled_from([1.0, -3.0, 20.0])), "vec": draw(st.booleans()), "miss": draw(st.booleans())}


def check_bil(c):
    import vgeo
    P = [np.array(p) for p in c["P"]]

    def S(u, v):
        return (1 - u) * (1 - v) * P[0] + u * (1 - v) * P[1] + u * v * P[2] + (1 - u) * v * P[3]
    for u, v in ((c["u"], c["v"]), (c["du"], c["v"]), (0, 0), (1, 0), (1, 1), (0, 1)):
        a, b = vgeo.bil(*c["P"], c["vec"], u, v)
        require_close(a, S(u, v), "point (%g, %g)" % (u, v), 1e-10, 1e-10)
        require_close(b, S(u, v), "point (%g, %g)" % (u, v), 1e-10, 1e-10)
    x = S(c["u"], c["v"])
    a2 = P[2] - P[3] - P[1] + P[0]
    lab = {c["kind"]}
    if c["kind"] != "skew":   # the patch is a graph over a parallelogram
        h = np.array([0, 0, c["h"]])
        require(vgeo.bil_above(*c["P"], (x + h).tolist()), "point %g over patch is not above", c["h"])
        require(not vgeo.bil_above(*c["P"], (x - h).tolist()), "point %g under patch is above", c["h"])
    d = np.array(c["dir"])
    if c["miss"]:
        x = S(2.0 + c["u"], c["v"])
    s = x + c["t"] * d
    e = s + c["len"] * d
    # reference: the crossings of the line with the whole bilinear surface
    A = -d[2] * a2[:2] + a2[2] * d[:2]

    def red(w):
        return np.array([w[0] * d[2] - w[2] * d[0], w[1] * d[2] - w[2] * d[1]])
    a, b, cc, dd = red(a2), red(P[1] - P[0]), red(P[3] - P[0]), red(P[0] - s)
    QA = a[1] * cc[0] - a[0] * cc[1]
    QB = a[1] * dd[0] - a[0] * dd[1] + b[1] * cc[0] - b[0] * cc[1]
    QC = b[1] * dd[0] - b[0] * dd[1]
    disc = QB * QB - 4 * QA * QC
    if abs(QA) < 1e-9:
        vs = [-QC / QB] if abs(QB) > 1e-6 else None
        if QA != 0 and (c["kind"] != "plane" or a2.any()):
            vs = None
    elif abs(QA) < 0.05 or disc < 1e-2:
        vs = None
    else:
        vs = [(-QB + math.sqrt(disc)) / 2 / QA, (-QB - math.sqrt(disc)) / 2 / QA]
    if vs is None:
        return False, ["skipped"]
    sol = []
    for v in vs:
        den = v * a + b
        k = int(abs(den[1]) > abs(den[0]))
        if abs(den[k]) < 1e-3:
            return False, ["skipped"]
        u = -(v * cc[k] + dd[k]) / den[k]
        sol.append((u, v))
    if any(-0.06 < z < 0.02 or 0.98 < z < 1.06 for q in sol for z in q):
        ins = [q for q in sol if -0.06 < q[0] < 1.06 and -0.06 < q[1] < 1.06]
        if any(not (0.02 < q[0] < 0.98 and 0.02 < q[1] < 0.98) for q in ins):
            return False, ["edge"]
    ins = [S(*q) for q in sol if 0 < q[0] < 1 and 0 < q[1] < 1]
    n, p, q = vgeo.bil_line(*c["P"], s.tolist(), e.tolist())
    require(n == len(ins), "line %s-%s meets patch %s %d times, expected %s", s, e, c["P"], n, sol)
    ins.sort(key=lambda w: float((w - s) @ (e - s)))
    for g, w in zip((p, q), ins):
        require_close(g, w, "intersection of line %s-%s and patch %s" % (s, e, c["P"]), 1e-6, 1e-6 * (1 + N(w)))
    return True, sorted(lab | {"hits%d" % n})


# ---------------------------------------------------------------- interpolation
@st.composite
def case_interp(draw):
    n = draw(st.integers(2, 8))
    st_ = draw(st.lists(st.one_of(st.integers(1, 5).map(float), gen.nice(0.1, 7, 2)), min_size=n, max_size=n))
    x = np.round(np.cumsum(st_) + draw(st.sampled_from([-20.0, 0.0, 300.0])), 3).tolist()
    y = draw(st.lists(gen.nice(-50, 50, 2), min_size=n, max_size=n))
    o = draw(st.lists(st.one_of(st.sampled_from(x), gen.nice(x[0] - 5, x[-1] + 5, 2), st.integers(-3, 3).map(lambda k: x[0] + k), st.integers(-3, 3).map(lambda k: x[-1] + k)), min_size=1, max_size=8))
    return {"x": x, "y": y, "o": o, "ex": draw(st.one_of(st.none(), st.sampled_from([-999.0, 0.0]))), "m": draw(st.sampled_from(["linear", "spline", "spline", "cubic"]))}


def check_interp(c):
    import vgeo
    from scipy.interpolate import CubicSpline
    x, y, o = np.array(c["x"]), np.array(c["y"]), np.array(c["o"])
    m, ex = c["m"], c["ex"]
    bad = m == "cubic" or (m == "linear" and ex is not None)
    try:
        r = np.array(vgeo.interp(c["x"], c["y"], c["o"], m, ex))
    except Exception as e:
        if not bad:
            raise
        return False, ["refused"]
    require(not bad, "method %s, extrapolation value %s accepted", m, ex)
    if m == "linear":
        i = np.clip(np.searchsorted(x, o) - 1, 0, len(x) - 2)
        e = y[i] + (o - x[i]) * (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        for a, b in zip(c["o"], e):
            require_close(vgeo.between(c["x"], c["y"], a), float(b), "linear at %g" % a, 1e-8, 1e-7)
    else:
        s = CubicSpline(x, y, bc_type="natural")
        e = s(o)
        if ex is not None:
            e = np.where((o < x[0]) | (o > x[-1]), ex, e)
    for a, g, w in zip(c["o"], r, e):
        require_close(float(g), float(w), "%s through %s, %s at %g" % (m, c["x"], c["y"], a), 1e-7, 1e-6)
    require(len(r) == len(o), "number of values")
    return len(x) > 2, [m]


# ---------------------------------------------------------------- transformations
TR = ["tx", "ty", "tz", "sx", "sy", "sz", "rx", "ry", "rz", "hxy", "hxz", "hyz", "mxy", "mxz", "myz"]


def check_tr(c):
    import vgeo
    p = np.array(c["p"])
    for op, (a, b) in c["ops"]:
        ca, sa = math.cos(a), math.sin(a)
        k = "xyz".find(op[1])
        if op[0] == "t":
            p = p + a * np.eye(3)[k]
        elif op[0] == "s":
            p = p * (1 + (a - 1) * np.eye(3)[k])
        elif op[0] == "r":
            i, j = (k + 1) % 3, (k + 2) % 3
            q = p.copy()
            q[i], q[j] = ca * p[i] - sa * p[j], sa * p[i] + ca * p[j]
            p = q
        elif op[0] == "h":
            i, j = "xyz".find(op[1]), "xyz".find(op[2])
            o = 3 - i - j
            q = p.copy()
            q[i] += a * p[o]
            q[j] += b * p[o]
            p = q
        else:
            i, j = "xyz".find(op[1]), "xyz".find(op[2])
            p = p * (1 - 2 * np.eye(3)[3 - i - j])
    r = vgeo.transform([(o, tuple(v)) for o, v in c["ops"]], c["p"])
    require(N(np.array(r) - p) <= 1e-9 * (1 + N(p)) * 10 ** len(c["ops"]) ** .5, "transformation %s of %s gives %s, expected %s", c["ops"], c["p"], r, p)
    return len(c["ops"]) >= 2, [o for o, _ in c["ops"]][:2]


def case_tr():
    f = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0]), gen.nice(-3, 3, 2))
    return st.fixed_dictionaries({"p": pt, "ops": st.lists(st.tuples(st.sampled_from(TR), st.tuples(f, f).map(list)).map(list), max_size=6)})


PROP = Prop("C19", [{"shim": "vgeo", "mods": ["geometry", "math"], "asan": False}], [
    Sub("point", case_point, check_point, 800, 20000, rule="two points other than the origin"),
    Sub("line", case_line, check_line, 4000, 120000, shards=2, rule="two lines that are not points"),
    Sub("plane", case_plane, check_plane, 3000, 80000, shards=2, rule="the line is not parallel to the triangle"),
    Sub("poly", case_poly, check_poly, 3000, 80000, shards=2, rule="all polygons"),
    Sub("box", case_box, check_box, 3000, 60000, rule="all boxes"),
    Sub("bil", case_bil, check_bil, 3000, 60000, rule="the line does not pass near an edge of the patch"),
    Sub("interp", case_interp, check_interp, 1200, 30000, rule="at least three knots"),
    Sub("transform", case_tr, check_tr, 1200, 20000, rule="at least two operations"),
], RULE, ["lines that are neither parallel nor within 1 degree of it; polygons without repeated points"])
