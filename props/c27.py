"""C27: corner-point geometry of Eclipse grids."""
import math
import random
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from props.c26 import segment

RULE = ("corner-point grids of 1-5 x 1-5 x 1-5 cells with sloping and converging pillars, faults, gaps and collapsed cells, and any cells inactive; faults with any segments; local refinements. Non-trivial: more than one cell.")


@st.composite
def cgrid(draw, flat=False):
    return {"n": (draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 5))), "seed": draw(st.integers(0, 1 << 30)), "slope": draw(st.sampled_from([0.0, 0.0, 0.5, 5.0])), "jit": draw(st.sampled_from([0.0, 0.0, 0.2])),
            "conv": draw(st.sampled_from([0.0, 0.0, 0.2])), "dip": draw(st.sampled_from([0.0, 1.0])), "fault": draw(st.sampled_from([0.0, 0.0, 30.0])), "gap": draw(st.sampled_from([0.0, 0.0, 3.0])), "thin": draw(st.sampled_from([0.0, 0.0, 0.3])),
            "pa": draw(st.sampled_from([1.0, 1.0, 0.7, 0.3])), "base": draw(st.sampled_from([[0.0, 0.0, 0.0], [-300.0, 77.0, -999.0], [458000.0, 6780000.0, 1500.0]])), "ang": draw(st.sampled_from([0.0, 0.0, 37.0, 180.0, 291.0])), "mirror": draw(st.booleans()),
            "pts": draw(st.lists(st.tuples(st.integers(0, 1 << 20), st.floats(0.02, 0.98), st.floats(0.02, 0.98), st.floats(0.02, 0.98)), min_size=2, max_size=8))}


class Model:
    def __init__(self, c):
        ni, nj, nk = self.n = c["n"]
        r = random.Random(c["seed"])
        self.top, self.bot = {}, {}
        a = math.radians(c["ang"])
        bx, by, bz = c["base"]
        sx, sy = c["slope"] * r.uniform(-1, 1), c["slope"] * r.uniform(-1, 1)
        H = 100.0
        for i in range(ni + 1):
            for j in range(nj + 1):
                x, y = 50.0 * i + 50 * c["jit"] * r.uniform(-1, 1), 40.0 * j + 40 * c["jit"] * r.uniform(-1, 1)
                f = 1 - c["conv"]
                x2, y2 = x + sx * H - (1 - f) * (x - 25.0 * ni), y + sy * H - (1 - f) * (y - 20.0 * nj)
                q = []
                for u, w in ((x, y), (x2, y2)):
                    if c["mirror"]:
                        w = -w
                    q.append((bx + u * math.cos(a) - w * math.sin(a), by + u * math.sin(a) + w * math.cos(a)))
                self.top[i, j], self.bot[i, j] = (q[0][0], q[0][1], bz), (q[1][0], q[1][1], bz + H)
        self.z = {}
        th = [0.0 if r.random() < c["thin"] else r.uniform(4, 12) for _ in range(nk)]
        if all(t == 0 for t in th):
            th[0] = 8.0
        gaps = [c["gap"] * r.random() for _ in range(nk)]
        dx, dy = c["dip"] * r.uniform(-8, 8), c["dip"] * r.uniform(-8, 8)
        shift = {(i, j): c["fault"] * r.choice([0, 0, 1]) * r.random() for i in range(ni) for j in range(nj)}
        node = {(i, j): r.uniform(0, 1) * c["dip"] * 3 for i in range(ni + 1) for j in range(nj + 1)}
        for i in range(ni):
            for j in range(nj):
                for ca in (0, 1):
                    for cb in (0, 1):
                        z = bz + 20 + shift[i, j] + dx * (i + ca) / ni + dy * (j + cb) / nj + node[i + ca, j + cb]
                        for k in range(nk):
                            self.z[i, j, k, ca, cb, 0] = z
                            z += th[k] * (1 + 0.2 * c["dip"] * ((i + ca + j + cb) % 2))
                            self.z[i, j, k, ca, cb, 1] = z
                            z += gaps[k]
        self.th = th
        self.act = {(i, j, k): r.random() < c["pa"] for i in range(ni) for j in range(nj) for k in range(nk)}
        self.gaps = gaps

    def pillar(self, i, j, z):
        p, q = self.top[i, j], self.bot[i, j]
        t = (z - p[2]) / (q[2] - p[2])
        return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]), z)

    def corner(self, i, j, k, a, b, c):
        return self.pillar(i + a, j + b, self.z[i, j, k, a, b, c])

    def inside(self, i, j, k, u, v, w):
        wt = {(a, b): (u if a else 1 - u) * (v if b else 1 - v) for a in (0, 1) for b in (0, 1)}
        z = sum(wt[a, b] * ((1 - w) * self.z[i, j, k, a, b, 0] + w * self.z[i, j, k, a, b, 1]) for a, b in wt)
        ps = {ab: self.pillar(i + ab[0], j + ab[1], z) for ab in wt}
        return sum(wt[q] * ps[q][0] for q in wt), sum(wt[q] * ps[q][1] for q in wt), z

    def column(self, i, j):
        return [k for k in range(self.n[2]) if self.act[i, j, k]]

    def around(self, i, j):
        """columns at the pillar, with the corner of each"""
        return [(i - a, j - b, a, b) for a in (0, 1) for b in (0, 1) if 0 <= i - a < self.n[0] and 0 <= j - b < self.n[1]]

    def grid(self, v):
        ni, nj, nk = self.n
        g = v.G(ni, nj, nk)
        co = [x for j in range(nj + 1) for i in range(ni + 1) for x in self.top[i, j] + self.bot[i, j]]
        zc = [self.z[i, j, k, a, b, c] for k in range(nk) for c in (0, 1) for j in range(nj) for b in (0, 1) for i in range(ni) for a in (0, 1)]
        g.geom(co, zc, [int(self.act[i, j, k]) for k in range(nk) for j in range(nj) for i in range(ni)])
        return g


def near(p, q, what, tol=1e-6):
    require(max(abs(a - b) for a, b in zip(p, q)) <= tol, "%s: %r, expected %r", what, p, q)


def check_cells(c):
    import vecl as v
    m = Model(c)
    g = m.grid(v)
    ni, nj, nk = m.n
    n = 0
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                require(g.index(i, j, k) == n and g.ijk(n) == (i, j, k), "index of cell %r is %r, cell %d is %r", (i, j, k), g.index(i, j, k), n, g.ijk(n))
                n += 1
                cs = {(a, b, d): m.corner(i, j, k, a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)}
                for q, p in cs.items():
                    near(g.corner(i, j, k, *q), p, "corner %r of cell %r" % (q, (i, j, k)))
                    near(g.in_cell(i, j, k, *[float(x) for x in q]), p, "point of cell %r at its corner %r" % ((i, j, k), q))
                mean = lambda l: tuple(sum(x) / len(l) for x in zip(*l))
                got = g.centre(i, j, k)
                near(got[0], mean(list(cs.values())), "centre of cell %r" % ((i, j, k),))
                for d in (0, 1):
                    near(got[1 + d], mean([p for q, p in cs.items() if q[2] == d]), "centre of the %s of cell %r" % (("top", "bottom")[d], (i, j, k)))
                for f in range(6):
                    ax, side = f // 2, 1 - f % 2
                    want = sorted(p for q, p in cs.items() if q[ax] == side)
                    fp = g.face(i, j, k, f)
                    for p, q in zip(sorted(fp), want):
                        near(p, q, "corners of face %d of cell %r" % (f, (i, j, k)))
                    # around the face, not across
                    idx = [min(((q, p) for q, p in cs.items() if q[ax] == side), key=lambda t: sum(abs(s - r) for s, r in zip(t[1], x)))[0] for x in fp]
                    if len(set(idx)) == 4:
                        for s in range(4):
                            require(sum(a != b for a, b in zip(idx[s], idx[(s + 1) % 4])) == 1, "corners of face %d of cell %r are in the order %r", f, (i, j, k), idx)
                order = [(0, 0), (1, 0), (1, 1), (0, 1)]
                for p, q in zip(g.corners(i, j, k), [cs[a + (d,)] for d in (0, 1) for a in order]):
                    near(p, q, "corners of cell %r" % ((i, j, k),))
                kk = m.column(i, j)
                for d, name in ((0, "ztop"), (1, "zbot")):
                    f, z = getattr(g, name)(i, j, k)
                    require(f == bool(kk), "%s of cell %r found: %r", name, (i, j, k), f)
                    if f:
                        require(z == (max if d else min)(m.z[i, j, k, a, b, d] for a in (0, 1) for b in (0, 1)), "%s of cell %r is %r", name, (i, j, k), z)
                # the next active cell up and down, when it is joined to this
                for f, step in ((4, 1), (5, -1)):
                    want, q = k, k + step
                    while 0 <= q < nk and not m.act[i, j, q]:
                        q += step
                    if 0 <= q < nk:
                        dz = max(abs(m.z[i, j, k, a, b, step > 0] - m.z[i, j, q, a, b, step < 0]) for a in (0, 1) for b in (0, 1))
                        if dz < 5e-5:
                            want = q
                        elif dz < 2e-4:
                            continue
                    require(g.neigh_k(i, j, k, f) == want, "neighbour of cell %r on face %d is in layer %r, expected %d", (i, j, k), f, g.neigh_k(i, j, k, f), want)
    tops, bots = [], []
    for i in range(ni + 1):
        for j in range(nj + 1):
            ar = m.around(i, j)
            act = [(p, q, a, b) for p, q, a, b in ar if m.column(p, q)]
            require(g.pillar_active(i, j) == bool(act), "pillar %r active: %r", (i, j), g.pillar_active(i, j))
            z0 = c["base"][2]
            for z in (z0, z0 + 37.5, z0 + 400.0, z0 - 50):
                near(g.at_pillar(i, j, z), m.pillar(i, j, z), "pillar %r at %r" % ((i, j), z))
                f, p = g.at_pillar_in(i, j, z)
                require(f == bool(act), "point of pillar %r in the grid found: %r", (i, j), f)
                if act:
                    lo = min(m.z[p_, q_, m.column(p_, q_)[0], a, b, 0] for p_, q_, a, b in act)
                    hi = max(m.z[p_, q_, m.column(p_, q_)[-1], a, b, 1] for p_, q_, a, b in act)
                    near(p, m.pillar(i, j, lo if z < lo else hi if z > hi else z), "point of pillar %r in the grid at %r" % ((i, j), z))
            if act:
                zs = [m.z[p, q, k, a, b, d] for p, q, a, b in act for k in m.column(p, q) for d in (0, 1)]
                tops.append(m.pillar(i, j, min(zs)))
                bots.append(m.pillar(i, j, max(zs)))
    got = g.topbot()
    for what, a, b in (("top", got[0], tops), ("bottom", got[1], bots)):
        require(len(a) == len(b), "%d %s points, expected %d", len(a), what, len(b))
        for p, q in zip(a, b):
            near(p, q, what + " points of the grid")
    for i in range(ni):
        for j in range(nj):
            kk = m.column(i, j)
            require(g.top_cell(i, j) == (kk[0] if kk else nk) and g.bottom_cell(i, j) == (kk[-1] if kk else nk) and g.column(i, j) == bool(kk), "column %r: top %r, bottom %r, active %r, expected layers %r", (i, j), g.top_cell(i, j), g.bottom_cell(i, j), g.column(i, j), kk)
            for f, (a, b) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1))):
                if 0 <= i + a < ni and 0 <= j + b < nj:
                    require(g.neigh(i, j, f) == (i + a, j + b), "neighbour of column %r on face %d is %r", (i, j), f, g.neigh(i, j, f))
    ks = [k for i in range(ni) for j in range(nj) for k in m.column(i, j)]
    require(g.layers() == ((min(ks), max(ks)) if ks else (nk, nk)), "top and bottom layer %r, expected %r", g.layers(), (min(ks), max(ks)) if ks else nk)
    z = c["base"][2] + 44.0
    ds = []
    for i in range(ni + 1):
        for j in range(nj + 1):
            for a, b in ((1, 0), (0, 1)):
                if i + a <= ni and j + b <= nj and g.pillar_active(i, j) and g.pillar_active(i + a, j + b):
                    ds.append(math.dist(m.pillar(i, j, z), m.pillar(i + a, j + b, z)))
    if ds:
        require_close([g.mean_dist(z)], [sum(ds) / len(ds)], "mean distance between pillars", 1e-9)
    return n > 1, ["inactive"] if len(ks) < n else []


def check_find(c):
    import vecl as v
    m = Model(c)
    g = m.grid(v)
    ni, nj, nk = m.n
    lab = []
    for q, u, w, t in c["pts"]:
        i, j, k = q % ni, q // 7 % nj, q // 49 % nk
        p = m.inside(i, j, k, u, w, t)
        near(g.in_cell(i, j, k, u, w, t), p, "point %r of cell %r" % ((u, w, t), (i, j, k)))
        # in one of the cells of the column?
        wt = {(a, b): (u if a else 1 - u) * (w if b else 1 - w) for a in (0, 1) for b in (0, 1)}
        if m.th[k] == 0.0:
            continue
        got = g.find(*p)
        if m.column(i, j):
            require(got == (i, j, k), "point %r of cell %r is found in cell %r", p, (i, j, k), got)
        else:
            require(got in (None, (i, j, k)), "point %r of cell %r is found in cell %r", p, (i, j, k), got)
            lab.append("inactive column")
        # above, below and in the gaps there is no cell
        surf = lambda kk, d: sum(wt[x] * m.z[i, j, kk, x[0], x[1], d] for x in wt)
        zs = [surf(0, 0) - 0.5 - 20 * t, surf(nk - 1, 1) + 0.5 + 20 * t]
        if k + 1 < nk and surf(k + 1, 0) - surf(k, 1) > 0.1:
            zs.append(surf(k, 1) + t * (surf(k + 1, 0) - surf(k, 1)))
            lab.append("gap")
        for z in zs:
            ps = {x: m.pillar(i + x[0], j + x[1], z) for x in wt}
            x, y = sum(wt[s] * ps[s][0] for s in wt), sum(wt[s] * ps[s][1] for s in wt)
            require(g.find(x, y, z) is None, "point %r above, below or between the cells of column %r is found in %r", (x, y, z), (i, j), g.find(x, y, z))
    # beside the grid
    z = c["base"][2] + 50.0
    ps = np.array([m.pillar(i, j, z)[:2] for i in range(ni + 1) for j in range(nj + 1)])
    lo, hi = ps.min(axis=0), ps.max(axis=0)
    for x, y in ((lo[0] - 1, lo[1] - 1), (hi[0] + 30, (lo[1] + hi[1]) / 2), ((lo[0] + hi[0]) / 2, hi[1] + 1000)):
        require(g.find(x, y, z) is None, "point %r beside the grid is found in %r", (x, y, z), g.find(x, y, z))
    # the enclosing rectangle
    if all(m.column(i, j) for i in range(ni) for j in range(nj)):
        x0, y0, lx, ly, a = g.volume()
        zs = [m.z[i, j, k, p, q, d] for (i, j, k), x in m.act.items() if x for p in (0, 1) for q in (0, 1) for d in (0, 1)]
        pts = [m.pillar(i, j, z) for z in (min(zs), max(zs)) for i in range(ni + 1) for j in range(nj + 1)]
        us = [(x - x0) * math.cos(a) + (y - y0) * math.sin(a) for x, y, _ in pts]
        ws = [-(x - x0) * math.sin(a) + (y - y0) * math.cos(a) for x, y, _ in pts]
        tol = 1e-5 + 5e-5 * max(lx, ly)   # the hull skips points closer than 2e-5 radians to it
        for what, q, l in (("x", us, lx), ("y", ws, ly)):
            require(abs(min(q)) < tol and abs(max(q) - l) < tol, "the pillars reach from %r to %r in the %s direction of the enclosing rectangle of length %r", min(q), max(q), what, l)
        lab.append("all columns")
    return ni * nj * nk > 1, lab


# ---------------- surfaces of layers
@st.composite
def layer(draw):
    return {"n": (draw(st.integers(2, 5)), draw(st.integers(2, 5)), draw(st.integers(1, 3))), "ang": draw(st.sampled_from([0.0, 0.0, 0.5, 2.0, -1.0])), "b": draw(st.floats(-0.3, 0.3).map(lambda x: round(x, 3))), "cc": draw(st.floats(-0.3, 0.3).map(lambda x: round(x, 3))),
            "m": (draw(st.integers(1, 12)), draw(st.integers(1, 12))), "bil": draw(st.booleans()), "corner": draw(st.booleans()), "k": draw(st.integers(0, 2)), "lo": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 1 << 30)), "whole": draw(st.booleans())}


def check_layer(c):
    import vecl as v
    ni, nj, nk = c["n"]
    r = random.Random(c["seed"])
    X0, Y0 = 1000.0, 2000.0
    ca, sa = math.cos(c["ang"]), math.sin(c["ang"])
    xy = {}
    for i in range(ni + 1):
        for j in range(nj + 1):
            jit = 0 if c["bil"] else 5   # a twist below a thousandth of the coordinates is ignored by BilinearSurface
            x, y = 50.0 * i + r.uniform(-jit, jit), 40.0 * j + r.uniform(-jit, jit)
            xy[i, j] = (X0 + x * ca - y * sa, Y0 + x * sa + y * ca)
    plane = lambda x, y, s: 1500 + c["b"] * (x - X0) + c["cc"] * (y - Y0) + 10.0 * s
    g = v.G(ni, nj, nk)
    co = [q for j in range(nj + 1) for i in range(ni + 1) for q in xy[i, j] + (1000.0,) + xy[i, j] + (2000.0,)]
    zc = [plane(*xy[i + a, j + b], k + d) for k in range(nk) for d in (0, 1) for j in range(nj) for b in (0, 1) for i in range(ni) for a in (0, 1)]
    g.geom(co, zc, [1] * (ni * nj * nk))
    k = c["k"] % nk
    m, n = c["m"]
    if c["whole"]:   # over the grid
        lx, ly, ox, oy = 50.0 * ni + 20, 40.0 * nj + 20, -10.0, -10.0
    else:            # well inside
        lx, ly, ox, oy = 50.0 * (ni - 1) - 22, 40.0 * (nj - 1) - 22, 36.0, 31.0
    dx, dy = lx / m, ly / n
    x0, y0 = X0 + ox * ca - oy * sa, Y0 + ox * sa + oy * ca
    z = np.array(g.layer(m, n, k, c["lo"], dx, dy, x0, y0, c["ang"], c["bil"], c["corner"], -12345.0)).reshape(n, m).T
    zin = []
    for p in range(m):
        for q in range(n):
            u, w = ox + (p + 0.5) * dx, oy + (q + 0.5) * dy
            e = plane(X0 + u * ca - w * sa, Y0 + u * sa + w * ca, k + c["lo"])
            ins = (5.1 < u < 50 * ni - 5.1 and 5.1 < w < 40 * nj - 5.1) if c["corner"] else (30.5 < u < 50 * (ni - 0.5) - 5.5 and 25.5 < w < 40 * (nj - 0.5) - 5.5)
            if ins:
                require(abs(z[p, q] - e) < 1e-5, "surface of layer %d is %r at node %r, expected %r", k, z[p, q], (p, q), e)
            zin.append((ins, z[p, q]))
    if sum(i for i, _ in zin) > 0.5 * m * n:
        allz = [plane(*xy[q], k + c["lo"]) for q in xy]
        far = (abs(c["b"]) + abs(c["cc"])) * (dx + dy) + 1e-6   # up to one node of extrapolation
        for i, x in zin:
            require(min(allz) - far <= x <= max(allz) + far, "surface of layer %d is %r outside the cells, the depths are from %r to %r", k, x, min(allz), max(allz))
    return m * n > 1 and any(i for i, _ in zin), ["corner" if c["corner"] else "centre", "whole" if c["whole"] else "inside"]


# ---------------- faults
@st.composite
def faultset(draw):
    n = (draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 4)))
    return {"segs": draw(st.lists(segment(n), max_size=5)), "inc": draw(st.integers(0, 3)), "flat": [draw(flatseg(n)) for _ in range(4)]}


@st.composite
def flatseg(draw, n):
    s = draw(segment(n))
    s[6] = draw(st.integers(0, 3))
    if s[6] < 2:
        s[1] = s[0]
    else:
        s[3] = s[2]
    return s


def check_fault(c):
    import vecl as v
    want = [(i, j, k, s[6]) for s in c["segs"] for k in range(s[4], s[5] + 1) for j in range(s[2], s[3] + 1) for i in range(s[0], s[1] + 1)]
    got = v.faces(c["segs"])
    require([tuple(x) for x in got] == want, "faces of the fault %r, expected %r", got[:20], want[:20])
    for s in c["flat"]:
        i0, i1, j0, j1 = s[:4]
        e = {0: (i0 + 1, j0, i1 + 1, j1 + 1), 1: (i0, j0, i1, j1 + 1), 2: (i0, j0 + 1, i1 + 1, j1 + 1), 3: (i0, j0, i1 + 1, j1)}[s[6]]
        require(v.coords(s) == e, "end pillars of segment %r are %r, expected %r", s, v.coords(s), e)
        l = list(s)
        if s[6] < 2:
            l[2] -= c["inc"]
            l[3] += c["inc"]
        else:
            l[0] -= c["inc"]
            l[1] += c["inc"]
        require(v.longer(s, c["inc"]) == l, "segment %r made %d longer is %r", s, c["inc"], v.longer(s, c["inc"]))
    crossed = 0
    for p in c["flat"]:
        for q in c["flat"]:
            got = v.cross(p, q)
            a, b = v.coords(p), v.coords(q)
            pts = lambda t: {(i, j) for i in range(t[0], t[2] + 1) for j in range(t[1], t[3] + 1)}
            common = pts(a) & pts(b)
            if p[6] // 2 == q[6] // 2:
                require(got is None, "parallel segments %r and %r cross at %r", p, q, got)
            elif common:
                crossed += 1
                require(got is not None and tuple(got) in common and len(common) == 1, "segments %r and %r meet in %r, got %r", p, q, common, got)
            else:
                require(got is None, "segments %r and %r do not meet, got %r", p, q, got)
    for f in range(6):
        require(v.dir(f) == f // 2 and v.opp(f) == f ^ 1, "direction %r and opposite %r of face %d", v.dir(f), v.opp(f), f)
    return len(want) > 1, ["crossing"] if crossed else []


# ---------------- refinements and parts
@st.composite
def refined(draw):
    c = draw(cgrid())
    c["ref"] = [draw(st.integers(1, 3)) for _ in range(3)]
    c["locs"] = []
    for _ in range(draw(st.integers(1, 3))):
        l = []
        for m in c["n"]:
            a, b = sorted((draw(st.integers(0, m - 1)), draw(st.integers(0, m - 1))))
            l += [a, b]
        c["locs"].append(l)
    return c


def check_refine(c):
    import vecl as v
    m = Model(c)
    g = m.grid(v)
    r = random.Random(c["seed"] + 1)
    rx = c["ref"]
    vals = []
    for q, l in enumerate(c["locs"]):
        cells = [(l[2 * d + 1] - l[2 * d] + 1) * rx[d] for d in range(3)]
        x = [float(1000 * q + s) for s in range(cells[0] * cells[1] * cells[2])]
        vals.append((cells, x))
        g.add_cf(("L%d" % q, l, cells, -1, {"PORO": x}))
        require(g.refs(q) == tuple(rx), "refinement factors %r, expected %r", g.refs(q), rx)
    for p, a in enumerate(c["locs"]):
        for q, b in enumerate(c["locs"]):
            touch = all(a[2 * d] <= b[2 * d + 1] + 1 and b[2 * d] <= a[2 * d + 1] + 1 for d in range(3))
            require(g.connected(p, q) == touch, "refinements at %r and %r connected: %r", a, b, g.connected(p, q))
    who = sorted(r.sample(range(len(vals)), r.randint(1, len(vals))))
    loc, dump, par = g.group(who)
    e = [f(c["locs"][q][x] for q in who) for x, f in enumerate((min, max) * 3)]
    require(list(loc) == e, "the group is at %r, expected %r", loc, e)
    n = tuple((e[2 * d + 1] - e[2 * d] + 1) * rx[d] for d in range(3))
    require(tuple(dump[0]) == n, "the grid of the group is %r, expected %r", dump[0], n)
    want = {}
    for q in who:
        cells, x = vals[q]
        off = [(c["locs"][q][2 * d] - e[2 * d]) * rx[d] for d in range(3)]
        for s in range(len(x)):
            i, j, k = s % cells[0], s // cells[0] % cells[1], s // (cells[0] * cells[1])
            want[i + off[0], j + off[1], k + off[2]] = x[s]
    p = par["PORO"]
    t = 0
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                require(dump[3][t] == ((i, j, k) in want) and p[t] == want.get((i, j, k), 0.0), "cell %r of the group: active %r, value %r, expected %r", (i, j, k), dump[3][t], p[t], want.get((i, j, k)))
                t += 1
    # the pillars and depths are between those of the grid
    t = 0
    for j in range(n[1] + 1):
        for i in range(n[0] + 1):
            fi, fj = i / rx[0], j / rx[1]
            I, J = min(int(fi), e[1] - e[0]), min(int(fj), e[3] - e[2])
            u, w = fi - I, fj - J
            for pts in (m.top, m.bot):
                q = [sum((u if a else 1 - u) * (w if b else 1 - w) * pts[I + e[0] + a, J + e[2] + b][d] for a in (0, 1) for b in (0, 1)) for d in range(3)]
                near(dump[1][t:t + 3], q, "pillar %r of the group" % ((i, j),))
                t += 3
    t = 0
    for k in range(n[2]):
        for d in (0, 1):
            for j in range(n[1]):
                for b in (0, 1):
                    for i in range(n[0]):
                        for a in (0, 1):
                            I, J, K = i // rx[0], j // rx[1], k // rx[2]
                            f = ((i + a) / rx[0] - I, (j + b) / rx[1] - J, (k + d) / rx[2] - K)
                            q = sum((f[0] if x else 1 - f[0]) * (f[1] if y else 1 - f[1]) * (f[2] if z else 1 - f[2]) * m.z[I + e[0], J + e[2], K + e[4], x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1))
                            near([dump[2][t]], [q], "depth of corner %r of cell %r of the group" % ((a, b, d), (i, j, k)))
                            t += 1
    # parts
    ni, nj, nk = m.n
    vv = [r.uniform(-5, 5) for _ in range(ni * nj * nk)]
    g.set_param("NTG", vv)
    g.const_param("C", 2.5)
    require(g.params()["C"] == [2.5] * len(vv), "constant parameter %r", g.params()["C"])
    if min(m.n) > 1:
        ab = [sorted(r.sample(range(x), 2)) for x in m.n]
        dims, ps = g.sub(*[x for y in ab for x in y])
        require(list(dims) == [b - a + 1 for a, b in ab], "part %r has %r cells", ab, dims)
        ex = [vv[i + ni * (j + nj * k)] for k in range(ab[2][0], ab[2][1] + 1) for j in range(ab[1][0], ab[1][1] + 1) for i in range(ab[0][0], ab[0][1] + 1)]
        require(ps["NTG"] == ex and ps["C"] == [2.5] * len(ex), "values of the part %r are %r", ab, ps)
    g.resize(2, 3, 1)
    require(sorted(g.params()) == ["C", "NTG"] and all(len(x) == 6 for x in g.params().values()) and tuple(g.dump()[0]) == (2, 3, 1), "after resizing %r", g.dump()[0])
    return len(want) > 1, ["group of %d" % len(who)]


def check_area(c):
    """the area two cells side by side have in common, projected along x, y and z, from the surface of level lines between their two pillars"""
    import vecl as v
    m = Model(c)
    g = m.grid(v)
    ni, nj, nk = m.n
    N = 400
    s = (np.arange(N) + 0.5) / N
    some = 0
    pairs = [(i, j, k, k2, f, di, dj) for f, (di, dj) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1))) for i in range(ni) for j in range(nj) for k in range(nk) for k2 in range(nk) if 0 <= i + di < ni and 0 <= j + dj < nj]
    random.Random(c["seed"]).shuffle(pairs)
    pairs.sort(key=lambda q: abs(q[2] - q[3]) > 1)   # those that are apart last
    for i, j, k, k2, f, di, dj in pairs[:40]:
        ends = [((di + 1) // 2, b) for b in (0, 1)] if di else [(a, (dj + 1) // 2) for a in (0, 1)]
        other = [(a if not di else 1 - a, b if not dj else 1 - b) for a, b in ends]
        P = [(i + a, j + b) for a, b in ends]
        z = [[[m.z[q, r, l, a, b, d] for a, b in w] for d in (0, 1)] for q, r, l, w in ((i, j, k, ends), (i + di, j + dj, k2, other))]
        line = lambda q: q[0] + (q[1] - q[0]) * s
        lo, hi = np.maximum(line(z[0][0]), line(z[1][0])), np.minimum(line(z[0][1]), line(z[1][1]))
        part = np.maximum(0.0, hi - lo)
        whole = max(float(np.mean(line(w[1]) - line(w[0]))) for w in z)
        def across(mid):
            A, B = (np.array([[*m.pillar(*q, w)] for w in mid]) for q in P)
            return B - A, A
        d, A = across((lo + hi) / 2)
        want = [float(np.mean(part * np.abs(d[:, 1]))), float(np.mean(part * np.abs(d[:, 0])))]
        full = [whole * float(np.max(np.abs(d[:, 1]))), whole * float(np.max(np.abs(d[:, 0])))]
        got = g.face_area(i, j, k, f, k2)
        what = "cells %r and %r have an area in common projected along %s" 
        for w in (0, 1):
            require(abs(got[w] - want[w]) <= 0.005 * full[w] + 1e-6 * whole, what + " that is %g, expected %g", (i, j, k), (i + di, j + dj, k2), "xy"[w], got[w], want[w])
        if c["conv"] == 0:
            p, q = m.pillar(*P[0], 0.0), m.pillar(*P[0], 1.0)
            e = d[0]
            jac = abs(e[0] * (q[1] - p[1]) - e[1] * (q[0] - p[0]))
            require(abs(got[2] - jac * float(np.mean(part))) <= 0.005 * jac * whole + 1e-5 * whole, what + " that is %g, expected %g", (i, j, k), (i + di, j + dj, k2), "z", got[2], jac * float(np.mean(part)))
        some += want[0] + want[1] > 0
    return some > 0, ["pairs with a common area" if some else "none"]


PROP = Prop("C27", [{"shim": "vecl", "mods": ["eclipsegrid", "geometry", "surface", "iotools", "pointset", "math", "exception", "grid"], "asan": False}], [
    Sub("find", lambda: cgrid(), check_find, 3000, 40000, shards=2, rule="points and the cells they are in"),
    Sub("cells", lambda: cgrid(), check_cells, 700, 8000, shards=2, rule="corners, centres, faces, neighbours and pillars"),
    Sub("layer", lambda: layer(), check_layer, 1500, 20000, shards=1, rule="surfaces of plane layers"),
    Sub("fault", lambda: faultset(), check_fault, 3000, 30000, shards=1, rule="faults"),
    Sub("refine", lambda: refined(), check_refine, 900, 10000, shards=2, rule="refinements and parts"),
    Sub("area", lambda: cgrid(), check_area, 400, 4000, shards=2, rule="areas that cells have in common"),
], RULE, ["pillars that do not cross", "points not on the faces of cells", "plane layers for the surfaces of layers"])
