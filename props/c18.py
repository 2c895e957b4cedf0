"""C18: regular, rotated and constant surfaces."""
import math, os, shutil, struct, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Histories of operations on a regular, a rotated and a constant surface with a numpy model; after each operation all nodes, extents and statistics are compared, and the "
        "surface is evaluated at points in and around it. Files are written by the library and read back, and written by the check. Non-trivial: at least 2x2 nodes and three operations, or a file with at least four nodes.")

pos = st.one_of(st.integers(-40, 40).map(lambda k: k / 4), st.sampled_from([458000.0, 6781000.25]), gen.nice(-1000, 1000, 3))
step = st.one_of(st.sampled_from([0.25, 0.5, 1.0, 2.0, 25.0]), gen.nice(0.1, 60, 3))
val = st.one_of(st.integers(-100, 100).map(float), gen.nice(-3000, 3000, 2))
ang = st.one_of(st.sampled_from([0.0, math.pi / 2, math.pi / 4, -math.pi / 6, math.pi]), gen.nice(-3.2, 3.2, 4))
MV = [-999.0, 1e30, 9999900.0, -1.5]


class M:
    def __init__(s, x0, y0, lx, ly, a, ang=None, mv=-999.0):
        s.x0, s.y0, s.lx, s.ly, s.a, s.ang, s.mv, s.name = x0, y0, lx, ly, np.array(a, float), ang, mv, ""

    def copy(s):
        t = M(s.x0, s.y0, s.lx, s.ly, s.a.copy(), s.ang, s.mv)
        t.name = s.name
        return t

    n = property(lambda s: s.a.shape)

    @property
    def d(s):
        ni, nj = s.n
        return (s.lx / (ni - 1) if ni > 1 else 1.0), (s.ly / (nj - 1) if nj > 1 else 1.0)

    def to_xy(s, ci, cj):
        dx, dy = s.d
        u, v = ci * dx, cj * dy
        if s.ang is None:
            return s.x0 + u, s.y0 + v
        c, t = math.cos(s.ang), math.sin(s.ang)
        return s.x0 + c * u - t * v, s.y0 + t * u + c * v

    def cont(s, x, y):
        dx, dy = s.d
        u, v = x - s.x0, y - s.y0
        if s.ang is not None:
            c, t = math.cos(s.ang), math.sin(s.ang)
            u, v = c * u + t * v, -t * u + c * v
        return u / dx, v / dy

    def corners(s, i, j):
        ni, nj = s.n
        o = []
        for q in (0, 1):
            for p in (0, 1):
                k, l = i + p, j + q
                o.append(float(s.a[k, l]) if 0 <= k < ni and 0 <= l < nj else s.mv)
        return o

    def z(s, ci, cj, inside=False):
        i, j = math.floor(ci), math.floor(cj)
        u, v = ci - i, cj - j
        c = s.corners(i, j)
        w = [(1 - u) * (1 - v), u * (1 - v), (1 - u) * v, u * v]
        if inside and any(x == s.mv for x in c):
            return None
        sw = sum(p for p, x in zip(w, c) if x != s.mv)
        if sw == 0:
            return None
        return sum(p * x for p, x in zip(w, c) if x != s.mv) / sw

    def zs(s, x, y, inside=False):
        """Acceptable values at (x, y): one, unless the point is within rounding of a grid line."""
        ci, cj = s.cont(x, y)
        e = 1e-7
        f = [[c] if abs(c - round(c)) > e else sorted({c, float(round(c)), round(c) - e, round(c) + e}) for c in (ci, cj)]
        return [s.z(p, q, inside) for p in f[0] for q in f[1]]

    def accept(s, got, x, y, inside=False):
        sc = 1 + max(abs(v) for v in s.a.flat if v != s.mv) if (s.a != s.mv).any() else 1
        return any((got == s.mv) if z is None else abs(got - z) <= 2e-6 * sc for z in s.zs(x, y, inside))

    def ext(s):
        if s.ang is None:
            return s.x0, s.x0 + s.lx, s.y0, s.y0 + s.ly
        c, t = math.cos(s.ang), math.sin(s.ang)
        X = [s.x0 + c * u - t * v for u in (0, s.lx) for v in (0, s.ly)]
        Y = [s.y0 + t * u + c * v for u in (0, s.lx) for v in (0, s.ly)]
        return min(X), max(X), min(Y), max(Y)


OPS = ["put", "put", "miss", "miss", "add", "sub", "mul", "assign", "nc", "nc", "nc", "dims", "resize", "swap", "clone", "mv", "neigh", "neigh", "angle", "name", "fill", "resample", "const"]


@st.composite
def surf(draw, nmax=6):
    ni, nj = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    dx, dy = draw(step), draw(step)
    v = draw(st.lists(val, min_size=ni * nj, max_size=ni * nj))
    miss = draw(st.lists(st.integers(0, ni * nj - 1), max_size=4)) if draw(st.booleans()) else []
    for k in miss:
        v[k] = -999.0
    return {"x0": draw(pos), "y0": draw(pos), "lx": dx * (ni - 1) if ni > 1 else draw(st.sampled_from([0.0, 1.0, 30.0])), "ly": dy * (nj - 1) if nj > 1 else draw(st.sampled_from([0.0, 1.0, 30.0])), "ni": ni, "nj": nj, "v": v}


@st.composite
def hist(draw):
    a, b = draw(surf()), draw(surf())
    c = draw(ang)
    if draw(st.booleans()):   # let the surfaces overlap
        b["x0"], b["y0"] = a["x0"] + draw(st.integers(-4, 4)) / 2, a["y0"] + draw(st.integers(-4, 4)) / 2
    ops = [{"op": draw(st.sampled_from(OPS)), "t": draw(st.integers(0, 1)), "k": draw(st.integers(0, 35)), "v": draw(val), "c": draw(st.sampled_from([0.5, -2.0, 3.0, 1.0, 0.25])), "g": draw(st.integers(0, 3)),
            "x": draw(pos), "y": draw(pos), "l": draw(st.tuples(step, step)), "n": draw(st.tuples(st.integers(1, 6), st.integers(1, 6))), "s": draw(st.text("ab.", max_size=3)), "o": draw(st.integers(0, 2)), "ang": draw(ang),
            "q": draw(st.lists(st.tuples(st.one_of(st.integers(-3, 16).map(lambda z: z / 2), gen.nice(-2, 8, 3)), st.one_of(st.integers(-3, 16).map(lambda z: z / 2), gen.nice(-2, 8, 3))), min_size=1, max_size=3))}
           for _ in range(draw(st.integers(1, 9)))]
    return {"a": a, "b": b, "ang": c, "k": draw(val), "ctor": draw(st.integers(0, 2)), "ops": ops}


def build(vsurf, d, angle, ctor):
    A = np.array(d["v"]).reshape((d["ni"], d["nj"]), order="F")
    m = M(d["x0"], d["y0"], d["lx"], d["ly"], A, angle)
    g = (d["x0"], d["y0"], d["lx"], d["ly"], d["ni"], d["nj"])
    if angle is None:
        if ctor == 0:
            s = vsurf.S(*g, 7.5)
            require(s.vals() == [7.5] * A.size, "constant constructor")
            s.setv(d["v"])
        elif ctor == 1:
            s = vsurf.S.grid(*g, d["v"])
        else:
            s = vsurf.S()
            s.resize(d["ni"], d["nj"], 1.0)
            s.dims(*g[:4])
            s.setv(d["v"])
    else:
        if ctor == 0:
            s = vsurf.R(*g, angle, 7.5)
            s.setv(d["v"])
        elif ctor == 1:
            s = vsurf.R.grid(*g, d["v"], angle)
        else:
            t = vsurf.S.grid(*g, d["v"])
            t.set_mv(-1.5)
            m.mv = -1.5
            s = vsurf.R(t, angle)
    return s, m


def same(s, m, what):
    ni, nj = m.n
    require(tuple(s.n()) == (ni, nj, ni * nj), "%s: size %s, expected %s", what, s.n(), m.n)
    require(np.array_equal(np.array(s.vals()), m.a.flatten("F"), equal_nan=True), "%s: nodes %s, expected %s", what, s.vals(), m.a.flatten("F").tolist())
    sc = 1e-9 * (1 + abs(m.x0) + abs(m.y0) + m.lx + m.ly)
    require_close(np.array(s.ext()), np.array(m.ext()), what + ": extent", 1e-12, sc)
    require_close(np.array(s.d()), np.array(m.d), what + ": increments", 1e-12, 1e-12)
    require(tuple(s.l()) == (m.lx, m.ly), "%s: lengths %s", what, s.l())
    require(s.mv() == m.mv and s.name() == m.name, "%s: missing value %s or name %s", what, s.mv(), s.name())
    if m.ang is not None:
        require(s.angle() == m.ang and tuple(s.ref()) == (m.x0, m.y0), "%s: angle %s, reference %s", what, s.angle(), s.ref())
    ok = m.a[m.a != m.mv]
    mn, mx = s.minmax()
    require((mn, mx) == ((ok.min(), ok.max()) if ok.size else (m.mv, m.mv)), "%s: min, max %s", what, (mn, mx))
    av, cnt, av2 = s.avg()
    require(cnt == ok.size and av == av2, "%s: %s nodes in average", what, cnt)
    require_close(av, ok.mean() if ok.size else m.mv, what + ": average", 1e-9, 1e-9 * (np.abs(ok).max() if ok.size else 1))
    if m.ang is None:
        for nm, f, v in (("minnode", np.argmin, mn), ("maxnode", np.argmax, mx)):
            z, i, j = getattr(s, nm)()
            require(z == v and m.a[i, j] == v, "%s: %s gives %s at (%s,%s)", what, nm, z, i, j)


def probe(s, m, what, q):
    ni, nj = m.n
    for ci, cj in q:
        x, y = m.to_xy(ci, cj)
        z = s.z(x, y)
        require(m.accept(z, x, y), "%s: z(%r, %r) = %r, expected %s", what, x, y, z, m.zs(x, y))
        z = s.z_in(x, y)
        require(m.accept(z, x, y, True), "%s: z inside (%r, %r) = %r, expected %s", what, x, y, z, m.zs(x, y, True))
        dx, dy = m.d
        ci, cj = m.cont(x, y)
        lim = [m.lx / dx, m.ly / dy]
        if all(abs(c - t) > 1e-7 for c, l in ((ci, lim[0]), (cj, lim[1])) for t in (0, l)):
            ins = 0 < ci < lim[0] and 0 < cj < lim[1]
            require(s.inside(x, y) == ins, "%s: inside(%r, %r) is %s", what, x, y, s.inside(x, y))
        i, j = math.floor(ci), math.floor(cj)
        amb = abs(ci - round(ci)) < 1e-7 or abs(cj - round(cj)) < 1e-7
        exact = x == x // 0.25 * 0.25 and y == y // 0.25 * 0.25 and all(math.log2(t) % 1 == 0 for t in m.d) and m.x0 == m.x0 // 0.25 * 0.25 and m.y0 == m.y0 // 0.25 * 0.25
        if m.ang is None and (exact or not amb):
            require(list(s.corners(x, y)) == m.corners(i, j), "%s: corners(%r, %r) = %s, expected %s", what, x, y, s.corners(x, y), m.corners(i, j))
            require(tuple(s.general(x, y)) == (i, j), "%s: general index %s", what, s.general(x, y))
            if exact or all(abs(c - math.floor(c) - .5) > 1e-7 for c in (ci, cj)):
                e = (min(max(math.floor(ci + .5), 0), ni - 1), min(max(math.floor(cj + .5), 0), nj - 1))
                require(tuple(s.nearest(x, y)) == e, "%s: nearest node %s, expected %s", what, s.nearest(x, y), e)
            X0, X1, Y0, Y1 = s.ext()
            if X0 <= x <= X1 and Y0 <= y <= Y1:
                f = s.find(x, y)
                require(tuple(f[:4]) == (i, j, i, j), "%s: index %s, expected %s", what, f, (i, j))
                require_close(np.array(f[4:]), np.array([ci, cj]), what + ": continuous index", 1e-9, 1e-7)
    X0, X1, Y0, Y1 = m.ext()
    e = (X1 - X0 + Y1 - Y0) * 0.01 + 1e-6
    for r in ((X0 - e, X1, Y0, Y1), (X0, X1 + e, Y0, Y1), (X0, X1, Y0 - e, Y1), (X0, X1, Y0, Y1 + e)):
        require(not s.encl(*r), "%s: encloses %s, extent %s", what, r, m.ext())
    if X1 - X0 > 2 * e and Y1 - Y0 > 2 * e:
        require(s.encl(X0 + e, X1 - e, Y0 + e, Y1 - e), "%s: does not enclose its inside", what)
    for k in range(ni * nj):
        i, j = k % ni, k // ni
        sc = 1e-9 * (1 + abs(m.x0) + abs(m.y0) + m.lx + m.ly)
        p = np.array(m.to_xy(i, j))
        require_close(np.array(s.xy(i, j)), p, what + ": node position", 1e-12, sc)
        require_close(np.array(s.xyn(k)), p, what + ": node position by index", 1e-12, sc)
        require(s.get(i, j) == s.getn(k), "node by index")
        require(s.missing_at(i, j) == (m.a[i, j] == m.mv), "%s: missing at (%s,%s)", what, i, j)
        if m.ang is None:
            t = s.node(i, j)
            require_close(np.array(t), np.array([*p, m.a[i, j]] * 2), what + ": GetNode", 1e-12, sc)
            require_close(np.array([s.gx(i), s.gy(j)]), p, what + ": GetX, GetY", 1e-12, sc)


def check_hist(c):
    import vsurf
    S = [build(vsurf, c["a"], None, c["ctor"]), build(vsurf, c["b"], c["ang"], c["ctor"])]
    K = vsurf.C(c["k"])
    kz = c["k"]
    labs = set()
    for k, o in enumerate(c["ops"]):
        op, t = o["op"], o["t"]
        s, m = S[t]
        ni, nj = m.n
        what = "operation %d (%s) on the %s surface" % (k, op, ["regular", "rotated"][t])
        n = o["k"] % (ni * nj)
        i, j = n % ni, n // ni
        ok = m.a != m.mv
        if op == "put":
            s.put(i, j, o["v"])
            m.a[i, j] = o["v"]
        elif op == "miss":
            s.set_missing(i, j)
            m.a[i, j] = m.mv
        elif op == "add":
            s.add(o["v"])
            m.a[ok] += o["v"]
        elif op == "sub":
            s.sub(o["v"])
            m.a[ok] -= o["v"]
        elif op == "mul":
            s.mul(o["c"])
            m.a[ok] *= o["c"]
        elif op == "assign":
            s.assign(o["v"])
            m.a[:] = o["v"]
        elif op == "fill":
            v = [float((o["k"] * p) % 17 + p) for p in range(ni * nj)]
            s.setv(v)
            m.a = np.array(v).reshape(m.n, order="F")
        elif op == "nc":
            g = o["g"]
            other = K if o["o"] == 2 else S[1 - t if o["o"] else t][0]
            om = None if o["o"] == 2 else S[1 - t if o["o"] else t][1].copy()
            if g == 3:   # keep the divisor away from zero
                z = om.a[om.a != om.mv] if om is not None else np.array([kz])
                if not z.size or not (z > 0.5).all() and not (z < -0.5).all():
                    g = 0
            other = other.clone() if other is s else other
            require(s.nc(g, other), "operation refused")
            new = np.array(s.vals()).reshape(m.n, order="F")
            for i in range(ni):
                for j in range(nj):
                    old, got = m.a[i, j], new[i, j]
                    if old == m.mv:
                        require(got == m.mv, "%s: missing node (%d,%d) became %r", what, i, j, got)
                        continue
                    zz = [kz] if om is None else om.zs(*m.to_xy(i, j))
                    e = [m.mv if z is None else [old + z, old - z, old * z, old / (z or 1)][g] for z in zz]
                    sc = 1e-5 * (1 + abs(old) + (np.abs(om.a[om.a != om.mv]).max() if om is not None and (om.a != om.mv).any() else abs(kz))) * (1 + abs(old) if g > 1 else 1)
                    require(any(got == v or abs(got - v) <= sc and v != m.mv for v in e), "%s: node (%d,%d) %r became %r, expected %s", what, i, j, old, got, e)
            m.a = new
            labs.add("nc%d" % g)
            if np.abs(m.a[m.a != m.mv]).max(initial=0) > 1e12:
                s.assign(3.0)
                m.a[:] = 3.0
        elif op == "dims":
            lx, ly = o["l"][0] * max(ni - 1, 1), o["l"][1] * max(nj - 1, 1)
            s.dims(o["x"], o["y"], lx, ly)
            m.x0, m.y0, m.lx, m.ly = o["x"], o["y"], lx, ly
        elif op == "resize":
            if (m.lx == 0 and o["n"][0] > 1) or (m.ly == 0 and o["n"][1] > 1):
                continue
            s.resize(*o["n"], o["v"])
            m.a = np.full(o["n"], o["v"])
        elif op == "swap":
            if t:
                continue
            a2, m2 = build(vsurf, c["b"], None, 1)
            a2.set_name("other")
            m2.name = "other"
            s.swap(a2)
            same(a2, m, what + ", the other one")
            S[0] = (s, m2)
            m = m2
        elif op == "clone":
            old = s.vals()
            cl = s.clone()
            cl.add(5.0)
            require(s.vals() == old, "clone shares its nodes")
            cl = s.clone()
            if o["k"] % 2:
                S[t] = (cl, m)
                s.assign(-77.0)
                s = cl
        elif op == "mv":
            s.set_mv(MV[o["g"]])
            m.mv = MV[o["g"]]
        elif op == "name":
            s.set_name(o["s"])
            m.name = o["s"]
        elif op == "neigh":
            if t:
                continue
            nb = [m.a[p, q] for p in range(i - 1, i + 2) for q in range(j - 1, j + 2) if 0 <= p < ni and 0 <= q < nj and (p, q) != (i, j) and m.a[p, q] != m.mv]
            r = s.neigh(i, j)
            require(r == bool(nb), "%s returned %s with %d neighbours", what, r, len(nb))
            require_close(s.get(i, j), np.mean(nb) if nb else m.mv, what, 1e-12, 1e-9 * (1 + max(map(abs, nb), default=0)))
            m.a[i, j] = s.get(i, j)
        elif op == "angle":
            if not t:
                continue
            s.set_angle(o["ang"])
            m.ang = o["ang"]
        elif op == "resample":
            if not t or min(m.n) < 2:
                continue
            X0, X1, Y0, Y1 = m.ext()
            if (X1 - X0) / m.d[0] > 60 or (Y1 - Y0) / m.d[1] > 60 or X1 - X0 < m.d[0] or Y1 - Y0 < m.d[1]:
                continue
            r = s.resample()
            require_close(np.array(r.ext()), np.array((X0, X1, Y0, Y1)), what + ": extent", 1e-12, 1e-9 * (abs(X0) + abs(Y0) + m.lx + m.ly))
            nx, ny, _ = r.n()
            require(abs(nx - 1 - (X1 - X0) / m.d[0]) <= 1 and abs(ny - 1 - (Y1 - Y0) / m.d[1]) <= 1, "%s: %dx%d nodes", what, nx, ny)
            require(r.mv() == m.mv, "%s: missing value %s", what, r.mv())
            for i in range(nx):
                for j in range(ny):
                    x, y = r.xy(i, j)
                    require(m.accept(r.get(i, j), x, y), "%s: node (%d,%d) at (%r, %r) is %r, expected %s", what, i, j, x, y, r.get(i, j), m.zs(x, y))
            labs.add("resample")
        elif op == "const":
            if o["k"] % 2:
                K.add(o["v"])
                kz += o["v"]
            else:
                K.mul(o["c"])
                kz *= o["c"]
            e = K.clone()
            require(K.z(o["x"], o["y"]) == kz == K.z0() == e.z(o["y"], 0.0) and tuple(K.minmax()) == (kz, kz), "constant surface %s, expected %s", K.z0(), kz)
            require(K.inside(o["x"], o["y"]) and K.encl(-1e9, 1e9, -1e9, 1e9) and tuple(K.ext()) == (-math.inf, math.inf) * 2 and not K.is_missing(kz), "constant surface without limits")
        labs.add(op)
        for u in (0, 1):
            same(*S[u], what)
        probe(*S[t], what, o["q"])
    return len(c["ops"]) >= 3 and min(c["a"]["ni"], c["a"]["nj"], c["b"]["ni"], c["b"]["nj"]) >= 2, sorted(labs)


@st.composite
def files(draw):
    d = draw(surf(7))
    d["ni"], d["nj"] = max(d["ni"], 2), max(d["nj"], 2)
    n = d["ni"] * d["nj"]
    d["v"] = draw(st.lists(st.one_of(val, gen.nice(-1e5, 1e5, 6), st.floats(-1e5, 1e5, allow_nan=False, width=32)), min_size=n, max_size=n))
    dx, dy = draw(step), draw(step)
    d["lx"], d["ly"] = dx * (d["ni"] - 1), dy * (d["nj"] - 1)
    return {"s": d, "ang": draw(st.one_of(st.just(0.0), ang)), "miss": draw(st.lists(st.integers(0, n - 1), max_size=5)), "mv": draw(st.sampled_from(MV)), "fmt": draw(st.sampled_from(["irap", "storm", "storm", "sgri", "multi"])), "rot": draw(st.booleans()),
            "auto": draw(st.booleans()), "cut": draw(st.integers(1, 40)), "tail": draw(st.sampled_from(["", " ", "  junk", "\t1"])), "ext": draw(st.sampled_from(["named", "ext"])), "lab": draw(st.integers(0, 3)), "grids": draw(st.integers(1, 3)),
            "dim": draw(st.sampled_from([2, 2, 2, 2, 3])), "name": draw(st.sampled_from(["a.dat", "top res", "surf", "x.y.z"])), "cwd": draw(st.booleans())}


def raises(vsurf, f, *a):
    try:
        f(*a)
    except (vsurf.FormatErr, vsurf.IOErr):
        return True
    return False


def check_files(c):
    import vsurf
    d = tempfile.mkdtemp()
    here = os.getcwd()
    try:
        os.chdir(d)
        return _files(c, vsurf, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def stem(f):
    f = os.path.basename(f)
    return f[:f.rindex(".")] if "." in f else f


def _files(c, vsurf, d):
    g = dict(c["s"])
    fm, rot = c["fmt"], c["rot"]
    if fm in ("sgri", "multi"):
        return _sgri(c, vsurf, d)
    target = {"irap": 9999900.0, "storm": -999.0}[fm]
    g["v"] = [v if v not in MV else 1.0 for v in g["v"]]
    for k in c["miss"]:
        g["v"][k] = c["mv"]
    s, m = build(vsurf, g, c["ang"] if rot else None, 1)
    s.set_mv(c["mv"])
    m.mv = c["mv"]
    f = os.path.join(d, c["name"])
    a0 = (m.ang or 0.0)
    if fm == "storm" and a0 != 0.0:
        X0, X1, Y0, Y1 = m.ext()
        if (X1 - X0) / m.d[0] > 60 or (Y1 - Y0) / m.d[1] > 60 or X1 - X0 < m.d[0] or Y1 - Y0 < m.d[1]:
            return False, []
        e = s.resample()
    else:
        e = s
    s.write(f, "default" if fm == "storm" and c["auto"] else fm)
    require(vsurf.type(f) == {"irap": "IRAP classic ASCII", "storm": "Storm binary"}[fm], "written as %s, recognised as %s", fm, vsurf.type(f))
    rd = "default" if c["auto"] else fm
    if fm == "irap" and round(a0 * 180 / math.pi, 6) != 0 and not rot:
        raise AssertionError
    r = vsurf.R.file(f, rd) if rot else vsurf.S.file(f, rd)
    require(tuple(r.n()) == tuple(e.n()), "size %s after reading, %s written", r.n(), e.n())
    require(r.mv() == target and r.name() == stem(f), "missing value %s, name %s after reading %s", r.mv(), r.name(), f)
    old, new = np.array(e.vals()), np.array(r.vals())
    mis = old == e.mv()
    require(np.array_equal(mis, new == target), "missing nodes differ after reading: %s, %s", old.tolist(), new.tolist())
    pm = e.mv()
    if fm == "storm":
        require(np.array_equal(old[~mis], new[~mis]), "values differ after reading: %s, %s", old.tolist(), new.tolist())
        tl, to = 1e-12, 1e-12 * (1 + abs(m.x0) + abs(m.y0) + m.lx + m.ly) * 10
        td = to
    else:
        require(np.abs(old[~mis] - new[~mis]).max(initial=0) <= 5.1e-7, "values differ after reading: %s, %s", old.tolist(), new.tolist())
        tl, td, to = 0, 5.1e-7, 5.1e-3
    require_close(np.array(r.d()), np.array(e.d()), "increments after reading", tl, td)
    if rot:
        xr = np.array((r.ref()))
        require_close(xr, np.array((e.xy(0, 0))), "reference after reading", tl, to)
        require(abs(r.angle() - (a0 if fm == "irap" else 0.0)) <= 1e-8, "angle %s after reading, %s written", r.angle(), a0)
    else:
        require_close(np.array(r.xy(0, 0)), np.array(e.xy(0, 0)), "first node after reading", tl, to)
    # an existing surface takes over everything
    t = vsurf.R(5.0, 5.0, 9.0, 9.0, 3, 2, 0.3, 4.0) if rot else vsurf.S(5.0, 5.0, 9.0, 9.0, 3, 2, 4.0)
    t.read(f, rd)
    require(t.vals() == r.vals() and t.ext() == r.ext() and t.mv() == r.mv() and t.d() == r.d(), "reading into an existing surface")
    # other content
    raw = open(f, "rb").read()
    nd = 8 * old.size
    h = f + "2"
    C = vsurf.R if rot else vsurf.S
    if fm == "storm":
        open(h, "wb").write(raw[:-min(c["cut"], nd)])
        require(raises(vsurf, C.file, h, fm), "file without its last %d bytes is read", min(c["cut"], nd))
        open(h, "wb").write(raw + b"x" * c["cut"])
        require(raises(vsurf, C.file, h, fm), "file with %d bytes too much is read", c["cut"])
        open(h, "wb").write(raw.replace(b"STORMGRID_BINARY", b"STORMGRID_BINAR1"))
        require(raises(vsurf, C.file, h, fm) and raises(vsurf, C.file, h, "default"), "file of an unknown kind is read")
        tok = raw[:len(raw) - nd].decode().split("\n")
        p = tok[2].split()
        p[2 + c["grids"] % 2] = repr(float(p[2 + c["grids"] % 2]) * 1.01)
        tok[2] = " ".join(p)
        open(h, "wb").write("\n".join(tok).encode() + raw[len(raw) - nd:])
        require(raises(vsurf, C.file, h, fm), "file with inconsistent increments is read")
    else:
        w = raw.decode().split()
        cut = min(c["cut"], old.size)
        open(h, "w").write(" ".join(w[:-cut]) + "\n")
        require(raises(vsurf, C.file, h, fm), "file without its last %d values is read", cut)
        open(h, "w").write(raw.decode() + " 1.0 " * c["grids"])
        require(raises(vsurf, C.file, h, fm), "file with %d values too much is read", c["grids"])
        w[19 + c["cut"] % old.size] = "1.x"
        open(h, "w").write(" ".join(w))
        require(raises(vsurf, C.file, h, fm), "file with a word among the values is read")
        if c["ang"] and rot and abs(math.degrees(c["ang"])) > 1e-5:
            require(raises(vsurf, vsurf.S.file, f, fm), "rotated file read as a regular surface")
    require(raises(vsurf, C.file, d + "/none", rd), "file that does not exist is read")
    require(raises(vsurf, s.write, h, "sgri") and raises(vsurf, s.write, h, "rms"), "writing on a format that is not supported")
    return True, [fm, "rot" if rot else "reg"]


def _sgri(c, vsurf, d):
    g, multi = c["s"], c["fmt"] == "multi"
    ng = c["grids"]
    ni, nj = g["ni"], g["nj"]
    dx, dy = float(np.float32(g["lx"] / (ni - 1))), float(np.float32(g["ly"] / (nj - 1)))
    x0, y0 = float(np.float32(g["x0"])), float(np.float32(g["y0"]))
    mv = float(np.float32(c["mv"]))
    base = np.array(g["v"], np.float32)
    for k in c["miss"]:
        base[k] = mv
    grids = [(base + np.float32(q) if q else base) for q in range(ng)]
    labels = [("X utm", "Y utm"), ("x", "y"), ("Twt (ms)", "X"), ("Vp", "Depth y")][c["lab"]]
    binn = "val.bin" if c["ext"] == "named" else ""
    hf = "sub/h.hdr"
    os.makedirs(d + "/sub")
    if c["cwd"]:
        os.chdir(d + "/sub")
        hf = "h.hdr"
    elif c["auto"]:
        hf = d + "/" + hf
    head = ["NORSAR General Grid Format v1.0", str(c["dim"]) + c["tail"], labels[0], labels[1], "Z", str(ng) + c["tail"]] + ["grid %d" % q for q in range(ng)]
    head += ["1 1", "%d %d" % (ni, nj) + c["tail"], "%r %r" % (dx, dy), "%r %r %r" % (x0, y0, c["ang"]) if False else "%r %r" % (x0, y0), repr(c["ang"]), repr(mv), binn + (c["tail"] if binn else ""), "0"]
    open(d + "/sub/h.hdr", "w").write("\n".join(head) + "\n")
    bf = d + "/sub/" + (binn or "h.Sgri")
    data = b"".join(x.astype(">f4").tobytes() for x in grids)
    open(bf, "wb").write(data)
    require(vsurf.type(hf) == "NORSAR SGRI", "Sgri header recognised as %s", vsurf.type(hf))
    xy = "x" in labels[0].lower() and "y" in labels[1].lower()
    want = [["X", "Y"], [], ["twt", "x"], ["vp"]][c["grids"]] if multi else []
    if multi:
        ok = all(w.upper() in l.upper() for w, l in zip(want, labels)) and c["dim"] == 2
        if not ok:
            require(raises(vsurf, vsurf.multi, hf, want), "file with labels %s, dimension %d accepted for %s", labels, c["dim"], want)
            return False, ["labels"]
        r = vsurf.multi(hf, want)
        require(len(r) == ng, "%d surfaces read of %d", len(r), ng)
    else:
        if not xy or c["dim"] != 2:
            require(raises(vsurf, vsurf.R.file, hf, "sgri"), "file with labels %s, dimension %d accepted", labels, c["dim"])
            return False, ["labels"]
        rd = "default" if c["auto"] else "sgri"
        r = [vsurf.R.file(hf, rd)]
        require(r[0].name() == (stem(binn) if binn else "h"), "name %s", r[0].name())
        reg = raises(vsurf, vsurf.S.file, hf, rd)
        require(reg == (c["ang"] != 0.0), "file with angle %s read as a regular surface", c["ang"])
    for s, e in zip(r, grids):
        require(tuple(s.n())[:2] == (ni, nj) and s.mv() == mv, "size %s or missing value %s of a Sgri file", s.n(), s.mv())
        require(np.array_equal(np.array(s.vals()), e.astype(float)), "values of Sgri file %s, expected %s", s.vals(), e.tolist())
        require(s.angle() == c["ang"], "angle %s, expected %s", s.angle(), c["ang"])
        require_close(np.array(s.ref()), np.array([x0 - dx / 2, y0 - dy / 2]), "first point of a Sgri file", 1e-9, 1e-9)
        if multi:
            require_close(np.array(s.d()), np.array([dx, dy]), "increments of a Sgri file", 1e-9, 1e-9)
        elif ni > 1 and nj > 1:
            require_close(np.array(s.d()) * np.array([ni - 1, nj - 1]), np.array([ni * dx, nj * dy]), "extent of the surface of a Sgri file (all its cells)", 1e-9, 1e-9)
    f = (lambda: vsurf.multi(hf, want)) if multi else (lambda: vsurf.R.file(hf, "sgri"))
    open(bf, "wb").write((data if multi else grids[0].astype(">f4").tobytes())[:-min(c["cut"], 4 * ni * nj)])
    require(raises(vsurf, f), "binary file that is %d bytes too short is read", min(c["cut"], 4 * ni * nj))
    os.remove(bf)
    require(raises(vsurf, f), "Sgri file without its binary file is read")
    return True, [c["fmt"]]


text = st.text("ab9 12.\n-", max_size=40)


def check_type(c):
    import vsurf
    d = tempfile.mkdtemp()
    try:
        f = d + "/f"
        open(f, "w").write(c["t"])
        tok = c["t"].split()
        e = "Unknown surface format"
        if tok and tok[0] == "-996":
            e = "IRAP classic ASCII"
        elif tok and tok[0] == "STORMGRID_BINARY":
            e = "Storm binary"
        elif len(tok) > 4 and tok[0] == "NORSAR" and tok[4] in ("v1.0", "v2.0"):
            e = "NORSAR SGRI"
        require(vsurf.type(f) == e, "file with %r is %r, expected %r", c["t"], vsurf.type(f), e)
        if e.startswith("Unk"):
            for C in (vsurf.S, vsurf.R):
                require(raises(vsurf, C.file, f, "default"), "file of unknown kind is read")
    finally:
        shutil.rmtree(d)
    return len(tok) >= 2, [e]


PROP = Prop("C18", [{"shim": "vsurf", "mods": ["surface", "iotools", "math"], "asan": False}], [
    Sub("hist", hist, check_hist, 4000, 80000, shards=4, rule="at least three operations on surfaces of 2x2 nodes or more"),
    Sub("files", files, check_files, 2400, 40000, shards=3, rule="a file of at least four nodes read"),
    Sub("type", lambda: st.one_of(text.map(lambda t: {"t": t}), st.tuples(st.sampled_from(["-996", "STORMGRID_BINARY", "NORSAR a b c v1.0", "NORSAR General Grid Format v2.0", "NORSAR General Grid Format v1.5", "NORSAR a b v1.0 d", "3 2\n1 2\n1 2\n1 2"]), text).map(lambda p: {"t": p[0] + p[1]})), check_type, 600, 6000, rule="at least two words"),
], RULE, ["positive increments; nodes not equal to the missing value of the file format"])
