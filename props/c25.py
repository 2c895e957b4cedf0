"""C25: SEG-Y survey geometry."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from props.c24 import raises

RULE = ("survey geometries made from grids, from surfaces, from inline and crossline directions and from traces in any order with traces missing, in all orientations and numberings; sub-geometries and the area of another geometry. "
        "Non-trivial: at least two inlines and two crosslines.")


@st.composite
def survey(draw):
    """inline number il0 + dil*a, crossline xl0 + dxl*b at P + a*u + b*v, u and v at right angles"""
    ang = draw(st.one_of(st.sampled_from([0.0, 0.0, 90.0, 180.0, 270.0, 45.0, 1e-7]), st.integers(0, 359).map(float), st.floats(0, 360).map(lambda a: round(a, 9))))
    return {"na": draw(st.integers(1, 6)), "nb": draw(st.integers(1, 6)), "il0": draw(st.integers(1, 5000)), "xl0": draw(st.integers(1, 5000)), "dil": draw(st.sampled_from([1, 1, 2, 3, 4, 10])), "dxl": draw(st.sampled_from([1, 1, 2, 4, 5])),
            "x0": draw(st.sampled_from([0.0, 1000.0, 458000.0, 461234.5])), "y0": draw(st.sampled_from([0.0, -500.0, 6780000.0, 7230211.25])), "da": draw(st.sampled_from([12.5, 25.0, 6.25, 18.75, 50.0])), "db": draw(st.sampled_from([12.5, 25.0, 6.25, 37.5])),
            "ang": ang, "flip": draw(st.booleans()), "q": draw(st.lists(st.tuples(st.floats(-0.3, 1.3), st.floats(-0.3, 1.3)), min_size=3, max_size=8))}


def vectors(c):
    a = math.radians(c["ang"])
    s = -1 if c["flip"] else 1
    return (c["da"] * math.cos(a), c["da"] * math.sin(a)), (-c["db"] * math.sin(a) * s, c["db"] * math.cos(a) * s)


def at(c, a, b):
    u, w = vectors(c)
    return c["x0"] + a * u[0] + b * w[0], c["y0"] + a * u[1] + b * w[1]


def consistent(v, g, c, what, tol=1e-6):
    """g is the geometry of survey c"""
    na, nb = c["na"], c["nb"]
    nx, ny = g.n()
    require(nx * ny == na * nb and sorted((nx, ny)) == sorted((na, nb)), "%s: %d by %d cells for %d inlines and %d crosslines", what, nx, ny, na, nb)
    ex = (c["il0"], c["il0"] + (na - 1) * c["dil"], c["dil"], c["xl0"], c["xl0"] + (nb - 1) * c["dxl"], c["dxl"])
    got = g.il()
    require(got[0:2] == ex[0:2] and got[3:5] == ex[3:5], "%s: numbers %r, expected %r", what, got, ex)
    require((na == 1 or got[2] == ex[2]) and (nb == 1 or got[5] == ex[5]), "%s: steps in %r, expected %r", what, got, ex)
    seen = {}
    for a in range(na):
        for b in range(nb):
            il, xl = c["il0"] + a * c["dil"], c["xl0"] + b * c["dxl"]
            x, y = at(c, a, b)
            p = g.xy_il(il, xl)
            require(math.hypot(p[0] - x, p[1] - y) <= tol, "%s: inline %d, crossline %d is put at %r, it is at %r", what, il, xl, p, (x, y))
            i, j = g.index_il(il, xl)
            require(i < nx and j < ny and (i, j) not in seen, "%s: index %r of inline %d, crossline %d", what, (i, j), il, xl)
            seen[(i, j)] = (a, b)
            require(g.index(x, y) == (i, j) and g.index1(x, y) == j * nx + i, "%s: index %r at the position of the trace of index %r", what, g.index(x, y), (i, j))
            require(g.ilxl_ij(i, j) == (il, xl), "%s: numbers %r of index %r, expected %r", what, g.ilxl_ij(i, j), (i, j), (il, xl))
            require(g.ilxl(x, y) == (il, xl), "%s: numbers %r at %r, expected %r", what, g.ilxl(x, y), (x, y), (il, xl))
            p = g.xy_ij(i, j)
            require(math.hypot(p[0] - x, p[1] - y) <= tol, "%s: index %r is put at %r, it is at %r", what, (i, j), p, (x, y))
            require(g.inside(x, y), "%s: trace at %r is outside", what, (x, y))
            ci = g.cont(x, y)
            eps = 2 * tol / min(c["da"], c["db"])
            require(ci[2] and abs(ci[0] - i - 0.5) <= eps and abs(ci[1] - j - 0.5) <= eps, "%s: continuous index %r of the trace with index %r", what, ci, (i, j))
            cl = g.cont_ilxl(x, y)
            require(abs(cl[0] - il) <= eps * c["dil"] and abs(cl[1] - xl) <= eps * c["dxl"], "%s: continuous numbers %r, expected %r", what, cl, (il, xl))
    # the corner and the axes of the grid
    geo = g.geo()
    for i, j in seen if tol < 1e-3 else ():   # deviations turn one axis more than the other
        a, b = seen[(i, j)]
        x, y = at(c, a, b)
        u, w = (i + 0.5) * geo[2], (j + 0.5) * geo[3]
        require(math.hypot(geo[0] + u * geo[5] - w * geo[6] - x, geo[1] + u * geo[6] + w * geo[5] - y) <= tol, "%s: corner, cell size and rotation %r put cell %r elsewhere than %r", what, geo, (i, j), (x, y))
    require_close([geo[5], geo[6]], [math.cos(geo[4]), math.sin(geo[4])], what + ": cosine and sine of the rotation", 0.0, 1e-9)
    require_close([geo[7], geo[8]], [nx * geo[2], ny * geo[3]], what + ": extent", 1e-9)
    for k, l in ((c["il0"] + 1, c["xl0"]), (c["il0"], c["xl0"] + c["dxl"] - 1)):
        if (na > 1 and k < ex[1] and (k - c["il0"]) % c["dil"]) or (nb > 1 and l < ex[4] and (l - c["xl0"]) % c["dxl"]):
            try:
                q = g.index_il(k, l)
            except v.Exc:
                q = None
            require(q is None, "%s: inline %d, crossline %d is between the lines and has index %r", what, k, l, q)
    # any position
    for s, t in c["q"]:
        fa, fb = s * na, t * nb
        m = max(1e-3, 2 * tol / min(c["da"], c["db"]))   # to the next cell
        if min(fa - math.floor(fa), fb - math.floor(fb)) < m or max(fa - math.floor(fa), fb - math.floor(fb)) > 1 - m:
            continue
        x, y = at(c, fa - 0.5, fb - 0.5)
        a, b = math.floor(fa), math.floor(fb)
        ins = 0 <= a < na and 0 <= b < nb
        require(g.inside(x, y) == ins and g.cont(x, y)[2] == ins, "%s: position %r at %r, %r of the survey is called %s", what, (x, y), s, t, "outside" if ins else "inside")
        cl = g.cont_ilxl(x, y)
        eps = 2 * tol / min(c["da"], c["db"])
        want = (c["il0"] + (fa - 0.5) * c["dil"], c["xl0"] + (fb - 0.5) * c["dxl"])
        require(abs(cl[0] - want[0]) <= eps * c["dil"] * 2 and abs(cl[1] - want[1]) <= eps * c["dxl"] * 2, "%s: continuous numbers %r at %r, expected %r", what, cl, (x, y), want)
        p = g.xy_cont(*want)
        require(math.hypot(p[0] - x, p[1] - y) <= 2 * tol, "%s: continuous numbers %r are put at %r, expected %r", what, want, p, (x, y))
        ci = g.cont(x, y)
        require_close(list(g.cont_from_il(*cl)), [ci[0], ci[1]], what + ": index from continuous numbers", 1e-9, 1e-9)
        if all(abs(q - math.floor(q) - 0.5) > 1e-2 for q in cl):   # the nearest line
            require(g.ilxl(x, y) == tuple(math.floor(q + 0.5) for q in cl), "%s: numbers %r at %r, expected those nearest to %r", what, g.ilxl(x, y), (x, y), cl)
        if ins:
            i, j = g.index(x, y)
            require(seen.get((i, j)) == (a, b), "%s: position %r in the cell of inline %d, crossline %d has index %r", what, (x, y), a, b, (i, j))
            require((i, j) == (int(ci[0]), int(ci[1])), "%s: index %r, continuous %r", what, (i, j), ci)
        else:
            require(raises(v, g.index, x, y), "%s: an index for a position outside", what)
            require(raises(v, g.index1, x, y), "%s: an index for a position outside", what)
    for il, xl in ((c["il0"] - c["dil"], c["xl0"]), (c["il0"] + na * c["dil"], c["xl0"]), (c["il0"], c["xl0"] - c["dxl"]), (c["il0"], c["xl0"] + nb * c["dxl"])):
        require(raises(v, g.index_il, il, xl), "%s: an index for inline %d, crossline %d outside", what, il, xl)
    h = g.copy()
    require(h.n() == g.n() and h.il() == g.il() and h.geo() == g.geo() and h.il0() == g.il0() and h.steps() == g.steps(), "%s: copy differs", what)


def labels(c):
    return [("line" if 1 in (c["na"], c["nb"]) else "area"), "steps" if max(c["dil"], c["dxl"]) > 1 else "step one", "along the axes" if c["ang"] % 90 == 0 else "rotated", "left-handed" if c["flip"] else "right-handed"]


@st.composite
def made(draw):
    c = draw(survey())
    c["how"] = draw(st.sampled_from(["rect", "surf", "rsurf", "full"]))
    c["dir"] = [draw(st.booleans()) for _ in range(3)]
    return c


def check_made(c):
    import vsegy as v
    c = dict(c)
    if c["how"] == "full":
        # the grid starts in any of the four corners, the first axis is that of the inlines or the crosslines
        first_il, da, db = c["dir"]
        na, nb = c["na"], c["nb"]
        if na == 1 or nb == 1:
            c["dil"] = c["dxl"] = 1
        u, w = vectors(c)
        S = [c["dil"] * u[0] / c["da"] ** 2, c["dil"] * u[1] / c["da"] ** 2, c["dxl"] * w[0] / c["db"] ** 2, c["dxl"] * w[1] / c["db"] ** 2]
        # right-handed: choose the corner so that the second axis is the first turned left
        ia, ib = (na - 0.5 if da else -0.5), (nb - 0.5 if db else -0.5)
        p, q = ((-1 if da else 1), (-1 if db else 1))
        e1, e2 = ((u[0] * p, u[1] * p), (w[0] * q, w[1] * q)) if first_il else ((w[0] * q, w[1] * q), (u[0] * p, u[1] * p))
        if e1[0] * e2[1] - e1[1] * e2[0] < 0:   # flip the inlines
            da = not da
            ia, p = (na - 0.5 if da else -0.5), (-1 if da else 1)
            e1, e2 = ((u[0] * p, u[1] * p), (w[0] * q, w[1] * q)) if first_il else ((w[0] * q, w[1] * q), (u[0] * p, u[1] * p))
        X, Y = at(c, ia, ib)
        n1, n2 = (na, nb) if first_il else (nb, na)
        d1, d2 = (c["da"], c["db"]) if first_il else (c["db"], c["da"])
        g = v.G.full(X, Y, d1, d2, n1, n2, [c["il0"] + ia * c["dil"], c["xl0"] + ib * c["dxl"]] + S, math.atan2(e1[1], e1[0]))
        require(g.il0()[2] == first_il and g.n() == (n1, n2), "first axis or size %r %r", g.il0(), g.n())
    else:
        # crosslines along the first axis, inlines along the second, both from zero
        c.update(il0=0, xl0=0, dil=1, dxl=1, flip=False)
        if c["how"] == "surf":
            c["ang"] = 270.0
        a = math.radians(c["ang"] + 90.0 - 180.0)   # direction of the crosslines
        u, w = vectors(c)
        # inlines are to go left of the crosslines: crosslines point to the right of the inlines
        c["flip"] = True
        u, w = vectors(c)
        rot = math.atan2(w[1], w[0])
        X, Y = at(c, -0.5, -0.5)
        if c["how"] == "rect":
            g = v.G.rect(X, Y, c["db"], c["da"], c["nb"], c["na"], rot)
        else:
            if c["how"] == "surf":
                c["ang"] = 90.0
                X, Y = at(c, -0.5, -0.5)
                rot = 0.0
            g = v.G.surf(X, Y, c["db"] * c["nb"], c["da"] * c["na"], c["nb"] + 1, c["na"] + 1, rot, c["how"] == "rsurf")
        require(g.n() == (c["nb"], c["na"]), "%r cells, expected %r", g.n(), (c["nb"], c["na"]))
    consistent(v, g, c, c["how"])
    return min(c["na"], c["nb"]) > 1, [c["how"]] + labels(c)


@st.composite
def setup(draw):
    c = draw(survey())
    c["ref"] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    return c


def check_setup(c):
    import vsegy as v
    c = dict(c)
    if c["na"] == 1:
        c["dil"] = c["dxl"]
    if c["nb"] == 1:
        c["dxl"] = c["dil"]
    if c["na"] == 1 and c["nb"] == 1:
        return False, ["single trace"]
    if c["na"] == 1:   # a line gets square cells
        c["da"] = c["db"]
    if c["nb"] == 1:
        c["db"] = c["da"]
    if c["na"] == 1 or c["nb"] == 1:
        c["flip"] = True if c["nb"] == 1 or c["na"] == 1 else c["flip"]
    u, w = vectors(c)
    ra, rb = c["ref"][0] % c["na"], c["ref"][1] % c["nb"]
    x, y = at(c, ra, rb)
    il, xl = [c["il0"], c["il0"] + (c["na"] - 1) * c["dil"]], [c["xl0"], c["xl0"] + (c["nb"] - 1) * c["dxl"]]
    D = [u[0] / c["dil"], u[1] / c["dil"], w[0] / c["dxl"], w[1] / c["dxl"]]
    args = ([x, y], [c["il0"] + ra * c["dil"], c["xl0"] + rb * c["dxl"]] + il + xl + [c["dil"], c["dxl"]], D)
    consistent(v, v.G.setup(*args), c, "setup", 1e-5)
    consistent(v, v.G.setup2(*args), c, "setup without ranges", 1e-5)
    return min(c["na"], c["nb"]) > 1, labels(c)


@st.composite
def trc(draw):
    c = draw(survey())
    n = c["na"] * c["nb"]
    c["order"] = draw(st.permutations(range(n)))
    c["lost"] = draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), max_size=n)))
    c["null"] = draw(st.lists(st.integers(0, n), max_size=3))
    c["noise"] = draw(st.sampled_from([0.0, 0.0, 0.01]))
    c["seed"] = draw(st.integers(0, 2**31))
    return c


def check_one(v, c, keep):
    """a single trace"""
    if not keep:
        require(raises(v, v.G.traces, [], False), "a geometry without traces")
        return False, ["no trace"]
    x, y = at(c, keep[0] // c["nb"], keep[0] % c["nb"])
    g, order, table = v.G.traces([[x, y, c["il0"], c["xl0"]]], False)
    # a cell of a decimetre; inlines along the first axis
    consistent(v, g, dict(c, na=1, nb=1, x0=x, y0=y, da=0.1, db=0.1, ang=0.0, flip=False, dil=1, dxl=1), "single trace")
    return False, ["single trace"]


def check_traces(c):
    import vsegy as v
    c = dict(c, nb_=c["nb"])
    keep = [k for k in c["order"] if k not in c["lost"]]
    A, B = sorted({k // c["nb"] for k in keep}), sorted({k % c["nb"] for k in keep})
    if len(keep) < 2:
        return check_one(v, c, keep)
    line = len(A) < 2 or len(B) < 2
    if line:   # a line gets square cells and the same step both ways
        c["noise"] = 0.0
        k = "a" if len(A) > 1 else "b"
        o = "b" if k == "a" else "a"
        c["d" + o], c["n" + o], c["flip"] = c["d" + k], 1, True
        c["dil"] = c["dxl"] = c["dil"] if k == "a" else c["dxl"]
        keep = [q // c["nb_"] if k == "a" else q % c["nb_"] for q in keep]
        A, B = (sorted(keep), [0]) if k == "a" else ([0], sorted(keep))
    # at least three traces off a line
    p = [(k // c["nb"], k % c["nb"]) for k in keep]
    if not line and all((q[0] - p[0][0]) * (r[1] - p[0][1]) == (q[1] - p[0][1]) * (r[0] - p[0][0]) for q in p for r in p):
        return False, ["diagonal"]
    # the survey is that of the lines that occur
    ga = 0
    for a in A:
        ga = math.gcd(ga, a - A[0])
    gb = 0
    for b in B:
        gb = math.gcd(gb, b - B[0])
    ga, gb = ga or gb, gb or ga
    x0, y0 = at(c, A[0], B[0])
    d = dict(c, na=(A[-1] - A[0]) // ga + 1, nb=(B[-1] - B[0]) // gb + 1, il0=c["il0"] + A[0] * c["dil"], xl0=c["xl0"] + B[0] * c["dxl"], dil=c["dil"] * ga, dxl=c["dxl"] * gb, da=c["da"] * ga, db=c["db"] * gb, x0=x0, y0=y0)
    rng = np.random.default_rng(c["seed"])
    t = []
    for k in keep:
        x, y = at(c, k // c["nb"], k % c["nb"])
        e = rng.uniform(-c["noise"], c["noise"], 2)
        t.append([x + e[0], y + e[1], c["il0"] + (k // c["nb"]) * c["dil"], c["xl0"] + (k % c["nb"]) * c["dxl"]])
    for k in c["null"]:
        t.insert(min(k, len(t)), [])
    g, order, table = v.G.traces(t, False)
    consistent(v, g, d, "traces", 1e-5 if not c["noise"] else 30 * c["noise"])
    nx, ny = g.n()
    require(len(order) == nx * ny, "%d places for %d by %d cells", len(order), nx, ny)
    want = [-1] * (nx * ny)
    for k, q in enumerate(t):
        if q:
            i, j = g.index_il(int(q[2]), int(q[3]))
            want[j * nx + i] = k
    require(list(order) == want, "traces %r in the cells, expected %r", order, want)
    for k, (o, q) in enumerate(zip(order, table)):
        require(q == (k if o >= 0 else -1), "trace in cell %d has table index %r", k, q)
    return not line, labels(d) + ["missing" if c["lost"] else "complete", "noise" if c["noise"] else "exact"]


@st.composite
def sub(draw):
    c = draw(survey())
    c["na"], c["nb"] = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    c["s"] = [draw(st.integers(-2, 90)) for _ in range(4)] + [draw(st.sampled_from([-1, 1, 2, 3, 4, 6, 8])), draw(st.sampled_from([-1, 1, 2, 3, 5]))]
    c["mult"] = draw(st.booleans())
    c["t"] = [draw(st.floats(-0.5, 1.5)), draw(st.floats(-0.5, 1.5)), draw(st.floats(0.1, 1.0)), draw(st.floats(0.1, 1.0)), draw(st.one_of(st.sampled_from([0.0, 90.0]), st.floats(0, 360)))]
    return c


def parent(v, c):
    u, w = vectors(c)
    il, xl = [c["il0"], c["il0"] + (c["na"] - 1) * c["dil"]], [c["xl0"], c["xl0"] + (c["nb"] - 1) * c["dxl"]]
    return v.G.setup([c["x0"], c["y0"]], [c["il0"], c["xl0"]] + il + xl + [c["dil"], c["dxl"]], [u[0] / c["dil"], u[1] / c["dil"], w[0] / c["dxl"], w[1] / c["dxl"]])


def check_sub(c):
    import vsegy as v
    c = dict(c)
    c["na"], c["nb"] = max(2, c["na"]), max(2, c["nb"])
    g = parent(v, c)
    lo = [c["il0"], c["xl0"]]
    hi = [c["il0"] + (c["na"] - 1) * c["dil"], c["xl0"] + (c["nb"] - 1) * c["dxl"]]
    st_ = [c["dil"], c["dxl"]]
    s = c["s"]
    r = []
    for k in range(2):
        span = hi[k] - lo[k] + 5
        a, b = sorted((s[2 * k] % span, s[2 * k + 1] % span))
        r += [lo[k] - 2 + a, lo[k] - 2 + b] if s[0] < 20 and s[1] < 20 else [lo[k] + min(a, span - 5), lo[k] + min(b, span - 5)]
    steps = [q if q < 0 or not c["mult"] else q * st_[k] for k, q in enumerate(s[4:6])]
    req = r + steps
    bad = any(r[2 * k + m] < lo[k] or r[2 * k + m] > hi[k] for k in range(2) for m in range(2))
    if bad:
        require(raises(v, g.sub, req), "no error for lines %r outside %r to %r", req, lo, hi)
        return False, ["outside"]
    # the reference: align to lines that exist unless data are interpolated
    q = [steps[k] if steps[k] > 0 else st_[k] for k in range(2)]
    inter = any(q[k] % st_[k] for k in range(2))
    # a reduced range must keep its order
    h, got_inter, aligned = g.sub(req)
    require(got_inter == inter, "interpolation %r for steps %r in data with steps %r", got_inter, q, st_)
    got = h.il()
    ends = []
    for k in range(2):
        mn, mx, sp = got[3 * k:3 * k + 3]
        n = (mx - mn) // q[k] + 1
        one = mn == mx
        require(sp == q[k], "step %d, requested %d", sp, q[k])
        require((mx - mn) % q[k] == 0 and lo[k] <= mn <= mx <= hi[k], "lines %r of the part, requested %r in %r to %r", got, req, lo[k], hi[k])
        require(abs(mn - r[2 * k]) < max(q[k], st_[k]) and abs(mx - r[2 * k + 1]) < q[k] + st_[k], "lines %r of the part, requested %r", got, req)
        if not inter:
            require((mn - lo[k]) % st_[k] == 0, "first line %d of the part is not a line of data starting at %d with step %d", mn, lo[k], st_[k])
        if not inter and (r[2 * k] - lo[k]) % st_[k] == 0 or inter:
            require(mn == r[2 * k], "first line %d, requested %d", mn, r[2 * k])
            if (r[2 * k + 1] - r[2 * k]) % q[k] == 0:
                require(mx == r[2 * k + 1], "last line %d, requested %d", mx, r[2 * k + 1])
        ends.append((mn, mx, n, one))
    changed = any((got[3 * k], got[3 * k + 1]) != (r[2 * k], r[2 * k + 1]) for k in range(2))
    require(aligned == changed or aligned, "part is called unchanged, it has lines %r, requested %r", got, req)
    d = dict(c, na=ends[0][2], nb=ends[1][2], il0=ends[0][0], xl0=ends[1][0], dil=q[0], dxl=q[1], da=c["da"] * q[0] / st_[0], db=c["db"] * q[1] / st_[1])
    d["x0"], d["y0"] = at(c, (ends[0][0] - lo[0]) / st_[0], (ends[1][0] - lo[1]) / st_[1])
    consistent(v, h, d, "part", 1e-5)
    return True, labels(c) + ["interpolated" if inter else "aligned" if aligned else "exact"]


def check_area(c):
    import vsegy as v
    c = dict(c)
    c["na"], c["nb"] = max(2, c["na"]), max(2, c["nb"])
    g = parent(v, c)
    lo = [c["il0"], c["xl0"]]
    hi = [c["il0"] + (c["na"] - 1) * c["dil"], c["xl0"] + (c["nb"] - 1) * c["dxl"]]
    s = c["t"]
    x, y = at(c, s[0] * c["na"] - 0.5, s[1] * c["nb"] - 0.5)
    L = c["na"] * c["da"] + c["nb"] * c["db"]
    a = math.radians(s[4])
    lx, ly = s[2] * L / 2, s[3] * L / 2
    t = v.G.rect(x, y, lx / 4, ly / 4, 4, 4, a)
    r = g.area(t)
    corners = [(x + p * lx * math.cos(a) - q * ly * math.sin(a), y + p * lx * math.sin(a) + q * ly * math.cos(a)) for p in (0, 1) for q in (0, 1)]
    num = [g.cont_ilxl(*p) for p in corners]
    lab = []
    for k in range(2):
        mn, mx = min(q[k] for q in num), max(q[k] for q in num)
        if mx < lo[k] or mn > hi[k]:
            lab.append("outside")
            continue
        dst = (c["dil"], c["dxl"])[k]
        require(r[4 + k] == dst, "step %d, in the data %d", r[4 + k], dst)
        require(lo[k] <= r[2 * k] <= r[2 * k + 1] <= hi[k], "lines %r of an area, data have %r to %r", r, lo[k], hi[k])
        require((r[2 * k] - lo[k]) % dst == 0 and (r[2 * k + 1] - lo[k]) % dst == 0, "lines %r of an area are not lines of the data starting at %d with step %d", r, lo[k], dst)
        # lines that cover the area, and not more than that
        e = 1e-6
        require(r[2 * k] <= max(lo[k], mn + e) and r[2 * k + 1] >= min(hi[k], mx - e), "lines %r do not cover an area from %r to %r", r, mn, mx)
        require(r[2 * k] >= min(hi[k], max(lo[k], mn - dst - e)) and r[2 * k + 1] <= max(lo[k], min(hi[k], mx + dst + e)), "lines %r cover more than an area from %r to %r", r, mn, mx)
        lab.append("covered" if mn >= lo[k] and mx <= hi[k] else "partly outside")
    return "outside" not in lab, lab


@st.composite
def skewed(draw):
    """survey whose crosslines are turned by a small angle from the right angle with the inlines"""
    c = {"na": draw(st.integers(2, 24)), "nb": draw(st.integers(2, 24)), "il0": draw(st.integers(1, 5000)), "xl0": draw(st.integers(1, 5000)), "dil": draw(st.sampled_from([1, 1, 1, 2, 3])), "dxl": draw(st.sampled_from([1, 1, 1, 2, 4])),
         "x0": draw(st.sampled_from([0.0, 1000.0, 458000.0])), "y0": draw(st.sampled_from([0.0, -500.0, 6780000.0])), "da": draw(st.sampled_from([12.5, 25.0, 18.75])), "db": draw(st.sampled_from([12.5, 25.0, 37.5])),
         "ang": draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), st.integers(0, 359).map(float), st.floats(0, 360).map(lambda a: round(a, 6)))), "flip": draw(st.booleans())}
    shift = draw(st.sampled_from([0.02, 0.2, 0.4, 0.5, 0.6, 0.7, 0.9, 1.3])) * draw(st.sampled_from([1, -1]))
    c["skew"] = round(max(-0.5, min(0.5, shift * min(c["da"], c["db"]) / max(c["da"] * (c["na"] - 1), c["db"] * (c["nb"] - 1)))), 9)
    c["corner"] = draw(st.integers(0, 3))
    c["seed"] = draw(st.integers(0, 9999))
    c["miss"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    return c


def turn(p, a):
    return (p[0] * math.cos(a) - p[1] * math.sin(a), p[0] * math.sin(a) + p[1] * math.cos(a))


def check_skewed(c):
    import vsegy as v
    u, w = vectors(c)
    w = turn(w, c["skew"])
    d = c["skew"]
    na, nb = c["na"], c["nb"]
    fa, fb = (0, na - 1)[c["corner"] % 2], (0, nb - 1)[c["corner"] // 2]   # the first trace is this corner
    rng = np.random.default_rng(c["seed"])
    cells = [(a, b) for a in range(na) for b in range(nb)]
    cells = [cells[k] for k in rng.permutation(len(cells))] if c["seed"] % 3 else cells
    keep = {(0, 0), (0, nb - 1), (na - 1, 0), (na - 1, nb - 1)}
    cells = [q for q in cells if q in keep or 0 in q or rng.random() >= c["miss"]]   # no line is empty
    cells = [(fa, fb)] + [q for q in cells if q != (fa, fb)]
    num = lambda a, b: (c["il0"] + a * c["dil"], c["xl0"] + b * c["dxl"])
    pos = lambda a, b: (c["x0"] + a * u[0] + b * w[0], c["y0"] + a * u[1] + b * w[1])
    t = [list(pos(a, b)) + list(num(a, b)) for a, b in cells]

    def offset(s, a, b):
        """trace at a, b less its place when the inlines take s of the turn"""
        p, q = turn(u, s * d), turn(w, (s - 1) * d)
        a, b = a - fa, b - fb
        return (a * (u[0] - p[0]) + b * (w[0] - q[0]), a * (u[1] - p[1]) + b * (w[1] - q[1]))
    # of the corners, the opposite one counts and one of the others
    ends = lambda s: [math.hypot(*offset(s, a, b)) for a, b in ((na - 1 - fa, nb - 1 - fb), (na - 1 - fa, fb), (fa, nb - 1 - fb))]
    far = [lambda s, k=k: max(ends(s)[0], ends(s)[k]) for k in (1, 2)]
    most = lambda s: max(math.hypot(*offset(s, a, b)) for a in (0, na - 1) for b in (0, nb - 1))
    lim = [min(abs(u[k] / c["dil"]), abs(w[k] / c["dxl"])) / 3 for k in (0, 1)]
    first = [max(abs(offset(0.0, a, b)[k]) for a, b in ((na - 1 - fa, nb - 1 - fb), (na - 1 - fa, fb), (fa, nb - 1 - fb))) for k in (0, 1)]
    opp = [abs(offset(0.0, na - 1 - fa, nb - 1 - fb)[k]) for k in (0, 1)]
    lo = 0.5 * min(c["da"] / c["dil"], c["db"] / c["dxl"])
    hi = 0.5 * min(c["da"], c["db"])
    best = [min(f(s / 10) for s in range(11)) for f in far]
    cand = [s / 100 for s in range(101) if any(f(s / 100) <= m * 1.0001 + 1e-6 for f, m in zip(far, best))]
    try:
        g = v.G.traces(t, True)[0]
    except v.Exc as e:
        g = None
        require("trace" in str(e), "making a regular geometry of the survey failed with %s", e)
    if max(first[0] - 0.999 * lim[0], first[1] - 0.999 * lim[1]) <= 0:
        # close to right angles already: as if nothing was asked for
        try:
            h = v.G.traces(t, False)[0]
        except v.Exc:
            h = None
        require((g is None) == (h is None) and (g is None or (g.geo() == h.geo() and g.steps() == h.steps() and g.n() == h.n() and g.il() == h.il())), "a survey with a mismatch within the limit is changed, or not accepted, when a regular geometry is asked for")
        return True, ["within the limit"]
    if max(opp[0] - 1.001 * lim[0], opp[1] - 1.001 * lim[1]) <= 0 or max(opp) < 1e-3:
        return False, []
    if min(most(s) for s in cand) > 1.01 * hi + 1e-3:
        require(g is None, "a survey that is %g from any regular one, with lines at %g and %g, is accepted", min(most(s) for s in cand), c["da"], c["db"])
        return True, ["too far"]
    if g is None:
        require(max(most(s) for s in cand) > 0.99 * lo - 1e-3, "no regular geometry is found though all traces are within %g of one, with lines at %g and %g", max(most(s) for s in cand), c["da"], c["db"])
        return True, ["not accepted"]
    # right angles, the same line distances, and as close to the survey as any of eleven directions
    ref = np.array(pos(fa, fb))
    p0 = np.array(g.xy_il(*num(fa, fb)))
    require(np.hypot(*(p0 - ref)) <= 1e-5, "the first trace, at %r, is put at %r", tuple(ref), tuple(p0))
    p1, p2 = np.array(g.xy_il(*num(na - 1 - fa, fb))), np.array(g.xy_il(*num(fa, nb - 1 - fb)))
    q1 = (p1 - p0) / (na - 1 - 2 * fa)
    q2 = (p2 - p0) / (nb - 1 - 2 * fb)
    require_close([np.hypot(*q1), np.hypot(*q2)], [c["da"], c["db"]], "distances between lines in the regular geometry", 1e-7)
    require(abs(np.dot(q1, q2)) <= 1e-6 * c["da"] * c["db"], "lines %r and %r of a regular geometry are not at right angles", tuple(q1), tuple(q2))
    require((q1[0] * q2[1] - q1[1] * q2[0] > 0) == (u[0] * w[1] - u[1] * w[0] > 0), "the regular geometry is a mirror image")
    o = math.atan2(u[0] * q1[1] - u[1] * q1[0], u[0] * q1[0] + u[1] * q1[1]) / d
    require(-1e-3 <= o <= 1.001, "inlines are turned %g of the angle between them and the right angle", o)
    require(any(f(o) <= m * 1.0001 + 1e-4 for f, m in zip(far, best)), "the corners of the regular geometry are %r from the traces, %r can be had", ends(o), best)
    for k in range(0, len(cells), 7):
        a, b = cells[k]
        f = offset(o, a, b)
        e = np.array(t[k][:2]) - f
        p = np.array(g.xy_il(*num(a, b)))
        require(np.hypot(*(p - e)) <= 1e-4, "line %r of the regular geometry is at %r, expected %r", num(a, b), tuple(p), tuple(e))
    n = g.n()
    require(sorted(n) == sorted((na, nb)), "%r cells for %d by %d lines", n, na, nb)
    return True, ["made regular", "quadrant %d" % (c["ang"] // 90)]


PROP = Prop("C25", [{"shim": "vsegy", "mods": ["segy", "stormgrid", "volume", "surface", "iotools", "exception", "math", "geometry", "grid"], "asan": False}], [
    Sub("made", made, check_made, 2500, 20000, shards=1, rule="two inlines and two crosslines"),
    Sub("setup", setup, check_setup, 2500, 20000, shards=1, rule="two inlines and two crosslines"),
    Sub("traces", trc, check_traces, 4000, 20000, shards=2, rule="traces that are not on a line"),
    Sub("regular", skewed, check_skewed, 1500, 12000, shards=1, rule="the corner mismatch is judged by the limit"),
    Sub("part", sub, check_sub, 2500, 20000, shards=1, rule="requested lines are in the data"),
    Sub("area", sub, check_area, 2500, 20000, shards=1, rule="the area overlaps the lines"),
], RULE, [
    "regular surveys with inlines and crosslines at right angles, at most nine of each; inline and crossline numbers are integers that increase with constant steps",
    "coordinates of traces deviate at most a centimetre from the regular survey",
])
