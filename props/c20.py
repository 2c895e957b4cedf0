"""C20: volumes and STORM grids (continuous and facies)."""
import math, os, shutil, struct, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Volumes with any position, rotation and top and bottom surfaces, histories of changes to them, points given relative to the volume, and grids with missing cells in them; files written by the library are "
        "parsed by the check and read back, files written by the check are read. Non-trivial: a rotated volume or one with surfaces that are not constant, with at least two operations; a grid with at least four cells.")

pos = st.one_of(st.integers(-40, 40).map(lambda k: k / 4), st.sampled_from([458000.0, 6781000.25]), gen.nice(-1000, 1000, 3))
leng = st.one_of(st.sampled_from([1.0, 10.0, 2500.0]), gen.nice(0.5, 900, 2))
ang = st.one_of(st.sampled_from([0.0, 0.0, math.pi / 2, math.pi / 4, -math.pi / 6, math.pi]), gen.nice(-3.2, 3.2, 4))
zval = st.one_of(st.integers(-40, 40).map(lambda k: k / 4), gen.nice(-900, 3000, 2))
MISS = -999.0


@st.composite
def geo(draw):
    return {"x": draw(pos), "y": draw(pos), "lx": draw(leng), "ly": draw(leng), "ang": draw(ang)}


@st.composite
def surf(draw, rot=True, miss=True):
    """Constant, or nodes over an area given relative to the bounding box of the volume."""
    if draw(st.integers(0, 2)) == 0:
        return {"c": draw(zval)}
    ni, nj = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    v = draw(st.lists(st.integers(-40, 40).map(float), min_size=ni * nj, max_size=ni * nj))
    z0 = draw(st.sampled_from([0.0, 0.0, 100.0, 2000.0]))
    v = [z0 + q for q in v]
    if miss and draw(st.integers(0, 4)) == 0:
        v[draw(st.integers(0, ni * nj - 1))] = MISS
    cov = draw(st.integers(0, 5))   # 0: smaller than the volume, 1: equal to the bounding box, otherwise larger
    return {"n": [ni, nj], "v": v, "cov": cov, "ang": draw(gen.nice(-3, 3, 2)) if rot and draw(st.integers(0, 3)) == 0 else None}


def box(g):
    c, s = math.cos(g["ang"]), math.sin(g["ang"])
    X = [g["x"] + c * u - s * v for u in (0, g["lx"]) for v in (0, g["ly"])]
    Y = [g["y"] + s * u + c * v for u in (0, g["lx"]) for v in (0, g["ly"])]
    return min(X), max(X), min(Y), max(Y)


def spec(s, g):
    """Numbers for the shim, and whether it covers the volume (None: on the edge)."""
    if "c" in s:
        return [s["c"]], True
    X0, X1, Y0, Y1 = box(g)
    m = {0: -0.2, 1: 0.0, 2: 0.01, 3: 0.2, 4: 1.0, 5: 0.37}[s["cov"]]
    a, b, w, h = X0 - m * (X1 - X0), Y0 - m * (Y1 - Y0), (X1 - X0) * (1 + 2 * m), (Y1 - Y0) * (1 + 2 * m)
    if s["ang"] is not None and m > 0:   # the rotated rectangle around the same centre
        c, t = math.cos(s["ang"]), math.sin(s["ang"])
        cx, cy, r = a + w / 2, b + h / 2, math.hypot(w, h)
        a, b = cx - (c * r - t * r) / 2, cy - (t * r + c * r) / 2
        return [a, b, r, r] + s["n"] + [s["ang"]] + s["v"], True
    return [a, b, w, h] + s["n"] + [math.nan] + s["v"], None if m == 0 else m > 0


# ------------------------------------------------------------------ volumes
OPS = ["dims", "angle", "set2", "set2", "set4", "own2", "own4", "copy", "assign", "tol"]


@st.composite
def vol(draw):
    ops = [{"op": draw(st.sampled_from(OPS)), "g": draw(geo()), "t": draw(surf()), "b": draw(surf()), "et": draw(surf()), "eb": draw(surf()), "chk": draw(st.integers(-1, 1)), "k": draw(st.integers(0, 3)), "tol": draw(st.sampled_from([1e-6, 0.5, 3.0]))}
           for _ in range(draw(st.integers(0, 4)))]
    return {"g": draw(geo()), "ctor": draw(st.integers(0, 2)), "z": draw(zval), "lz": draw(gen.nice(0, 300, 2)), "t": draw(surf()), "b": draw(surf()), "ops": ops, "n": draw(st.tuples(st.integers(1, 5), st.integers(1, 5))),
            "p": draw(st.lists(st.tuples(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), gen.nice(-0.5, 1.5, 4)), st.one_of(st.sampled_from([0.0, 1.0]), gen.nice(-0.5, 1.5, 4)), gen.nice(-0.5, 1.5, 3)), min_size=1, max_size=4)), "q": draw(surf())}


def raises(vvol, f, *a):
    try:
        f(*a)
    except (vvol.Exc, vvol.IOErr, vvol.FormatErr):
        return True
    return False


def xyof(g, u, v):
    c, s = math.cos(g["ang"]), math.sin(g["ang"])
    return g["x"] + c * u - s * v, g["y"] + s * u + c * v


def check_geo(vvol, v, g, srf, lz, c, tol):
    G = v.geo()
    require(list(G[:5]) == [g["x"], g["y"], g["lx"], g["ly"], g["ang"]], "volume is %s, expected %s", G, g)
    require(v.tol() == tol, "tolerance %s, expected %s", v.tol(), tol)
    X0, X1, Y0, Y1 = box(g)
    sc = 1e-9 * (1 + max(map(abs, (X0, X1, Y0, Y1))))
    if lz is not None:
        require(G[5] == lz, "height %s, expected %s", G[5], lz)
    else:
        lo, hi, step, miss = v.thick(401)
        ub = max(0.0, hi)
        require(G[5] >= 0, "negative height %s", G[5])
        if not miss:
            t2 = v.thick(101)
            require(G[5] <= ub + step * 2 + 1e-9 * abs(hi) + 1e-9, "height %s but the thickness is nowhere above %s", G[5], hi)
            require(G[5] >= ub - 4 * t2[2] - 1e-9 * abs(hi) - 1e-9, "height %s but the thickness gets to %s", G[5], hi)
        elif lo <= hi:
            require(G[5] <= ub + step * 60 + 1e-9, "height %s but the thickness is nowhere above %s", G[5], hi)
    for nm, s in srf.items():
        if s is None:
            continue
        for u, w, _ in c["p"]:
            x, y = xyof(g, u * g["lx"], w * g["ly"])
            e = vvol.surf(s, x, y)[0]
            got = getattr(v, nm)(x, y)
            got = got[0] if isinstance(got, tuple) else got
            require(got == e, "surface %s is %s at (%s, %s), expected %s", nm, got, x, y, e)
            if nm in ("top", "bot"):
                require(getattr(v, nm + "_nc")(x, y) == e, "surface %s of a variable volume", nm)
    # extremes on a lattice of cell centres
    nx, ny = c["n"]
    amb = False
    ex = []
    for s in (srf["top"], srf["bot"]):
        zs = []
        for i in range(nx):
            for j in range(ny):
                x, y = xyof(g, (i + .5) * g["lx"] / nx, (j + .5) * g["ly"] / ny)
                near = {vvol.surf(s, x + a, y + b) for a in (-sc, 0, sc) for b in (-sc, 0, sc)}
                if len({q[1] for q in near}) > 1 or max(q[0] for q in near) - min(q[0] for q in near) > 1e-3:
                    amb = True
                z, mi = vvol.surf(s, x, y)
                if not mi:
                    zs.append(z)
        ex += [min(zs), max(zs)] if zs else [None, None]
    if not amb and None not in ex:
        require_close(list(v.ext(nx, ny)), ex + [ex[0], ex[3]], "extremes with resolution %d x %d" % (nx, ny), 1e-7, 1e-5)
    # points
    for u, w, h in c["p"]:
        x, y = xyof(g, u * g["lx"], w * g["ly"])
        require_close(list(v.rel(u, w)), [x, y], "position of relative coordinates (%s, %s)" % (u, w), 1e-12, 1e-9)
        m = min(u * g["lx"], (1 - u) * g["lx"], w * g["ly"], (1 - w) * g["ly"])   # distance to the edge, positive inside
        if abs(m) > sc:
            require(v.is_in(x, y) == (m > 0), "(%s, %s) at relative (%s, %s): inside is %s", x, y, u, w, v.is_in(x, y))
        if abs(m + tol) > sc:
            require(v.is_tol(x, y) == (m > -tol), "(%s, %s) at relative (%s, %s): inside with tolerance %s is %s", x, y, u, w, tol, v.is_tol(x, y))
        zt, mt = vvol.surf(srf["top"], x, y)
        zb, mb = vvol.surf(srf["bot"], x, y)
        if abs(m) > sc and not mt and not mb:
            z = zt + h * (zb - zt)
            if abs(z - zt) > 1e-6 and abs(z - zb) > 1e-6:
                require(v.is_in3(x, y, z) == (m > 0 and zt < z < zb), "(%s, %s, %s) between %s and %s: inside is %s", x, y, z, zt, zb, v.is_in3(x, y, z))
            for tz in (0.7, 5.0):
                if abs(z - zt + tz) > 1e-6 and abs(z - zb - tz) > 1e-6:
                    require(v.is_ztol(x, y, z, tz) == (m > 0 and zt - tz < z < zb + tz), "(%s, %s, %s) between %s and %s: inside with tolerance %s is %s", x, y, z, zt, zb, tz, v.is_ztol(x, y, z, tz))
    x, y = xyof(g, g["lx"] / 2, g["ly"] / 2)
    zt, mt = vvol.surf(srf["top"], x, y)
    zb, mb = vvol.surf(srf["bot"], x, y)
    X, Y, Z = v.center()
    require_close([X, Y], [x, y], "centre", 1e-12, 1e-9)
    if not mt and not mb and all(abs(vvol.surf(s, x + a, y + b)[0] - z) < 1e-4 for s, z in ((srf["top"], zt), (srf["bot"], zb)) for a in (-sc, sc) for b in (-sc, sc)):
        require(abs(Z - (zt + zb) / 2) <= 1e-4, "depth %s of the centre, expected %s", Z, (zt + zb) / 2)
    q, cov = spec(c["q"], g)
    if cov is not None:
        require(v.check(q) == cov, "surface %s covers volume %s: %s", q[:7], g, v.check(q))


def check_vol(c):
    import vvol
    g = dict(c["g"])
    tol = 1e-6
    z = [c["z"]]
    if c["ctor"] == 0:
        v = vvol.V()
        require(list(v.geo()) == [0.0] * 6, "new volume is %s", v.geo())
        v.dims(g["x"], g["y"], g["lx"], g["ly"])
        v.set_angle(g["ang"])
        srf, lz = {"top": [0.0], "bot": [0.0]}, None
    elif c["ctor"] == 1:
        v = vvol.V(g["x"], g["y"], c["z"], g["lx"], g["ly"], c["lz"], g["ang"])
        srf, lz = {"top": z, "bot": [c["z"] + c["lz"]]}, c["lz"]
    else:
        srf, lz = {"top": spec(c["t"], g)[0], "bot": spec(c["b"], g)[0]}, None
        v = vvol.V.surf(g["x"], g["y"], g["lx"], g["ly"], srf["top"], srf["bot"], g["ang"])
    srf["etop"] = srf["ebot"] = None
    check_geo(vvol, v, g, srf, lz, c, tol)

    def covers(sp):
        """None when too close to tell."""
        if sp is None or len(sp) == 1:
            return True
        X0, X1, Y0, Y1 = box(g)
        a, b, w, h, _, _, an = sp[:7]
        if math.isnan(an):
            an = 0.0
        A, Bx, C, D = box({"x": a, "y": b, "lx": w, "ly": h, "ang": an})
        d = [X0 - A, Bx - X1, Y0 - C, D - Y1]
        e = 1e-9 * (1 + abs(X0) + abs(Y0) + w + h)
        return False if min(d) < -e else True if min(d) > e else None

    n = 0
    for o in c["ops"]:
        k = o["op"]
        n += 1
        if k in ("dims", "angle"):
            old = dict(g)
            g = dict(o["g"], ang=g["ang"]) if k == "dims" else dict(g, ang=o["g"]["ang"])
            if k == "dims" and o["chk"] < 0:   # a small move, which the surfaces may survive
                g = dict(old, x=old["x"] + 0.001 * old["lx"])
            cv = [covers(srf[q]) for q in ("top", "bot", "etop", "ebot")]
            bad = raises(vvol, *((v.dims, g["x"], g["y"], g["lx"], g["ly"]) if k == "dims" else (v.set_angle, g["ang"])))
            if all(q is not None for q in cv):
                require(bad == (not all(cv)), "change to %s with surfaces that %s it: %s", g, "cover" if all(cv) else "do not cover", "refused" if bad else "done")
            if bad:
                return n >= 2, ["refused"]
            lz = None
        elif k == "set2":
            (t, ct), (b, cb) = spec(o["t"], g), spec(o["b"], g)
            et = covers(srf["etop"]), covers(srf["ebot"])
            bad = raises(vvol, v.set2, t, b, o["chk"])
            if o["chk"] <= 0:
                require(not bad, "surfaces refused without a check")
            else:
                cv = [ct, cb, *et]
                if all(q is not None for q in cv):
                    require(bad == (not all(cv)), "surfaces that %s the volume: %s", "cover" if all(cv) else "do not cover", "refused" if bad else "set")
            if bad:
                return n >= 2, ["refused"]
            srf.update(top=t, bot=b)
            lz = None
        elif k == "set4":
            S = [spec(o[q], g) for q in ("t", "b", "et", "eb")]
            bad = raises(vvol, v.set4, *[q[0] for q in S])
            cv = [q[1] for q in S]
            if all(q is not None for q in cv):
                require(bad == (not all(cv)), "four surfaces that %s the volume: %s", "cover" if all(cv) else "do not cover", "refused" if bad else "set")
            if bad:
                return n >= 2, ["refused"]
            srf = dict(zip(("top", "bot", "etop", "ebot"), [q[0] for q in S]))
            lz = None
        elif k == "own2":
            a, b = o["k"] & 1, o["k"] >> 1
            v.own2(a, b)
            srf.update(top=srf["bot"] if a else srf["top"], bot=srf["bot"] if b else srf["top"])
            lz = None
        elif k == "own4":
            if srf["etop"] is None:
                continue
            a, b = o["k"] & 1, o["k"] >> 1
            cv = [covers(srf[q]) for q in srf]
            if not all(cv):
                continue
            v.own4(a, b)
            srf.update(etop=srf["ebot"] if a else srf["etop"], ebot=srf["ebot"] if b else srf["etop"])
            lz = None
        elif k == "copy":
            w = v
            v = v.vcopy()
            w.set2([1e5], [2e5], 0)
            w.set_tol(77.0)
            w = None
        elif k == "assign":
            w = vvol.V(1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 0.7)
            if o["k"] & 1:
                w.set4([1.0], [2.0], [3.0], [4.0])
            w.vassign(v)
            v.set2([1e5], [2e5], 0)
            v = w
            v.vassign(v)
        else:
            v.set_tol(o["tol"])
            tol = o["tol"]
        check_geo(vvol, v, g, srf, lz, c, tol)
    return n >= 2 and (g["ang"] != 0 or any(s and len(s) > 1 for s in srf.values())), ["ops%d" % n]


# ------------------------------------------------------------------ grids
@st.composite
def grid(draw):
    n = [draw(st.integers(1, 4)) for _ in range(3)]
    N = n[0] * n[1] * n[2]
    t, th = draw(surf(miss=False)), draw(st.sampled_from(["const", "const", "surf", "zero"]))
    for q in (t,):
        if "cov" in q:
            q["cov"] = max(2, q["cov"])
    b = draw(surf(miss=False))
    if "cov" in b:
        b["cov"] = max(2, b["cov"])
    coord = lambda m: st.one_of(st.integers(0, 2 * m).map(lambda k: k / 2), gen.nice(-0.7, m + 0.7, 3), gen.nice(0, m, 3))
    return {"g": draw(geo()), "t": t, "b": b, "th": th, "dz": draw(st.sampled_from([1.0, 7.5, 100.0])), "n": n, "v": draw(st.lists(st.integers(-50, 50), min_size=N, max_size=N)), "miss": draw(st.lists(st.integers(0, N - 1), max_size=4)),
            "mc": draw(st.sampled_from([-999.0, -999.0, 1e30, -999.25, 12345.5])), "ctor": draw(st.integers(0, 3)), "re": draw(st.booleans()),
            "p": draw(st.lists(st.tuples(coord(n[0]), coord(n[1]), coord(n[2])), min_size=2, max_size=6))}


def surfaces(c, g):
    """Specs for top and bottom with the bottom below the top."""
    t = spec(c["t"], g)[0]
    if c["th"] == "surf":
        b = spec(c["b"], g)[0]
        lift = 60.0 + (max(t[7:]) if len(t) > 1 else t[0]) - (min(b[7:]) if len(b) > 1 else b[0])
        b = [b[0] + lift] if len(b) == 1 else b[:7] + [q + lift for q in b[7:]]
    else:
        d = c["dz"] if c["th"] == "const" else 0.0
        b = [t[0] + d] if len(t) == 1 else t[:7] + [q + d for q in t[7:]]
    return t, b


def smooth(vvol, s, x, y, e):
    """Value at (x, y), None when it changes much within e."""
    z, m = vvol.surf(s, x, y)
    q = [vvol.surf(s, x + a, y + b) for a in (-e, e) for b in (-e, e)]
    if m or any(k[1] for k in q) or max(abs(k[0] - z) for k in q) > 1e-5:
        return None
    return z


def probe(vvol, c, G, g, t, b, facies):
    ni, nj, nk = c["n"]
    dx, dy = g["lx"] / ni, g["ly"] / nj
    sc = 1e-9 * (1 + max(map(abs, box(g))))
    require_close(list(G.d()), [dx, dy], "cell size", 1e-12)
    for i in range(ni):
        for j in range(nj):
            for k in range(nk):
                x, y = xyof(g, (i + .5) * dx, (j + .5) * dy)
                zt, zb = smooth(vvol, t, x, y, sc), smooth(vvol, b, x, y, sc)
                X, Y, Z = G.cent(i, j, k)
                require_close([X, Y], [x, y], "centre of cell (%d, %d, %d)" % (i, j, k), 1e-12, 1e-9)
                if zt is None or zb is None:
                    continue
                require(abs(Z - (zt + (k + .5) * (zb - zt) / nk)) <= 1e-4, "depth of the centre of cell (%d, %d, %d): %s between %s and %s", i, j, k, Z, zt, zb)
                if zb - zt > 1e-3:
                    require(tuple(G.find(X, Y, Z)) == (i, j, k, i + ni * (j + nj * k)), "cell at the centre of (%d, %d, %d): %s", i, j, k, G.find(X, Y, Z))
    out = 0
    for u, v, w in c["p"]:
        x, y = xyof(g, u * dx, v * dy)
        e = 1e-9 + sc / min(dx, dy)
        edge = min(abs(u - round(u)), abs(v - round(v))) <= e
        zt, mt = vvol.surf(t, x, y)
        zb, mb = vvol.surf(b, x, y)
        if mt or mb:
            continue
        inside = 0 < u < ni and 0 < v < nj
        z = zt + w * (zb - zt) / nk if w < nk else zb if w == nk else zb + (w - nk) * (zb - zt) / nk
        if w == nk:
            z = zb
        if edge:
            continue
        i, j = int(math.floor(u)), int(math.floor(v))
        if not inside:
            require(raises(vvol, G.find, x, y, z), "cell %s found for a point outside the grid, cell coordinates (%s, %s)", None, u, v)
            if not facies:
                require(raises(vvol, G.findxy, x, y), "column found for a point outside the grid, cell coordinates (%s, %s)", u, v)
                require(G.closest(x, y, z) == c["mcv"], "value %s outside the grid", G.closest(x, y, z))
                require(raises(vvol, G.zinterp, x, y, z), "value found for a point outside the grid, cell coordinates (%s, %s)", u, v)
            out += 1
            continue
        if not facies:
            require(tuple(G.findxy(x, y)) == (i, j), "column %s at cell coordinates (%s, %s)", G.findxy(x, y), u, v)
        th = zb - zt
        if th > 1e-3:
            wk = (z - zt) / th * nk
            if w < 0 or w > nk:
                require(raises(vvol, G.find, x, y, z), "cell %s found for a depth %s outside %s to %s", None, z, zt, zb)
            elif w == nk or w == 0 or abs(wk - round(wk)) > 1e-7:
                k = min(int(math.floor(w)), nk - 1)
                require(tuple(G.find(x, y, z)) == (i, j, k, i + ni * (j + nj * k)), "cell %s at cell coordinates (%s, %s, %s)", G.find(x, y, z), u, v, w)
        else:
            if th == 0:
                require(tuple(G.find(x, y, zt)) == (i, j, 0, i + ni * j), "cell %s in a column without thickness", G.find(x, y, zt))
            continue
        if facies:
            continue
        col = [float(c["A"][i, j, k]) for k in range(nk)]
        ms = [q == c["mcv"] for q in col]
        s = min(max(wk - .5, 0.0), nk - 1.0)
        k1 = min(int(math.floor(s)), nk - 1)
        k2 = min(k1 + 1, nk - 1)
        f = s - k1
        if f == 0:
            k2 = k1
        if 1e-7 < f < 1 - 1e-7 or s in (0.0, nk - 1.0):
            lin = col[k1] * (1 - f) + col[k2] * f
            miss1, miss2 = ms[k1], ms[k2]
            ev = lin if not (miss1 or miss2) else col[k2] if miss1 else col[k1]
            require(abs(G.zinterp(x, y, z) - ev) <= 1e-3 + 1e-6 * abs(ev), "value %s at layer coordinate %s of %s (missing %s)", G.zinterp(x, y, z), wk, col, c["mcv"])
            a, bnm = G.zidx(x, y, z)
            require(abs(a - ev) <= 1e-3 + 1e-6 * abs(ev), "value %s from the indices at layer coordinate %s of %s", a, wk, col)
            if not (miss1 or miss2):
                require(abs(bnm - lin) <= 1e-3, "value %s (no missing) at layer coordinate %s of %s", bnm, wk, col)
                require(abs(G.closest(x, y, z) - lin) <= 1e-3, "closest value %s at layer coordinate %s of %s", G.closest(x, y, z), wk, col)
    return out


def make(vvol, c):
    g = c["g"]
    t, b = surfaces(c, g)
    ni, nj, nk = c["n"]
    mc = float(np.float32(c["mc"]))
    vals = [float(q) for q in c["v"]]
    for k in c["miss"]:
        vals[k] = mc
    V = vvol.V.surf(g["x"], g["y"], g["lx"], g["ly"], t, b, g["ang"])
    if c["ctor"] == 0:
        G = vvol.CG(V, ni, nj, nk)
        require(G.vals() == [-999.0] * len(vals), "new grid has %s", G.vals())
        G.setv(vals)
    elif c["ctor"] == 1:
        G = vvol.CG.filled(V, ni, nj, nk, 2.5)
        require(G.vals() == [2.5] * len(vals), "new grid has %s", G.vals())
        G.setv(vals)
    elif c["ctor"] == 2:
        G = vvol.CG.grid(V, ni, nj, nk, vals)
    else:
        G = vvol.CG(ni, nj, nk, 2.5)
        require(G.vals() == [2.5] * len(vals), "new grid has %s", G.vals())
        G.dims(g["x"], g["y"], g["lx"], g["ly"])
        G.set_angle(g["ang"])
        G.set2(t, b, -1)
        G.setv(vals)
    require(G.mc() == -999.0 and G.zone() == 0 and not G.ascii() and G.model() == "ModelFile" and G.var() == "UNKNOWN", "defaults of a new grid")
    G.set_mc(mc)
    c["mcv"] = mc
    c["A"] = np.array(vals).reshape((ni, nj, nk), order="F")
    return G, g, t, b


def check_cont(c):
    import vvol
    G, g, t, b = make(vvol, c)
    ni, nj, nk = c["n"]
    if c["re"]:
        H = G.copy()
        G.setv([0.0] * len(c["v"]))
        G = vvol.CG()
        G.assign(H)
    require(list(G.geo())[:5] == [g["x"], g["y"], g["lx"], g["ly"], g["ang"]], "geometry of the grid")
    require(tuple(G.n()) == (ni, nj, nk, ni * nj * nk), "size of the grid")
    lo, hi, st_, _ = G.thick(201)
    lz = G.geo()[5]
    require(max(0.0, lo) - st_ - 1e-6 <= lz <= max(0.0, hi) + st_ + 1e-6, "height %s, thickness from %s to %s", lz, lo, hi)
    out = probe(vvol, c, G, g, t, b, False)
    mc = c["mcv"]
    for k in range(nk):
        for f in (0.0, 0.25, 0.5):
            q = k + f
            if q > nk - 1:
                continue
            i, j = (k + 1) % ni, (k + 2) % nj
            a, bb = float(c["A"][i, j, k]), float(c["A"][i, j, min(k + 1, nk - 1)])
            e = mc if a == mc else a if bb == mc else a * (1 - f) + bb * f
            require(abs(G.interp(i, j, q) - e) <= 1e-4 + 1e-6 * abs(e), "value %s interpolated at layer %s of (%d, %d): %s and %s", G.interp(i, j, q), q, i, j, a, bb)
    require(G.is_missing(mc) and not G.is_missing(0.5), "missing code")
    sc = 1e-9 * (1 + max(map(abs, box(g))))
    zs = []
    for i in range(ni):
        for j in range(nj):
            x, y = xyof(g, (i + .5) * g["lx"] / ni, (j + .5) * g["ly"] / nj)
            zs.append((smooth(vvol, t, x, y, sc), smooth(vvol, b, x, y, sc)))
    if all(p is not None and q is not None for p, q in zs):
        require_close([G.zmin(), G.zmax()], [min(p for p, q in zs), max(q for p, q in zs)], "depth range", 1e-7, 1e-4)
        if lz > 0:
            require_close(G.avgrel(), float(np.mean([(q - p) / lz for p, q in zs])), "mean relative thickness", 1e-6, 1e-6)
    return ni * nj * nk >= 4, [c["th"], "out" if out else "in"]


# ------------------------------------------------------------------ files
@st.composite
def cfile(draw):
    d = draw(grid())
    for q in ("t", "b"):
        if "ang" in d[q]:
            d[q]["ang"] = None
            d[q]["cov"] = draw(st.sampled_from([1, 2, 3, 4]))
    g = d["g"]
    if draw(st.booleans()):
        g["ang"] = 0.0
        g["x"], g["y"], g["lx"], g["ly"] = (round(g[k] * 4) / 4 + (0.25 if k[0] == "l" else 0) for k in ("x", "y", "lx", "ly"))
    else:
        for q in ("t", "b"):
            if "cov" in d[q]:
                d[q]["cov"] = max(2, d[q]["cov"])
    if d["th"] == "zero":
        d["th"] = "const"
    d.update(le=draw(st.booleans()), asc=draw(st.booleans()), zone=draw(st.integers(0, 40)), model=draw(st.sampled_from(["m", "a/b.c", "Model-1"])), var=draw(st.sampled_from(["PORO", "x", "K.log"])), name=draw(st.sampled_from(["g", "g.storm", "7", "a.b.c"])),
             how=draw(st.integers(0, 3)), ero=draw(st.booleans()), cut=draw(st.integers(1, 12)), hdr=draw(st.sampled_from(["", "", "", "own header\n", "plain"])), scale=draw(st.sampled_from([1.0, 0.001, 1000.0])), bad=draw(st.integers(0, 5)),
             cr=draw(st.lists(gen.nice(-3000, 3000, 3), min_size=6, max_size=6)), xtra=draw(st.sampled_from(["", " ", " tail"])))
    return d


def tokens(raw, n):
    """The first n blank-separated words, and the rest after the end of that line."""
    p, w = 0, []
    while len(w) < n:
        while raw[p:p + 1].isspace():
            p += 1
        q = p
        while q < len(raw) and not raw[q:q + 1].isspace():
            q += 1
        require(q > p, "file ends in its header after %s", w)
        w.append(raw[p:q].decode())
        p = q
    while raw[p:p + 1] == b" ":
        p += 1
    require(raw[p:p + 1] == b"\n", "header line does not end after %s", w[-3:])
    return w, raw[p + 1:]


def scratch(f):
    def run(c):
        import vvol
        d = tempfile.mkdtemp()
        here = os.getcwd()
        try:
            os.makedirs(d + "/sub")
            os.chdir(d)
            return f(c, vvol, d)
        finally:
            os.chdir(here)
            shutil.rmtree(d)
    return run


def surf_ok(vvol, get, s, g, what, tol=1e-6):
    for u, w in ((0.1, 0.2), (0.77, 0.35), (0.5, 0.93)):
        x, y = xyof(g, u * g["lx"], w * g["ly"])
        sc = 1e-8 * (1 + max(map(abs, box(g))))
        z = smooth(vvol, s, x, y, sc)
        if z is not None:
            got = get(x, y)
            got = got[0] if isinstance(got, tuple) else got
            require(abs(got - z) <= tol * (1 + abs(z)) + 1e-5, "%s surface is %s at (%s, %s) after reading, expected %s", what, got, x, y, z)


def header(vvol, w, c, g, t, b, f, ero):
    """Position, sizes and surfaces in the words of a header from x_min on."""
    val = [float(q) for q in w[:4]]
    require_close(val, [g["x"], g["lx"], g["y"], g["ly"]], "x, length, y, length in the file", 1e-12, 1e-12)
    base = os.path.basename(f)
    for q, s, sfx in zip(w[4:8], (t, b, ero[0], ero[1]), ("_top", "_bot", "_erosion_top", "_erosion_bot")):
        if s is None:
            require(float(q) == 0, "no surface written as %s", q)
        elif len(s) == 1:
            require(abs(float(q) - s[0]) <= 1e-12 * (1 + abs(s[0])), "constant surface %s written as %s", s[0], q)
        else:
            require(os.path.basename(q) == base + sfx, "surface file %s", q)
    require_close(float(w[9]), math.degrees(g["ang"]), "angle in the file", 1e-12, 1e-12)
    require([int(q) for q in w[10:13]] == c["n"], "size %s in the file", w[10:13])


@scratch
def check_cfile(c, vvol, d):
    G, g, t, b = make(vvol, c)
    ni, nj, nk = c["n"]
    N = ni * nj * nk
    G.set_zone(c["zone"])
    G.set_model(c["model"])
    G.set_var(c["var"])
    G.set_ascii(c["asc"])
    vals = (np.array(G.vals()) * (1.0 if c["miss"] else c["scale"])).tolist()
    vals = [float(np.float32(q)) for q in vals]
    G.setv(vals)
    ero = [None, None]
    if c["ero"]:
        ero = [t, [7.25]]
        if raises(vvol, G.set4, t, b, *ero):
            return False, ["cover"]
    lz = G.geo()[5]
    f = {0: d + "/sub/" + c["name"], 1: "sub/" + c["name"], 2: c["name"], 3: d + "/" + c["name"]}[c["how"]]
    if c["hdr"]:
        plain = c["hdr"] == "plain"
        G.write(f, "" if plain else c["hdr"], plain, c["le"], True)
        raw = open(f, "rb").read()
        h = b"" if plain else c["hdr"].encode()
        require(raw.startswith(h) and not os.path.exists(f + "_top"), "own header, or surfaces written with it")
        body = raw[len(h):]
        _body(c, body, vals, plain)
        return N >= 4, ["header"]
    rp = c["how"] != 0
    if c["bad"] == 1 and not c["le"]:
        G.write1(f)
        rp = True
    else:
        G.write(f, "", False, c["le"], rp)
    raw = open(f, "rb").read()
    w, body = tokens(raw, 18)
    require(w[0] == ("storm_petro_ascii" if c["asc"] else "storm_petro_binary") and int(w[1]) == c["zone"] and w[2] == c["model"] and w[4] == c["var"], "header %s", w[:5])
    mcf = float(np.float32(float(w[3])))
    require((abs(mcf - c["mcv"]) <= 5e-4 * abs(c["mcv"])) if c["asc"] else mcf == c["mcv"], "missing code %s written as %s", c["mcv"], w[3])
    header(vvol, w[5:], c, g, t, b, f, ero)
    require_close(float(w[13]), lz, "height in the file", 1e-12, 1e-12)
    _body(c, body, vals, False)
    # read back
    R = vvol.CG.file(f, c["le"]) if c["bad"] % 2 == 0 else vvol.CG(2, 1, 1, 4.0)
    if c["bad"] % 2:
        R.set4([1.0], [2.0], [3.0], [4.0]) if c["ero"] else None
        R.read(f, not ((not rp or c["how"] == 2) and c["cut"] % 2), c["le"])
    require(tuple(R.n()) == (ni, nj, nk, N), "size %s after reading", R.n())
    got = np.array(R.vals())
    exp = np.array(vals)
    if c["asc"]:
        require(np.all(np.abs(got - exp) <= 5.1e-4 * np.abs(exp)), "values %s after reading, %s written", got.tolist(), vals)
    else:
        require(np.array_equal(got, exp), "values %s after reading, %s written", got.tolist(), vals)
    require([R.is_missing(q) for q in got] == [q == c["mcv"] for q in vals], "missing cells of %s with code %s after reading, %s written", got.tolist(), R.mc(), vals)
    require(R.zone() == c["zone"] and R.model() == c["model"] and R.var() == c["var"] and R.ascii() == c["asc"], "zone, model, variable, format after reading")
    require_close(list(R.geo()), [g["x"], g["y"], g["lx"], g["ly"], g["ang"], lz], "geometry after reading", 1e-11, 1e-11)
    surf_ok(vvol, R.top, t, g, "top")
    surf_ok(vvol, R.bot, b, g, "bottom")
    surf_ok(vvol, R.etop, ero[0] or [0.0], g, "erosion top")
    surf_ok(vvol, R.ebot, ero[1] or [0.0], g, "erosion bottom")
    # other content
    h = os.path.join(os.path.dirname(f), "h") if os.path.dirname(f) else "h"

    def load(x, name=h):
        open(name, "wb").write(x)
        return raises(vvol, vvol.CG.file, name, c["le"])
    head = raw[:len(raw) - len(body)]
    last = body[:-1] if body.endswith(b"0") else body
    if c["asc"]:
        v = body.split()[:-1]
        require(load(head + b" ".join(v[:-1])), "file that lacks a value is read")
        require(not load(head + b" ".join(v)), "file without number of barriers is refused")
        require(load(head + b" ".join(v) + b" 2"), "file with barriers is read")
    else:
        require(load(head + body[:4 * N - min(c["cut"], 4 * N)]), "file that lacks %d bytes is read", min(c["cut"], 4 * N))
        require(not load(head + body[:4 * N]), "file without number of barriers is refused")
        require(load(head + body[:4 * N] + b"2"), "file with barriers is read")
    require(load(raw.replace(b"storm_petro", b"storm_pietro")), "unknown format is read")
    cutw = " ".join(w[:c["cut"]]).encode()
    require(load(cutw), "file that ends in its header is read")
    k = 5 + 4 + c["bad"] % 4   # a surface that does not exist
    u = list(w)
    u[k] = "no_such_surface"
    require(load((" ".join(u) + "\n").encode() + body), "file that refers to a surface which does not exist is read")
    q = R.copy()
    require(raises(vvol, q.read, h, True, c["le"]), "file that refers to a surface which does not exist is read")
    if any(q_ is not None and len(q_) > 1 for q_ in (t, b, ero[0], ero[1])):
        u = list(w)
        u[5] = repr(g["x"] + 1000 * (g["lx"] + g["ly"]))
        require(load((" ".join(u) + "\n").encode() + body), "volume that its surface does not cover is read")
    del q
    require(raises(vvol, vvol.CG.file, d + "/none", False), "file that does not exist is read")
    return N >= 4, ["ascii" if c["asc"] else "little" if c["le"] else "big"]


def _body(c, body, vals, plain):
    N = len(vals)
    if c["asc"]:
        w = body.split()
        if not plain:
            require(w[-1] == b"0", "number of barriers %s", w[-1])
            w = w[:-1]
        require(len(w) == N, "%d values in the file of %d", len(w), N)
        got = np.array([float(q) for q in w])
        require(np.all(np.abs(got - np.array(vals)) <= 5.1e-4 * np.abs(vals)), "values %s in the file, expected %s", got.tolist(), vals)
    else:
        require(len(body) == 4 * N + (0 if plain else 1) and (plain or body[-1:] == b"0"), "%d bytes of data for %d values", len(body), N)
        got = np.frombuffer(body[:4 * N], "<f4" if c["le"] else ">f4").astype(float)
        require(np.array_equal(got, np.array(vals)), "values %s in the file, expected %s", got.tolist(), vals)


@scratch
def check_sgri(c, vvol, d):
    G, g, t, b = make(vvol, c)
    ni, nj, nk = c["n"]
    N = ni * nj * nk
    vals = G.vals()
    mc = c["mcv"]
    # what is written
    zmin = G.zmin()
    lz = G.geo()[5]
    dz = (lz / nk) if lz > 0 else 1.0
    hf, bf = {0: (d + "/sub/h.hdr", d + "/sub/v.Sgri"), 1: ("sub/h.hdr", "sub/v.Sgri"), 2: ("h.hdr", "v.Sgri"), 3: (d + "/h.hdr", d + "/v.Sgri")}[c["how"]]
    G.sgri(bf, hf, c["var"], dz, c["le"])
    L = open(hf).read().split("\n")
    require(L[0].startswith("NORSAR General Grid Format") and L[1].strip() == "3" and L[6].strip() == "1" and L[7] == c["var"], "Sgri header %s", L[:8])
    dx, dy = g["lx"] / ni, g["ly"] / nj
    require([int(q) for q in L[9].split()] == [ni, nj, nk], "size %s in the Sgri header", L[9])
    require_close([float(q) for q in L[10].split()], [dx * 1e-3, dy * 1e-3, dz * 1e-3], "increments in the Sgri header", 1e-6)
    require_close([float(q) for q in L[11].split()], [(g["x"] + dx / 2) * 1e-3, (g["y"] + dy / 2) * 1e-3, (zmin + dz / 2) * 1e-3], "first point in the Sgri header", 1e-7, 1e-6)
    require_close([float(q) for q in L[12].split()], [g["ang"], 0.0], "angle in the Sgri header", 1e-8, 1e-8)
    require(float(np.float32(float(L[13]))) == mc and os.path.basename(L[14].strip()) == os.path.basename(bf), "missing value or binary file %s, %s in the Sgri header", L[13], L[14])
    raw = open(bf, "rb").read()
    require(np.array_equal(np.frombuffer(raw[:4 * N], "<f4" if c["le"] else ">f4").astype(float), np.array(vals)), "values in the Sgri file")
    R = vvol.CG()
    R.read(hf, True, c["le"])
    require(tuple(R.n()) == (ni, nj, nk, N) and R.vals() == vals and R.mc() == mc, "Sgri grid read back")
    require_close(list(R.geo())[:5], [(g["x"]) * 1e-3, g["y"] * 1e-3, g["lx"] * 1e-3, g["ly"] * 1e-3, g["ang"]], "geometry of the Sgri grid read back", 1e-6, 1e-3)
    # a file of our own
    f32 = lambda q: float(np.float32(q))
    DX, DY, DZ, X, Y, Z = map(f32, (dx, dy, dz if dz > 0 else 1.0, g["x"], g["y"], zmin))
    os.makedirs(d + "/own")
    named = c["bad"] % 2 == 0
    ng = 1 + c["bad"] // 3
    head = ["NORSAR General Grid Format v1.0", "3" + c["xtra"], "X", "Y", "T", "values", str(ng)] + ["grid"] * ng + ["1 1 1", "%d %d %d" % (ni, nj, nk) + c["xtra"], "%r %r %r" % (DX, DY, DZ), "%r %r %r" % (X, Y, Z), "%r 0" % g["ang"], repr(mc), "v.bin" + c["xtra"] if named else "", "0", ""]
    open(d + "/own/h.hdr", "w").write("\n".join(head))
    of = d + "/own/" + ("v.bin" if named else "h.Sgri")
    open(of, "wb").write(np.array(vals).astype("<f4" if c["le"] else ">f4").tobytes())
    name = d + "/own/h.hdr"
    if c["how"] == 2:
        os.chdir(d + "/own")
        name = "h.hdr"
    R = vvol.CG.file(name, c["le"])
    require(tuple(R.n()) == (ni, nj, nk, N) and R.vals() == vals and R.mc() == mc, "Sgri grid written by the check, values %s expected %s", R.vals(), vals)
    require_close(list(R.geo()), [X - DX / 2, Y - DY / 2, ni * DX, nj * DY, g["ang"], nk * DZ], "geometry of a Sgri grid", 1e-9, 1e-6 * (1 + abs(Z) + nk * DZ))
    require_close([R.top(X, Y)[0], R.bot(X, Y)[0]], [Z - DZ / 2, Z + (nk - .5) * DZ], "top and bottom of a Sgri grid", 1e-7, 1e-6)
    require(R.var() == "UNKNOWN" and R.model() == "ModelFile" and R.zone() == 0 and not R.ascii(), "names in a Sgri grid")
    with open(of, "r+b") as q:
        q.truncate(4 * N - min(c["cut"], 4 * N))
    require(raises(vvol, vvol.CG.file, name, c["le"]), "Sgri grid with too few values is read")
    os.remove(of)
    require(raises(vvol, vvol.CG.file, name, c["le"]), "Sgri grid without its values is read")
    for k, w in ((1, "2"), (6, "0"), (8 + ng, "0 1 1"), (9 + ng, "1 -1 1"), (14 + ng, "1")):
        L = list(head)
        L[k] = w
        open(of, "wb").write(np.array(vals * 2).astype(">f4").tobytes())
        open(d + "/own/h.hdr", "w").write("\n".join(L))
        require(raises(vvol, vvol.CG.file, name, c["le"]), "Sgri header with %r as record %d is read", w, k + 1)
    # Crava
    cf = d + "/c.crava"
    G.crava(cf, *c["cr"])
    raw = open(cf, "rb").read()
    m = b"crava_fftgrid_binary\n"
    require(raw.startswith(m), "Crava file starts with %r", raw[:30])
    fmt = ">4d2i7d3i"
    n = struct.calcsize(fmt)
    require(len(raw) == len(m) + n + 4 * N, "Crava file of %d bytes", len(raw))
    q = struct.unpack(fmt, raw[len(m):len(m) + n])
    require_close(list(q), [g["x"], g["y"], dx, dy, ni, nj] + c["cr"] + [g["ang"], ni, nj, nk], "header of the Crava file", 1e-12, 1e-12)
    require(np.array_equal(np.frombuffer(raw[len(m) + n:], ">f4").astype(float), c["A"].reshape(-1)), "values in the Crava file")
    return N >= 4, ["sgri"]


# ------------------------------------------------------------------ facies
@st.composite
def ffile(draw):
    d = draw(cfile())
    N = len(d["v"])
    nf = draw(st.integers(1, 4))
    nb = draw(st.integers(1, 6))
    d.update(names=draw(st.lists(st.sampled_from(["sand", "shale", "f3", "x.y", "B"]), min_size=nf, max_size=nf)), body=draw(st.lists(st.integers(0, nf - 1), min_size=nb, max_size=nb)), fv=draw(st.lists(st.integers(0, nb - 1), min_size=N, max_size=N)),
             imc=draw(st.sampled_from([-999, -1, 9999, -32768])), brk=draw(st.sampled_from(["", "", "hi", "neg", "fhi", "fneg"])), where=draw(st.integers(0, 10**6)), wrong=draw(st.integers(0, 3)))
    return d


@scratch
def check_facies(c, vvol, d):
    g = c["g"]
    t, b = surfaces(c, g)
    ni, nj, nk = c["n"]
    N = ni * nj * nk
    V = vvol.V.surf(g["x"], g["y"], g["lx"], g["ly"], t, b, g["ang"])
    if c["ctor"] % 2:
        F = vvol.FG(ni, nj, nk)
        F.dims(g["x"], g["y"], g["lx"], g["ly"])
        F.set_angle(g["ang"])
        F.set2(t, b, -1)
    else:
        F = vvol.FG(V, ni, nj, nk)
    require(F.vals() == [-999] * N and F.mc() == -999 and F.zone() == 0 and not F.ascii() and F.model() == "ModelFile", "new facies grid")
    vals = list(c["fv"])
    for k in c["miss"]:
        vals[k] = c["imc"]
    names, body = list(c["names"]), list(c["body"])
    ok = True
    if c["brk"] in ("hi", "neg"):
        vals[c["where"] % N] = len(body) + c["wrong"] if c["brk"] == "hi" else -2 - c["wrong"]
        ok = vals[c["where"] % N] == c["imc"]
    elif c["brk"]:
        body[c["where"] % len(body)] = len(names) + c["wrong"] if c["brk"] == "fhi" else -1 - c["wrong"]
        ok = False
    F.setv(vals)
    F.set_mc(c["imc"])
    F.set_names(names)
    F.set_body(body)
    F.set_zone(c["zone"])
    F.set_model(c["model"])
    F.set_ascii(c["asc"])
    for k in range(len(body)):
        require(F.code(k) == body[k], "facies of body %d", k)
    require(raises(vvol, F.code, -1) and raises(vvol, F.code, len(body)), "facies of a body that does not exist")
    for k in range(len(names)):
        require(F.fname(k) == names[k], "name of facies %d", k)
    require(raises(vvol, F.fname, -1) and raises(vvol, F.fname, len(names)), "name of a facies that does not exist")
    for n, q in enumerate(vals):
        i, j, k = n % ni, n // ni % nj, n // ni // nj
        if 0 <= q < len(body):
            require(F.cell(n) == body[q] and F.cell3(i, j, k) == body[q], "facies of cell %d", n)
        else:
            require(raises(vvol, F.cell, n) and raises(vvol, F.cell3, i, j, k), "facies of cell %d with body %d", n, q)
    if c["th"] != "zero":
        probe(vvol, c, F, g, t, b, True)
    bad = raises(vvol, F.consistent)
    require(bad == (not ok), "grid with bodies %s, facies of bodies %s, %d facies %s", vals, body, len(names), "refused" if bad else "accepted")
    f = {0: d + "/sub/" + c["name"], 1: "sub/" + c["name"], 2: c["name"], 3: d + "/" + c["name"]}[c["how"]]
    if not ok:
        require(raises(vvol, F.write, f, c["le"]), "inconsistent grid is written")
        return False, ["inconsistent"]
    F.write(f, c["le"])
    raw = open(f, "rb").read()
    nf, nb = len(names), len(body)
    w, rest = tokens(raw, 6 + nf + nb + 13)
    require(w[0] == ("storm_facies_ascii" if c["asc"] else "storm_facies_binary") and w[1] == str(c["zone"]) and w[2] == c["model"] and w[3] == str(c["imc"]), "header %s", w[:4])
    require(w[4] == str(nf) and w[5:5 + nf] == names and w[5 + nf] == str(nb) and [int(q) for q in w[6 + nf:6 + nf + nb]] == body, "facies and bodies in the header: %s", w[4:6 + nf + nb])
    header(vvol, w[6 + nf + nb:], c, g, t, b, f, [None, None])
    if c["asc"]:
        require([int(q) for q in rest.split()] == vals + [0], "bodies %s in the file", rest)
    else:
        require(len(rest) == 4 * N + 1 and rest[-1:] == b"0" and np.frombuffer(rest[:-1], "<i4" if c["le"] else ">i4").tolist() == vals, "bodies %s in the file", rest)
    R = vvol.FG.file(f, c["le"]) if c["bad"] % 2 else vvol.FG(1, 2, 1)
    if c["bad"] % 2 == 0:
        R.set_names(["q"] * 9)
        R.set_body([8] * 9)
        R.read(f, True, c["le"])
    require(tuple(R.n()) == (ni, nj, nk, N) and R.vals() == vals, "bodies %s after reading, %s written", R.vals(), vals)
    require(R.mc() == c["imc"] and R.zone() == c["zone"] and R.model() == c["model"] and R.ascii() == c["asc"], "codes after reading")
    require([R.code(k) for k in range(nb)] == body and [R.fname(k) for k in range(nf)] == names and raises(vvol, R.code, nb) and raises(vvol, R.fname, nf), "bodies and facies after reading")
    require_close(list(R.geo())[:5], [g["x"], g["y"], g["lx"], g["ly"], g["ang"]], "geometry after reading", 1e-11, 1e-11)
    surf_ok(vvol, R.top, t, g, "top")
    surf_ok(vvol, R.bot, b, g, "bottom")
    h = os.path.join(os.path.dirname(f), "h") if os.path.dirname(f) else "h"

    def load(x):
        open(h, "wb").write(x)
        return raises(vvol, vvol.FG.file, h, c["le"])
    head = raw[:len(raw) - len(rest)]
    if c["asc"]:
        v = rest.split()[:-1]
        require(load(head + b" ".join(v[:-1])), "file that lacks a value is read")
        require(not load(head + b" ".join(v)), "file without number of barriers is refused")
        v[c["where"] % N] = str(nb + c["wrong"]).encode()
        if nb + c["wrong"] != c["imc"]:
            require(load(head + b" ".join(v)), "file with a body that does not exist is read")
    else:
        require(load(head + rest[:4 * N - min(c["cut"], 4 * N)]), "file that lacks %d bytes is read", min(c["cut"], 4 * N))
        require(not load(head + rest[:4 * N]), "file without number of barriers is refused")
    require(load(raw[:-1] + b" 3" if c["asc"] else raw[:-1] + b"3"), "file with barriers is read")
    require(load(raw.replace(b"storm_facies", b"storm_petro")), "file of another kind is read")
    u = list(w)
    u[6 + nf + nb + 4 + c["bad"] % 4] = "no_such_surface"
    require(load((" ".join(u) + "\n").encode() + rest), "file that refers to a surface which does not exist is read")
    require(raises(vvol, vvol.FG.file, d + "/none", False), "file that does not exist is read")
    return N >= 4, ["ascii" if c["asc"] else "binary"]


PROP = Prop("C20", [{"shim": "vvol", "mods": ["volume", "stormgrid", "surface", "iotools", "math"], "asan": False}], [
    Sub("volume", vol, check_vol, 1200, 20000, shards=4, rule="at least two operations on a volume that is rotated or has a surface that is not constant"),
    Sub("grid", grid, check_cont, 2400, 40000, shards=3, rule="at least four cells"),
    Sub("cont-files", cfile, check_cfile, 1600, 24000, shards=3, rule="at least four cells"),
    Sub("sgri", cfile, check_sgri, 1200, 16000, shards=2, rule="at least four cells"),
    Sub("facies", ffile, check_facies, 1600, 24000, shards=3, rule="at least four cells, consistent"),
], RULE, ["positive lengths; surfaces that cover the volume where cells are looked up; regular surfaces of 2x2 nodes or more in files"])
