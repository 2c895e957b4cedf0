"""C22: point sets."""
import math, os, shutil, tempfile
from fractions import Fraction as F
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Histories of adding, changing and erasing points and parameters, files in the internal points, Roxar text, general and Jason formats written by the library or by the check, and hulls of points with duplicates and points on a line. "
        "Non-trivial: at least three operations; a file with at least two points; a hull of at least four points.")

cor = st.one_of(st.sampled_from([0.0, 999.0, -999.0, 1.0]), st.integers(-20, 20).map(float), gen.nice(-1e3, 1e6, 3), st.sampled_from([458000.125, 6781000.5]))
pt = st.lists(cor, min_size=3, max_size=3)
NM = ["Zone", "GR", "Active", "two words", "a", "Flag"]
txt = st.sampled_from(["", "a", "two words", "UNDEF", "x\ty", "12", "horizon 1 top", "-"])
iv = st.one_of(st.sampled_from([0, 1, -999]), st.integers(-50, 50))
fv = st.one_of(st.sampled_from([0.0, -999.0, 1.5]), gen.nice(-1000, 1000, 3))


def scratch(f):
    def run(c):
        import vpts
        d = tempfile.mkdtemp()
        try:
            return f(c, vpts, d)
        finally:
            shutil.rmtree(d)
    return run


def raises(vpts, f, *a):
    try:
        f(*a)
    except (vpts.Exc, vpts.IOErr, vpts.FormatErr):
        return True
    return False


OPS = ["add", "set", "add_d", "add_c", "add_s", "set_d", "resize", "erase", "copy"]


@st.composite
def hist(draw):
    return {"p": draw(st.lists(pt, max_size=4)), "ctor": draw(st.integers(0, 3)), "q": draw(pt),
            "ops": [{"op": draw(st.sampled_from(OPS)), "n": draw(st.sampled_from(NM)), "p": draw(pt), "i": draw(st.integers(0, 5)), "d": draw(st.lists(iv, min_size=6, max_size=6)), "c": draw(st.lists(fv, min_size=6, max_size=6)), "s": draw(st.lists(txt, min_size=6, max_size=6))} for _ in range(draw(st.integers(0, 12)))]}


def fit(v, n):
    return (list(v) * (n // len(v) + 1))[:n]


def check_hist(c):
    import vpts
    if c["ctor"] == 0:
        s, P = vpts.PS(), []
    elif c["ctor"] == 1:
        s, P = vpts.PS.of(c["p"]), [list(p) for p in c["p"]]
    elif c["ctor"] == 2:
        s, P = vpts.PS.n(len(c["p"]), c["q"]), [list(c["q"]) for _ in c["p"]]
    else:
        s, P = vpts.PS.n0(len(c["p"])), [[0.0] * 3 for _ in c["p"]]
    T = {"d": {}, "c": {}, "s": {}}
    zero = {"d": 0, "c": 0.0, "s": ""}
    for o in c["ops"] + [{"op": ""}]:
        k = o["op"]
        if k == "add":
            s.add(o["p"])
            P.append(list(o["p"]))
            for t in T:
                for v in T[t].values():
                    v.append(zero[t])
        elif k == "set" and P:
            s.set(o["i"] % len(P), o["p"])
            P[o["i"] % len(P)] = list(o["p"])
        elif k in ("add_d", "add_c", "add_s"):
            v = fit(o[k[-1]], len(P))
            getattr(s, k)(o["n"], v)
            T[k[-1]][o["n"]] = v
        elif k == "set_d":
            if o["n"] not in T["d"]:
                require(raises(vpts, s.set_d, o["n"], 0, 1), "parameter %s that does not exist is set", o["n"])
            elif P:
                s.set_d(o["n"], o["i"] % len(P), o["d"][0])
                T["d"][o["n"]][o["i"] % len(P)] = o["d"][0]
        elif k == "resize":
            n = o["i"]
            s.resize(n)
            P = P[:n] + [[0.0] * 3] * (n - len(P))
            P = [list(p) for p in P]
            for t in T:
                for q, v in T[t].items():
                    T[t][q] = v[:n] + [zero[t]] * (n - len(v))
        elif k == "erase" and P:
            i = o["i"] % len(P)
            s.erase(i)
            del P[i]
            for t in T:
                for v in T[t].values():
                    del v[i]
        elif k == "copy":
            old, s = s, s.copy()
            old.add([1.0, 2.0, 3.0])
        require(s.points() == P and s.size() == len(P) and [s.get(i) for i in range(len(P))] == P, "points %s, expected %s after %s", s.points(), P, k)
        require((dict(s.ds()), dict(s.cs()), dict(s.ss())) == (T["d"], T["c"], T["s"]), "parameters %s %s %s, expected %s after %s", s.ds(), s.cs(), s.ss(), T, k)
        for q in NM[:3]:
            require(tuple(s.has(q)) == (q in T["d"], q in T["c"], q in T["s"]), "has %s", q)
            for t in T:
                if q in T[t]:
                    require(getattr(s, t)(q) == T[t][q], "parameter %s", q)
                else:
                    require(raises(vpts, getattr(s, t), q), "parameter %s that does not exist is given", q)
    return len(c["ops"]) >= 3, ["ctor%d" % c["ctor"]]


@st.composite
def files(draw):
    n = draw(st.integers(0, 5))
    tag = lambda v: {q: draw(st.lists(v, min_size=n, max_size=n)) for q in draw(st.lists(st.sampled_from(NM), unique=True, max_size=2))}
    return {"p": [draw(pt) for _ in range(n)], "d": tag(iv), "c": tag(fv), "s": tag(txt), "rep": draw(st.sampled_from([1, 1, 1, 30])), "fmt": draw(st.sampled_from(["%.3f", "%.6f", "%g", "%.4e"])), "sep": draw(st.sampled_from([" ", "   ", "\t"])),
            "act": draw(st.lists(st.integers(0, 1), min_size=5, max_size=5)), "bad": draw(st.integers(0, 6)), "k": draw(st.integers(0, 20)), "com": draw(st.integers(0, 2)), "lines": draw(st.booleans())}


def q(t):
    return '"%s"' % t if t == "" or " " in t or "\t" in t else t


@scratch
def check_files(c, vpts, d):
    f = d + "/pts"
    P = [p for p in c["p"] for _ in range(c["rep"])]
    n = len(P)
    s = vpts.PS.of(P)
    tags = {t: {k: [x for x in v for _ in range(c["rep"])] for k, v in c[t].items()} for t in "dcs"}
    for t in "dcs":
        for k, v in tags[t].items():
            getattr(s, "add_" + t)(k, v)
    # written by the library
    for kind, dec in (("rms", 3), ("roxar", 6), ("general", 6)):
        s.write(f, kind)
        ex = [[float("%.*f" % (dec, x)) for x in p] for p in P]
        end = [999.0] * 3
        raw = open(f).read()
        if kind == "rms":
            L = raw.split("\n")
            hd = [(w, k) for t, w in (("d", "Discrete"), ("c", "Float"), ("s", "String")) for k in sorted(tags[t])]
            require([tuple(l.split(None, 1)) for l in L[:len(hd)]] == hd, "header %s, expected %s", L[:len(hd)], hd)
            if not hd:
                continue
            require(vpts.type(f) == "rms", "kind of file %s", vpts.type(f))
            r = vpts.PS.file(f, -1)
            require(dict(r.ds()) == tags["d"], "discrete %s, expected %s", r.ds(), tags["d"])
            require({k: [float("%.3f" % x) for x in v] for k, v in tags["c"].items()} == dict(r.cs()), "continuous %s, expected %s", r.cs(), tags["c"])
            require(dict(r.ss()) == tags["s"], "strings %s, expected %s", r.ss(), tags["s"])
        else:
            body = [[float(x) for x in l.split()] for l in raw.split("\n") if l.strip()]
            require(body == ex + ([end] if kind == "roxar" else []), "file %s, expected %s", body[:5], ex[:5])
            if kind == "roxar" and any(p == end for p in ex) or kind == "general" and (not ex or ex[-1] == end):
                continue
            require(vpts.type(f) == kind, "kind %s, expected %s", vpts.type(f), kind)
            r = vpts.PS.file(f, c["k"] % 3 - 1)
            require(not r.ds() and not r.cs() and not r.ss(), "parameters")
        require(r.points() == ex, "%s: points %s, expected %s", kind, r.points()[:5], ex[:5])
    # written here: internal points with filtering
    fm = lambda x: c["fmt"] % x
    names = [("Discrete", k, tags["d"][k]) for k in tags["d"]] + [("Float", k, tags["c"][k]) for k in tags["c"]] + [("String", k, tags["s"][k]) for k in tags["s"]]
    if not any(k == "Active" for _, k, _ in names):
        names.insert(c["k"] % (len(names) + 1), ("Discrete", "Active", fit(c["act"], n)))
    L = ["%s   %s" % (a, b) for a, b, _ in names]
    for i, p in enumerate(P):
        v = [x[i] for _, _, x in names]
        w = ["UNDEF" if x == -999 and (c["k"] + i) % 2 else q(x) if isinstance(x, str) else fm(x) if isinstance(x, float) else str(x) for x in v]
        L.append(c["sep"].join([fm(x) for x in p] + w))
    open(f, "w").write("\n".join(L) + ("\n" if c["k"] % 2 else ""))
    a = [v for _, k, v in names if k == "Active"]
    intact = len(a) == 1 and isinstance(a[0], list) and all(x in (0, 1) for x in a[0]) and all(isinstance(x, int) for x in a[0])
    for filt in (-1, 0, 1):
        keep = list(range(n))
        if filt == 1:
            if not intact:
                continue
            keep = [i for i in keep if a[0][i] == 1]
        r = vpts.PS.file(f, filt)
        require(r.points() == [[float(fm(x)) for x in P[i]] for i in keep], "internal points (filter %d) %s", filt, r.points()[:5])
        for w, k, v in names:
            got = {"Discrete": r.ds(), "Float": r.cs(), "String": r.ss()}[w].get(k)
            ex = [float(fm(v[i])) if w == "Float" and not (v[i] == -999 and (c["k"] + i) % 2) else v[i] for i in keep]
            require(got == ex, "parameter %s is %s, expected %s", k, got, ex)
    # Jason
    J = ["* comment"] * c["com"] + ["JGWFILE horizon %d" % n, "second line"]
    il = [(i * 7 + c["k"]) % 50 for i in range(n)]
    for i, p in enumerate(P):
        J.append(c["sep"].join(["%d" % il[i], "%d" % -il[i]] + [fm(x) for x in p] + (["survey"] if (i + c["k"]) % 3 == 0 else [])))
    open(f, "w").write("\n".join(J) + "\n")
    require(vpts.type(f) == "jason", "kind %s", vpts.type(f))
    r = vpts.PS.file(f, -1)
    require(r.points() == [[float(fm(x)) for x in p] for p in P], "Jason points %s, expected %s", r.points()[:5], P[:5])
    require(dict(r.ds()) == {"IL": il, "XL": [-x for x in il]}, "Jason lines %s", r.ds())
    b = c["bad"]
    if b == 0 and n:
        open(f, "w").write("\n".join(J[:-1]) + "\n")
        require(raises(vpts, vpts.PS.file, f, -1), "Jason file that lacks a line is read")
    elif b == 1 and n:
        j = len(J) - 1 - c["k"] % n
        J[j] = " ".join(J[j].split()[:4])
        open(f, "w").write("\n".join(J) + "\n")
        require(raises(vpts, vpts.PS.file, f, -1), "Jason file that lacks a value is read")
    elif b == 2:
        open(f, "w").write("some text\n1 2 3\n")
        require(vpts.type(f) == "unknown" and raises(vpts, vpts.PS.file, f, -1), "unknown file is read")
    elif b == 3 and n:
        open(f, "w").write("Discrete x\n" + "".join("%g %g %g %s\n" % (p[0], p[1], p[2], "1.5" if i == c["k"] % n else "2") for i, p in enumerate(P)))
        require(raises(vpts, vpts.PS.file, f, -1), "discrete value 1.5 is read")
    elif b == 4 and n:
        open(f, "w").write("Float x\n" + "".join("%g %g %g %s\n" % (p[0], p[1], p[2], "abc" if i == c["k"] % n else "2") for i, p in enumerate(P)))
        require(raises(vpts, vpts.PS.file, f, -1), "continuous value abc is read")
    elif b == 5:
        require(raises(vpts, vpts.PS.file, d + "/none", -1), "file that does not exist is read")
        w = ["1.5", "2", "3"]
        w[c["k"] % 3] = "x"
        for l, k in (("! note\n" * c["com"] + "New horizon\n", "ow"), (" ".join(w) + "\n1 2 3\n", "unknown"), ("1 2\n", "unknown"), ("1 2 3 4\n", "unknown"), ("1 2 3\n", "general")):
            open(f, "w").write(l)
            require(vpts.type(f) == k, "kind of %r is %s", l, vpts.type(f))
    return n >= 2, ["rep" if c["rep"] > 1 else "few"]


@st.composite
def surf(draw):
    ni, nj = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    return {"x": draw(cor), "y": draw(cor), "dx": draw(st.sampled_from([1.0, 12.5])), "dy": draw(st.sampled_from([2.0, 25.0])), "ni": ni, "nj": nj, "v": draw(st.lists(st.sampled_from([1.0, 2.5, -999.0, 7.0, -3.0]), min_size=ni * nj, max_size=ni * nj)), "miss": draw(st.sampled_from([-999.0, 7.0]))}


def check_surf(c):
    import vpts
    s = vpts.PS.surf(c["x"], c["y"], c["dx"] * (c["ni"] - 1), c["dy"] * (c["nj"] - 1), c["ni"], c["nj"], c["v"], c["miss"])
    ex = [[c["x"] + i * c["dx"], c["y"] + j * c["dy"], c["v"][i + j * c["ni"]]] for j in range(c["nj"]) for i in range(c["ni"]) if c["v"][i + j * c["ni"]] != c["miss"]]
    got = s.points()
    require(len(got) == len(ex), "%d points, expected %d", len(got), len(ex))
    for g, e in zip(got, ex):
        require_close(g, e, "point of surface", 1e-12, 1e-9)
    return len(ex) > 3, ["surf"]


@st.composite
def hull(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        e = st.integers(-4, 4).map(float)
    elif kind == 1:
        e = st.integers(-100, 100).map(lambda k: k / 4)
    else:
        e = gen.nice(-50, 50, 2)
    off = draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [1000.0, -2000.0]]))
    p = draw(st.lists(st.tuples(e, e, cor), min_size=1, max_size=14))
    if kind == 3:   # on a line
        a, b = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        p = [(a * float(int(x)), b * float(int(x)), z) for x, y, z in p]
    return {"p": [[x + off[0], y + off[1], z] for x, y, z in p], "dup": draw(st.lists(st.integers(0, 13), max_size=3)), "kind": kind}


def exact_hull(pts):
    p = sorted(set(pts))
    if len(p) < 3:
        return p
    def half(ps):
        h = []
        for q in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(q)
        return h
    return half(p)[:-1] + half(p[::-1])[:-1]


def check_hull(c):
    import vpts
    P = [list(p) for p in c["p"]]
    for i in c["dup"]:
        P.insert(i % (len(P) + 1), list(P[i % len(P)]))
    s = vpts.PS.of(P)
    h = s.hull()
    require(s.points() == P, "points changed")
    require(all(q_ in P for q_ in h), "hull %s of points that are not in the set", h)
    xy = [(F(p[0]), F(p[1])) for p in P]
    E = exact_hull(xy)
    H = [(F(p[0]), F(p[1])) for p in h]
    if len(P) < 3 or len(E) < 3:
        require(set(E) <= set(H), "hull %s of points on a line lacks an end of %s", h, [(float(a), float(b)) for a, b in E])
        return False, ["line"]
    # every extreme point is there (the angles are compared by cosines to 1e-10), counter-clockwise, and only points of the boundary
    require(len(set(H)) == len(H), "hull %s has a point twice", h)
    require(set(E) <= set(H), "hull %s lacks a corner of %s", h, [(float(a), float(b)) for a, b in E])
    n = len(E)
    def edge(pnt):
        for i in range(n):
            a, b = E[i], E[(i + 1) % n]
            if (b[0] - a[0]) * (pnt[1] - a[1]) == (b[1] - a[1]) * (pnt[0] - a[0]) and min(a[0], b[0]) <= pnt[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= pnt[1] <= max(a[1], b[1]):
                return i, abs(pnt[0] - a[0]) + abs(pnt[1] - a[1])
        return None
    pos = [edge(p) for p in H]
    # corners belong to the edge they start
    pos = [(E.index(p), 0) if p in E else q_ for p, q_ in zip(H, pos)]
    require(None not in pos, "hull %s has a point inside %s", h, [(float(a), float(b)) for a, b in E])
    k = pos.index(min(pos))
    require(pos[k:] + pos[:k] == sorted(pos), "hull %s is not in counter-clockwise order", h)
    return len(P) >= 4, ["kind%d" % c["kind"]]


PROP = Prop("C22", [{"shim": "vpts", "mods": ["pointset", "wavelet", "geometry", "surface", "iotools", "math"], "asan": False}], [
    Sub("history", hist, check_hist, 3000, 40000, shards=3, rule="at least three operations"),
    Sub("files", files, check_files, 2400, 30000, shards=4, rule="at least two points"),
    Sub("surface", surf, check_surf, 1000, 6000, shards=1, rule="more than three points"),
    Sub("hull", hull, check_hull, 6000, 80000, shards=3, rule="at least four points not on a line"),
], RULE, ["points further apart in direction, seen from the lowest one, than 2e-5 radians in hulls; no point (999, 999, 999) in Roxar text files; OpenWorks files are not read"])
