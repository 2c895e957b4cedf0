"""C26: Eclipse grid files."""
import math
import os
import random
import shutil
import tempfile
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from props.c24 import raises

RULE = ("grids of 1-5 x 1-5 x 1-4 cells with sloping pillars, any corner depths and activities, parameters of any magnitude, faults with segments on all faces, local refinements with parameters, written to one or several files and read back; files with comments, local coordinates and map axes, unsupported keywords, unquoted names; "
        "files ending inside the data. Non-trivial: more than one cell.")
NAMES = ["PORO", "PERMX", "NTG", "FACIES", "P_1", "X"]
FACES = ["X", "X-", "Y", "Y-", "Z", "Z-"]
IFACES = ["I", "I-", "J", "J-", "K", "K-"]


def scratch(f):
    def run(c):
        import vecl
        d = tempfile.mkdtemp()
        try:
            return f(vecl, c, d)
        finally:
            shutil.rmtree(d)
    return run


def milli(lo, hi):
    return st.integers(lo * 1000, hi * 1000).map(lambda i: i / 1000.0)


@st.composite
def grid(draw, small=False):
    ni, nj, nk = draw(st.integers(1, 4 if small else 5)), draw(st.integers(1, 4 if small else 5)), draw(st.integers(1, 4))
    rng = random.Random(draw(st.integers(0, 1 << 30)))
    base = draw(st.sampled_from([0.0, 0.0, -1000.0, 458000.0, 6780000.0, -7.5]))
    zb = draw(st.sampled_from([0.0, 1500.0, -999.0, 20000.0]))
    wild = draw(st.integers(0, 4)) == 0
    co = []
    for j in range(nj + 1):
        for i in range(ni + 1):
            s, t = (rng.uniform(-30, 30), rng.uniform(-30, 30)) if wild else (3.0, -2.0)
            x, y = base + 50 * i + rng.choice([0.0, rng.uniform(-10, 10)]), base / 2 + 40 * j + rng.choice([0.0, rng.uniform(-10, 10)])
            co += [x, y, zb + rng.choice([0.0, rng.uniform(-5, 5)]), x + s, y + t, zb + 100 + rng.uniform(0, 9)]
    co = [round(x, 3) for x in co]
    zc = [round(zb + rng.choice([rng.uniform(0, 100), float(rng.randint(0, 100))]), 3) for _ in range(8 * ni * nj * nk)]
    pa = draw(st.sampled_from([1.0, 1.0, 0.5, 0.8, 0.0]))
    act = [int(rng.random() <= pa) if pa else 0 for _ in range(ni * nj * nk)]
    par = {}
    for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3)):
        kind = rng.randint(0, 3)
        big = 10.0 ** rng.randint(0, 12)
        par[n] = [[round(rng.uniform(0, 1), 5), float(rng.randint(-3, 9)), round(rng.uniform(-big, big), 5), rng.choice([0.0, -0.00001, 99999999.99999, -99999999.99999, 1e10, 123456789.25])][kind] for _ in range(ni * nj * nk)]
    return {"n": (ni, nj, nk), "co": co, "zc": zc, "act": act, "par": par}


@st.composite
def segment(draw, n):
    v = []
    for m in n:
        a, b = sorted((draw(st.integers(0, m - 1)), draw(st.integers(0, m - 1))))
        v += [a, b]
    return v + [draw(st.integers(0, 5))]


@st.composite
def full(draw):
    c = draw(grid())
    ni, nj, nk = c["n"]
    names = draw(st.lists(st.sampled_from(["F1", "FAULT_2", "A", "B-C", "LONGFAULTNAME8", "x"]), unique=True, max_size=3))
    c["faults"] = {f: draw(st.lists(segment(c["n"]), min_size=1, max_size=4)) for f in names}
    rng = random.Random(draw(st.integers(0, 1 << 30)))
    c["cf"] = []
    for q in range(draw(st.integers(0, 3))):
        loc, cells = [], []
        for m in c["n"]:
            a, b = sorted((rng.randrange(m), rng.randrange(m)))
            loc += [a, b]
            cells.append((b - a + 1) * rng.randint(1, 3))
        n = cells[0] * cells[1] * cells[2]
        c["cf"].append(("LGR%d" % q, loc, cells, rng.choice([-1, 0, 7]), {p: [round(rng.uniform(-1e4, 1e4), 5) for _ in range(n)] for p in rng.sample(NAMES, rng.randint(0, 2))}))
    c["how"] = draw(st.integers(0, 3))
    c["seed"] = draw(st.integers(0, 1 << 30))
    c["mult"] = [([rng.randint(1, 5) for _ in range(3)], round(rng.uniform(0, 5), 6), rng.randint(0, 5)) for _ in range(rng.choice([0, 0, 2]))]
    c["nnc"] = [([rng.randint(1, 40) for _ in range(6)], round(rng.uniform(0, 5000), 6)) for _ in range(rng.choice([0, 0, 2]))]
    return c


def build(v, c):
    g = v.G(*c["n"])
    g.geom(c["co"], c["zc"], c["act"])
    for p, x in c["par"].items():
        g.set_param(p, x)
    for f, s in c.get("faults", {}).items():
        g.add_fault(f, s)
    for t in c.get("cf", []):
        g.add_cf(tuple(t))
    return g


def same(g, c, what, co=None, par=None, tol=6e-4, extra=True):
    n, gco, gzc, gact = g.dump()
    require(tuple(n) == tuple(c["n"]), "%s: the grid is %r, expected %r", what, n, c["n"])
    require_close(gco, c["co"] if co is None else co, what + ": pillars", 1e-12, tol)
    require_close(gzc, c["zc"], what + ": corner depths", 1e-12, 6e-4)
    require(gact == c["act"], "%s: activities %r, expected %r", what, gact, c["act"])
    par = c["par"] if par is None else par
    gp = g.params()
    require(sorted(gp) == sorted(par), "%s: parameters %r, expected %r", what, sorted(gp), sorted(par))
    require(g.names() == sorted(par), "%s: parameter names %r", what, g.names())
    for p in par:
        require_close(gp[p], par[p], "%s: parameter %s" % (what, p), 1e-12, 6e-6)
        require(g.has(p), "%s: parameter %s is denied", what, p)
    if extra:
        gf = g.faults()
        fs = c.get("faults", {})
        require(sorted(gf) == sorted(fs), "%s: faults %r, expected %r", what, sorted(gf), sorted(fs))
        for f in fs:
            require(gf[f][0] == f and gf[f][1] == [list(s) for s in fs[f]], "%s: fault %s is %r, expected %r", what, f, gf[f], fs[f])
            require(gf[f][2] == any(s[6] >= 4 for s in fs[f]), "%s: fault %s stair stepped is %r", what, f, gf[f][2])
        require(g.stair() == any(s[6] >= 4 for f in fs.values() for s in f), "%s: stair-stepped faults %r", what, g.stair())
        cfs = g.cfs()
        require(len(cfs) == len(c.get("cf", [])), "%s: %d refinements, expected %d", what, len(cfs), len(c.get("cf", [])))
        for got, ex in zip(cfs, c.get("cf", [])):
            require(got[0] == ex[0] and list(got[1]) == list(ex[1]) and list(got[2]) == list(ex[2]), "%s: refinement %r, expected %r", what, got[:3], ex[:3])
            require(sorted(got[3]) == sorted(ex[4]), "%s: parameters of refinement %r, expected %r", what, sorted(got[3]), sorted(ex[4]))
            for p in ex[4]:
                require_close(got[3][p], ex[4][p], "%s: parameter %s of refinement %s" % (what, p, ex[0]), 1e-12, 6e-6)


@scratch
def check_round(v, c, d):
    g = build(v, c)
    same(g, c, "grid", tol=0.0)
    ni, nj, nk = c["n"]
    rng = random.Random(c["seed"])
    f1, f2 = os.path.join(d, "a.grdecl"), os.path.join(d, "b.grdecl")
    lab = []
    if c["how"] < 2:
        g.write(f1, c["how"] == 0)
        r = v.G(f1) if rng.random() < 0.5 else v.G()
        if r.dump()[0][0] == 0:
            r.read(f1)
        e = c if c["how"] == 0 else dict(c, par={})
        same(r, e, "read back")
        r.write(f2, True)
        a, b = open(f1).read(), open(f2).read()
        require(a == b, "the grid read back is written as another file")
        lab.append("one" if c["how"] == 0 else "geometry")
    else:
        keys = ["SPECGRID", "COORD", "ZCORN", "ACTNUM"]   # the size comes first
        rest = list(c["par"]) + (["FAULTS"] if c["faults"] else []) + (["CARFIN"] if c["cf"] else [])
        rng.shuffle(rest)
        ks = keys + rest
        if c["how"] == 2:   # everything is named
            cut = sorted({0, len(ks), *[rng.randint(4, len(ks)) for _ in range(2)]})
            lists = [ks[a:b] for a, b in zip(cut, cut[1:])]
        else:
            k = rng.randint(4, len(ks))
            lists = [ks[:k], []] if rng.random() < 0.7 else [[]]
        fs = [os.path.join(d, "p%d" % i) for i in range(len(lists))]
        g.write_many(fs, lists)
        r = v.G(fs) if rng.random() < 0.5 else v.G()
        if r.dump()[0][0] == 0:
            r.read_many(fs)
        same(r, c, "read from %d files" % len(fs))
        for n, l in enumerate(lists):
            toks = open(fs[n]).read().split()
            for k in keys + list(c["par"]):
                # the parameter "X" is also a name of a face
                require((k in toks) == (k in l or (not l and not any(k in q for q in lists))) or bool(c["cf"]) or k == "X", "%s in file %d with keywords %r", k, n, l)
        try:
            g.write_many([f1], [["SPECGRID", "NOSUCH"]])
        except v.Exc:
            pass
        else:
            require(False, "an unknown keyword is accepted")
        lab.append("many")
    # transmissibilities are written
    if c["mult"] or c["nnc"]:
        for a, x, f in c["mult"]:
            g.add_mult(a, x, f)
        for a, x in c["nnc"]:
            g.add_nnc(a, x)
        g.write(f1, True)
        t = open(f1).read()
        pos = {k: t.find("\n" + k + "\n") for k in ("MULTIPLY", "EDITNNC")}
        require((pos["MULTIPLY"] >= 0) == bool(c["mult"]) and (pos["EDITNNC"] >= 0) == bool(c["nnc"]), "sections %r", pos)

        def lines(k):
            out = []
            for ln in t[pos[k]:].split("\n")[2:]:
                w = ln.split()
                if not w or w[0].startswith("--"):
                    continue
                if w[0] == "/":
                    return out
                require(w[-1] == "/", "line %r of %s", ln, k)
                out.append(w[:-1])
            require(False, "%s is not ended", k)
        if c["mult"]:
            ls = lines("MULTIPLY")
            require(len(ls) == len(c["mult"]), "%d multipliers, expected %d", len(ls), len(c["mult"]))
            for w, (a, x, f) in zip(ls, c["mult"]):
                q = list(a)
                if f % 2:
                    q[f // 2] -= 1
                require(w[0] == "'TRAN%s'" % "XYZ"[f // 2] and abs(float(w[1]) - x) < 1e-8 and [int(y) for y in w[2:]] == [q[0], q[0], q[1], q[1], q[2], q[2]], "multiplier %r for %r on face %d of cell %r", w, x, f, a)
        if c["nnc"]:
            ls = lines("EDITNNC")
            require(len(ls) == len(c["nnc"]), "%d connections, expected %d", len(ls), len(c["nnc"]))
            for w, (a, x) in zip(ls, c["nnc"]):
                require([int(y) for y in w[:6]] == a and abs(float(w[6]) - x) < 1e-5, "connection %r for %r, %r", w, a, x)
        if not c["nnc"]:   # the multipliers are skipped
            same(v.G(f1), c, "read back with multipliers")
        lab.append("transmissibilities")
    return ni * nj * nk > 1, lab + (["refined"] if c["cf"] else []) + (["faults"] if c["faults"] else [])


# ---------------- files not made by the library
@st.composite
def foreign(draw):
    c = draw(full())
    c["map"] = draw(st.sampled_from([0, 0, 1, 2, 3]))   # 1 map coordinates, 2 local, 3 axes without a unit
    c["ang"] = draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0, 30.0, 210.0, 330.0]), st.floats(0, 360)))
    c["left"] = draw(st.booleans())
    c["org"] = [draw(milli(-1000, 1000)), draw(milli(-1000, 1000)), draw(st.sampled_from([1.0, 100.0, 12.5])), draw(st.sampled_from([1.0, 30.0]))]
    c["unquoted"] = draw(st.booleans())
    c["comments"] = draw(st.integers(0, 2))
    return c


COMM = ["-- a comment with / and '\n", "--no blank\n", "--\n", "-- COORD\n", "--PORO 1 2 3 /\n"]


def num(rng, x):
    return rng.choice(["%.5f", "%.6f", "%.17e", "%r"]) % x


def arr(rng, xs, per=None):
    out, n = [], per or rng.choice([1, 4, 6, 1000])
    for i in range(0, len(xs), n):
        out.append(rng.choice(["", " ", "\t"]) + rng.choice([" ", "  ", "\t"]).join(xs[i:i + n]))
    return "\n".join(out)


def sections(c, rng):
    """[(keyword, text of its data up to and with the ending slash)]"""
    ni, nj, nk = c["n"]
    end = lambda: rng.choice([" /\n", "\n/\n", "\n  /\n\n", "\n/"]) + "\n"
    s = [("SPECGRID", "\n %d %d %d 1 F /\n" % (ni, nj, nk))]
    geo = [("COORD", "\n" + arr(rng, [num(rng, x) for x in c["co"]]) + end()), ("ZCORN", "\n" + arr(rng, [num(rng, x) for x in c["zc"]]) + end()), ("ACTNUM", "\n" + arr(rng, [str(x) for x in c["act"]]) + end())]
    other = [(p, "\n" + arr(rng, [num(rng, x) for x in xs]) + end()) for p, xs in c["par"].items()]
    if c["faults"]:
        t = "\n"
        for f, segs in c["faults"].items():
            for q in segs:
                if c["comments"] and rng.random() < 0.3:
                    t += rng.choice(COMM) + rng.choice(["", "\n"])
                nm = f if c["unquoted"] else "'%s'" % f
                face = (FACES if rng.random() < 0.7 else IFACES)[q[6]]
                t += " %s %d %d %d  %d %d %d %s /\n" % (nm, q[0] + 1, q[1] + 1, q[2] + 1, q[3] + 1, q[4] + 1, q[5] + 1, face if rng.random() < 0.5 else "'%s'" % face)
        other.append(("FAULTS", t + "/\n"))
    for nm, loc, cells, nw, par in c["cf"]:
        t = "\n%s %d %d %d %d %d %d  %d %d %d %s /\n" % ((nm if c["unquoted"] else "'%s'" % nm,) + tuple(x + 1 for x in loc) + tuple(cells) + ("" if nw < 0 else "%d" % nw,))
        for p, xs in par.items():
            t += p + "\n" + arr(rng, [num(rng, x) for x in xs]) + end()
        other.append(("CARFIN", t + "ENDFIN\n"))
    if rng.random() < 0.3:
        other.append(("MULTIPLY", "\n'TRANX' 0.5 1 1 1 1 1 1 /\n 'TRANY' 2 1 1 1 1 1 1 /\n/\n"))
    if rng.random() < 0.3:
        other.append(("GDORIENT", "\nINC INC INC DOWN RIGHT /\n"))
    if rng.random() < 0.3:
        other.append(("NOECHO", "\n"))
    if rng.random() < 0.3:
        other.append(("ECHO", " anything else\n"))
    rng.shuffle(geo)
    cfs = [o for o in other if o[0] == "CARFIN"]
    body = geo + [o for o in other if o[0] != "CARFIN"]
    if rng.random() < 0.5:
        rng.shuffle(body)
    for o in cfs:   # in their order
        body.append(o)
    return s + body


def axes(c):
    a = math.radians(c["ang"])
    ex, ey = (math.cos(a), math.sin(a)), (-math.sin(a), math.cos(a))
    if c["left"]:
        ey = (-ey[0], -ey[1])
    return ex, ey


@scratch
def check_foreign(v, c, d):
    rng = random.Random(c["seed"])
    secs = sections(c, rng)
    head = []
    ex, ey = axes(c)
    x0, y0, lx, ly = c["org"]
    if c["map"]:
        head.append(("MAPAXES", "\n %r %r  %r %r\n %r %r /\n" % (x0 + ly * ey[0], y0 + ly * ey[1], x0, y0, x0 + lx * ex[0], y0 + lx * ex[1])))
        if rng.random() < 0.5:
            head.append(("MAPUNITS", "\n 'METRES' /\n"))
        if c["map"] < 3:
            head.append(("GRIDUNIT", "\n 'METRES  ' '%s' /\n" % ("MAP" if c["map"] == 1 else rng.choice(["   ", " ", "    "]))))
        rng.shuffle(head)
    t = ""
    for k, s in head + secs:
        if c["comments"] and rng.random() < 0.4:
            t += rng.choice(COMM)
        t += k + s
    f = os.path.join(d, "f.grdecl")
    open(f, "w").write(t)
    g = v.G(f)
    co = None
    if c["map"] == 2:
        co = []
        for q in range(0, len(c["co"]), 3):
            x, y, z = c["co"][q:q + 3]
            co += [x0 + x * ex[0] + y * ey[0], y0 + x * ex[1] + y * ey[1], z]
    same(g, c, "file", co=co, tol=1e-3 if co else 6e-4)
    return c["n"][0] * c["n"][1] * c["n"][2] > 1, ["map%d" % c["map"]] + (["left-handed"] if c["map"] == 2 and c["left"] else []) + (["comments"] if c["comments"] else [])


@scratch
def check_broken(v, c, d):
    rng = random.Random(c["seed"])
    secs = [s for s in sections(dict(c, comments=0), rng) if s[0] not in ("NOECHO", "ECHO")]
    n = rng.randrange(len(secs))
    k, s = secs[n]
    t = "".join(a + b for a, b in secs[:n])
    f = os.path.join(d, "f.grdecl")
    kind = rng.randint(0, 3)
    if kind == 0 and k not in ("SPECGRID", "FAULTS", "CARFIN", "MULTIPLY", "GDORIENT"):   # values are missing
        w = s[:s.rindex("/")].split()
        drop = rng.randint(1, len(w))
        t += k + "\n" + " ".join(w[:len(w) - drop]) + " /\n" + "".join(a + b for a, b in secs[n + 1:])
        lab = "short"
    elif kind == 1 and k == "COORD":   # no size
        t = "".join(a + b for a, b in secs[1:])
        lab = "no size"
    elif kind == 2 and k == "FAULTS":
        bad = rng.choice([" 'F' 1 1 1 1 1 1 'Q' /\n/\n", " 'F' 1 1 1 1 1 'X' /\n/\n", " 'F' 1 1 1 x 1 1 'X' /\n/\n", " 'F' 1 1 1 1 1 1 1 'X' /\n/\n"])
        t += k + "\n" + bad
        lab = "bad fault"
    else:   # the file ends inside the data
        last = s.rstrip()
        stop = len(last) - (6 if k == "CARFIN" else 1)
        t += k + s[:rng.randint(1, stop)]
        lab = "cut " + k
    open(f, "w").write(t)
    err = raises(v, v.G, f)
    require(err, "a broken file (%s at %s) is read without an error", lab, k)
    require(raises(v, v.G, f + "x"), "a missing file is accepted")
    return True, [lab]


PROP = Prop("C26", [{"shim": "vecl", "mods": ["eclipsegrid", "geometry", "surface", "iotools", "pointset", "math", "exception", "grid"], "asan": False}], [
    Sub("round", lambda: full(), check_round, 2400, 30000, shards=3, rule="written and read back"),
    Sub("foreign", lambda: foreign(), check_foreign, 1800, 24000, shards=3, rule="files not made by the library"),
    Sub("broken", lambda: foreign(), check_broken, 1800, 24000, shards=2, rule="files that end early or have errors"),
], RULE, ["names without blanks and quotes", "coordinates within three decimals, parameters within five", "files with ACTNUM"])
