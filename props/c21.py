"""C21: wells (general, RMS, LAS and NORSAR) and blocking of wells."""
import math, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Histories of changes to the logs of a well, files in the RMS, LAS and NORSAR formats written by the check with any logs, units, missing codes, comments, line breaks and sections, wells written by the library and read back, and wells blocked in a grid. "
        "Non-trivial: at least three operations; a file with at least two logs and two rows; a blocked well with at least two cells.")

NAMES = ["X", "Y", "Z", "MD", "GR", "Vp", "vs", "RHOB", "FACIES", "Zone_Log", "poro", "x", "Gr"]
num = st.one_of(st.sampled_from([0.0, -999.0, 1.0, -999.25, 0.5]), st.integers(-50, 5000).map(float), gen.nice(-1e3, 1e7, 3), gen.nice(-5, 5, 5))
inum = st.one_of(st.sampled_from([0, -999, 1]), st.integers(-20, 300))


def scratch(f):
    def run(c):
        import vwell
        d = tempfile.mkdtemp()
        try:
            return f(c, vwell, d)
        finally:
            shutil.rmtree(d)
    return run


def raises(vwell, f, *a):
    try:
        f(*a)
    except (vwell.Exc, vwell.IOErr, vwell.FormatErr):
        return True
    return False


# ------------------------------------------------------------------ general wells
OPS = ["add_c", "add_d", "add_c", "add_d", "rem_c", "rem_d", "set_cv", "set_dv", "ref_c", "ref_d", "upper", "name", "missing", "dev", "n", "nn", "pos", "copy"]


@st.composite
def hist(draw):
    def logs(v):
        return {draw(st.sampled_from(NAMES)): draw(st.lists(v, max_size=4)) for _ in range(draw(st.integers(0, 3)))}
    return {"ctor": draw(st.integers(0, 3)), "name": draw(st.sampled_from(["", "A-1", "6507/7 B"])), "rm": draw(num), "im": draw(inum), "c": logs(num), "d": logs(inum),
            "ops": [{"op": draw(st.sampled_from(OPS)), "n": draw(st.sampled_from(NAMES)), "v": draw(st.lists(num, max_size=5)), "w": draw(st.lists(inum, max_size=5)), "i": draw(st.integers(0, 5)), "b": draw(st.booleans())} for _ in range(draw(st.integers(0, 12)))]}


def check_hist(c):
    import vwell
    C, Dd, nm, rm, im = {}, {}, "", -999.0, -999
    if c["ctor"] == 0:
        w = vwell.W()
    elif c["ctor"] == 1:
        nm, rm, im = c["name"], c["rm"], c["im"]
        w = vwell.W(nm, rm, im)
    elif c["ctor"] == 2:
        nm = c["name"]
        w = vwell.W(nm)
    else:
        nm, C, Dd = c["name"], {k: list(v) for k, v in c["c"].items()}, {k: list(v) for k, v in c["d"].items()}
        w = vwell.W(C, Dd, nm)
    dev, n, nn, pos = False, 0, 0, (0.0, 0.0)
    for o in c["ops"] + [{"op": "", "n": "X", "v": [], "w": [], "i": 0, "b": False}]:
        k, N, i = o["op"], o["n"], o["i"]
        if k == "add_c":
            w.add_c(N, o["v"])
            C[N] = list(o["v"])
        elif k == "add_d":
            w.add_d(N, o["w"])
            Dd[N] = list(o["w"])
        elif k == "rem_c":
            w.rem_c(N)
            C.pop(N, None)
        elif k == "rem_d":
            w.rem_d(N)
            Dd.pop(N, None)
        elif k in ("set_cv", "ref_c") and i < len(C.get(N, [])):
            x = (o["v"] + [7.5])[0]
            (w.set_cv(x, i, N) if k == "set_cv" else w.clog_set(N, i, x))
            C[N][i] = x
        elif k in ("set_dv", "ref_d") and i < len(Dd.get(N, [])):
            x = (o["w"] + [7])[0]
            (w.set_dv(x, i, N) if k == "set_dv" else w.dlog_set(N, i, x))
            Dd[N][i] = x
        elif k == "upper":
            if len({q.upper() for q in C}) == len(C) and len({q.upper() for q in Dd}) == len(Dd):
                w.upper()
                C = {q.upper(): v for q, v in C.items()}
                Dd = {q.upper(): v for q, v in Dd.items()}
        elif k == "name":
            nm = "well " + N
            w.set_name(nm)
        elif k == "missing":
            rm = (o["v"] + [-99.0])[0]
            im = int(rm)
            w.set_missing(rm)
        elif k == "dev":
            dev = o["b"]
            w.set_dev(dev)
        elif k == "n":
            n = i
            w.set_n(i)
        elif k == "nn":
            nn = i
            w.set_nn(i)
        elif k == "pos":
            pos = (i + 0.5, -i - 2.25)
            w.set_pos(*pos)
        elif k == "copy":
            old, w = w, w.copy()
            old.set_name("old")
            for q in list(C):
                old.rem_c(q)
        require(dict(w.cont()) == C, "continuous logs %s, expected %s after %s", w.cont(), C, k)
        require(dict(w.disc()) == Dd, "discrete logs %s, expected %s after %s", w.disc(), Dd, k)
        require((w.nlog(), w.ncont()) == (len(C) + len(Dd), len(C)), "number of logs")
        require(w.name() == nm and w.dev() == dev and w.n() == n and w.nn() == nn and tuple(w.pos()) == pos, "name %s, deviated %s, number of data %s %s, position %s", w.name(), w.dev(), w.n(), w.nn(), w.pos())
        require(w.cm() == rm and w.im() == im and w.miss_c(rm) and w.miss_d(im) and not w.miss_c(rm + 1) and not w.miss_d(im + 1), "missing codes %s and %s, expected %s and %s", w.cm(), w.im(), rm, im)
        for q in {N, "GR"}:
            require(w.has_c(q) == (q in C) and w.has_d(q) == (q in Dd), "log %s", q)
            require([w.cv(j, q) for j in range(6)] == (C.get(q, []) + [rm] * 6)[:6] and [w.dv(j, q) for j in range(6)] == (Dd.get(q, []) + [im] * 6)[:6], "values of %s", q)
            if q in C:
                require(w.clog(q) == C[q] and w.len(q) == len(C[q]), "log %s", q)
            if q in Dd:
                require(w.dlog(q) == Dd[q], "log %s", q)
                require(dict(w.names(q)) == {j: str(j) for j in Dd[q] if j != im}, "names %s of values %s with missing code %s", w.names(q), Dd[q], im)
    return len(c["ops"]) >= 3, ["ctor%d" % c["ctor"]]


# ------------------------------------------------------------------ RMS wells
FMT = ["%.8g", "%.3f", "%.7e", "%g"]


def fmtval(x, k):
    return FMT[k % len(FMT)] % x


@st.composite
def rms(draw):
    names = draw(st.lists(st.sampled_from([q for q in NAMES if q.upper() not in "XYZ"]), unique_by=str.upper, max_size=5))
    logs = []
    for q in names:
        if draw(st.integers(0, 2)) == 0:
            codes = draw(st.lists(st.integers(-3, 40), unique=True, max_size=4))
            logs.append({"n": q, "disc": {k: draw(st.sampled_from(["sand", "shale", "F%d" % k, "1"])) for k in codes}})
        else:
            logs.append({"n": q, "unit": draw(st.sampled_from([None, None, ["unit1", "scale1"], ["m", "lin"], ["DISCO", "log"]]))})
    nr = draw(st.integers(0, 5))
    rows = [[draw(num), draw(num), draw(num)] + [draw(st.one_of(st.just(-999), st.sampled_from(sorted(g["disc"])) if g.get("disc") else inum)) if "disc" in g else draw(num) for g in logs] for _ in range(nr)]
    return {"logs": logs, "rows": rows, "name": draw(st.sampled_from(["A-1", "34/10-A", "w"])), "pos": [draw(num), draw(num)], "l1": draw(st.sampled_from(["1.0", "", "some text"])), "l2": draw(st.sampled_from(["Undefined", "", "two words"])),
            "fmt": draw(st.lists(st.integers(0, 3), min_size=7, max_size=7)), "rest": draw(st.booleans()), "ws": draw(st.integers(0, 3)), "bad": draw(st.integers(0, 7)), "cut": draw(st.integers(0, 6))}


def rmstext(c, logs, rows, fmts, nlog=None):
    e = {0: "\n", 1: " \n", 2: "\n", 3: " \n"}[c["ws"]]
    s = [c["l1"], c["l2"], "%s %s %s%s" % (c["name"], fmts(c["pos"][0], 0), fmts(c["pos"][1], 1), " 12.5" if c["rest"] else ""), "%d" % (len(logs) if nlog is None else nlog)]
    for g in logs:
        if "disc" in g:
            s.append(" ".join([g["n"], "DISC"] + ["%d %s" % q for q in sorted(g["disc"].items())]))
        else:
            s.append(" ".join([g["n"]] + (g["unit"] or [])))
    sep = "  " if c["ws"] >= 2 else " "
    for r in rows:
        s.append(("   " if c["ws"] == 3 else "") + sep.join(q if isinstance(q, str) else ("%d" % q if i > 2 and "disc" in logs[i - 3] and c["fmt"][i % 7] % 2 else fmts(q, i)) for i, q in enumerate(r)))
    return e.join(s) + (e if c["rest"] or not rows else "")


def rms_ok(vwell, w, c, conv):
    rows = c["rows"]
    exp = {q: [conv(r[i], i) for r in rows] for i, q in enumerate("XYZ")}
    dexp = {}
    for i, g in enumerate(c["logs"]):
        if "disc" in g:
            dexp[g["n"].upper()] = [int(r[i + 3]) for r in rows]
        else:
            exp[g["n"].upper()] = [conv(r[i + 3], i + 3) for r in rows]
    require(dict(w.cont()) == exp, "continuous logs %s, expected %s", w.cont(), exp)
    require(dict(w.disc()) == dexp, "discrete logs %s, expected %s", w.disc(), dexp)
    for g in c["logs"]:
        if "disc" in g:
            require(dict(w.names(g["n"].upper())) == g["disc"], "names %s, expected %s", w.names(g["n"].upper()), g["disc"])
    require(w.name() == c["name"] and tuple(w.pos()) == (conv(c["pos"][0], 0), conv(c["pos"][1], 1)) and w.n() == len(rows), "name %s, position %s, number of data %s", w.name(), w.pos(), w.n())
    require(w.cm() == -999.0 and w.im() == -999, "missing codes %s %s", w.cm(), w.im())


@scratch
def check_rms(c, vwell, d):
    f = d + "/well.rms"
    fm = lambda x, i: fmtval(x, c["fmt"][i % 7])
    conv = lambda x, i: float(fm(x, i))

    def put(text):
        open(f, "w", newline="").write(text)
    put(rmstext(c, c["logs"], c["rows"], fm))
    w = vwell.Rms(f)
    rms_ok(vwell, w, c, conv)
    g = d + "/out"
    w.write(g)
    c8 = lambda x, i: float("%.8g" % conv(x, i))
    L = open(g).read().split("\n")
    require(L[0].rstrip() == c["l1"] and L[1].rstrip() == c["l2"], "first lines %s", L[:2])
    require(L[2].split() == [c["name"]] + ["%.8g" % conv(c["pos"][i], i) for i in (0, 1)] and L[3].split() == ["%d" % len(c["logs"])], "header %s", L[2:4])
    for q, l in zip(c["logs"], L[4:]):
        ex = [q["n"].upper()] + (["DISC"] + [t for kv in sorted(q["disc"].items()) for t in ("%d" % kv[0], kv[1])] if "disc" in q else q["unit"] or [])
        require(l.split() == ex, "log line %s, expected %s", l, ex)
    body = [l.split() for l in L[4 + len(c["logs"]):] if l]
    ex = [["%d" % x if i > 2 and "disc" in c["logs"][i - 3] else "%.8g" % conv(x, i) for i, x in enumerate(r)] for r in c["rows"]]
    require(body == ex, "data %s, expected %s", body, ex)
    rms_ok(vwell, vwell.Rms(g), c, c8)
    t, fmt, kind = vwell.read(g, 0)
    require(fmt == 0 and kind == 0 and t.cont() == vwell.Rms(g).cont(), "ReadWell")
    # as a general well, and an RMS well made of it
    if c["rows"]:
        W = vwell.W(c["name"], c["rows"][0][0], 17) if c["bad"] % 2 else vwell.W(c["name"])
        for q, v in w.cont().items():
            W.add_c(q, v)
        for q, v in w.disc().items():
            W.add_d(q, v)
        R = vwell.Rms(W)
        require(R.cont() == w.cont() and R.disc() == w.disc() and R.name() == c["name"] and R.cm() == W.cm() and R.im() == W.im(), "RMS well of a well differs from it")
        R.write(g)
        Q = vwell.Rms(g)
        require(Q.name() == c["name"], "name")
        require({q: v for q, v in Q.cont().items()} == {q: [float("%.8g" % x) for x in v] for q, v in w.cont().items()}, "logs %s of an RMS well made of a well with %s, written and read back", Q.cont(), w.cont())
        require(Q.disc() == w.disc(), "discrete logs of an RMS well made of a well, written and read back")
        require(tuple(Q.pos()) == tuple(float("%.8g" % w.cont()[q][0]) for q in "XY"), "position %s", Q.pos())
        for q, v in w.disc().items():
            ex = {k: str(k) for k in v if k != W.im()}
            require(dict(R.names(q)) == ex and dict(Q.names(q)) == ex, "names %s and %s of %s", R.names(q), Q.names(q), v)
    # files that are wrong
    b = c["bad"]
    rows = [list(r) for r in c["rows"]]
    if rows and b == 0:
        k = c["cut"] % len(rows)
        rows[k] = rows[k][:-1]
        put(rmstext(c, c["logs"], rows, fm))
        require(raises(vwell, vwell.Rms, f), "file that lacks a value on a line is read")
    elif rows and b == 1:
        k = c["cut"] % len(rows)
        rows[k][c["cut"] % len(rows[k])] = "abc"
        put(rmstext(c, c["logs"], rows, fm))
        require(raises(vwell, vwell.Rms, f), "file with a value that is no number is read")
    elif b == 2:
        put("\n".join([c["l1"], c["l2"], c["name"] + " 12"] + ["", "%d" % len(c["logs"])][: c["cut"] % 2]))
        require(raises(vwell, vwell.Rms, f), "file that ends in its header is read")
    elif b == 3:
        put("\n".join([c["l1"], c["l2"], c["name"] + " 12 x", "1", "GR m lin", "1 2 3 4"]))
        require(raises(vwell, vwell.Rms, f), "position that is no number is read")
    elif b == 4:
        put(rmstext(c, c["logs"] + [{"n": "Q", "disc": {3: "a"}}], [r + [3] for r in rows], fm).replace("DISC 3 a", "DISC a 3"))
        require(raises(vwell, vwell.Rms, f), "code that is no number is read") if not any(g.get("disc") == {3: "a"} for g in c["logs"]) else None
    elif b == 5:
        n = len(c["logs"]) + 1 + c["cut"] % 3
        put(rmstext(c, c["logs"], [], fm, n).rstrip("\n"))
        require(raises(vwell, vwell.Rms, f), "file that ends after %d of %d logs is read", len(c["logs"]), n)
        put(rmstext(c, c["logs"], rows, fm, -1 - c["cut"] % 5))
        require(raises(vwell, vwell.Rms, f), "file with %d logs is read", -1 - c["cut"] % 5)
        require(raises(vwell, vwell.Rms, d + "/none"), "file that does not exist is read")
    return len(c["logs"]) >= 2 and len(c["rows"]) >= 2, ["disc" if any("disc" in g for g in c["logs"]) else "cont"]


# ------------------------------------------------------------------ LAS wells
text = st.sampled_from(["", "A company", "North sea", "12 May 2001", "x: y", "a.b.c"])


@st.composite
def las(draw):
    names = draw(st.lists(st.sampled_from(["DEPT", "GR", "Vp", "RHOB", "TIME", "NPHI 2", "cal"]), unique=True, min_size=1, max_size=5))
    logs = [{"n": q, "u": draw(st.sampled_from(["", "M", "G/C3", "us/ft"])), "d": draw(st.sampled_from(["", "1 depth", "a.b : c", "45 310"])), "v": draw(st.sampled_from(["", "45 310 01"]))} for q in names]
    nr = draw(st.integers(1, 6))
    rows = [[draw(num) for _ in logs] for _ in range(nr)]
    null = draw(st.sampled_from([None, -999.25, -999.0, -9999.0, 0.0]))
    return {"logs": logs, "rows": rows, "null": null, "wrap": draw(st.booleans()), "sep": draw(st.sampled_from([" ", ",", ", ", "\t", "   "])),
            "reg": draw(st.integers(0, 3)), "start": draw(gen.nice(-50, 3000, 2)), "step": draw(st.sampled_from([0.5, 0.1524, 1.0, 0.125, 4.0])), "name": draw(st.sampled_from([None, "", "Well 6507/7-1", "A-1"])), "pos": draw(st.sampled_from([None, [672591.73, 9825042.82], [0.5, -3.25]])),
            "wi": draw(st.lists(st.sampled_from(["COMP . A company : the company", "FLD. Troll :", "DATE . 12.5.2001 : date", "UWI .  : "]), unique=True, max_size=3)), "vi": draw(st.sampled_from([[], ["PROG . x : 1"]])),
            "p": draw(st.lists(st.sampled_from(["MUD . GEL : type", "BHT.DEGC 35.5 : temp", "free text"]), max_size=2)), "o": draw(st.lists(st.sampled_from(["note one", "another. note: 2"]), max_size=2)),
            "order": draw(st.permutations(["W", "P", "O", "C"])), "com": draw(st.integers(0, 3)), "fmt": draw(st.lists(st.integers(0, 3), min_size=7, max_size=7)), "bad": draw(st.integers(0, 12)), "k": draw(st.integers(0, 30)), "long": draw(st.booleans()), "ind": draw(st.booleans())}


def lastext(c, rows=None, order=None, extra=None, drop=None, head=None):
    rows = c["rows"] if rows is None else rows
    e = "\n"
    com = ["# a comment ~ A . :", ""] if c["com"] else []
    V = ["~VERSION INFORMATION" if c["long"] else "~V"] + ["VERS. 2.0 : CWLS"] + com + ["WRAP. %s : wrap" % ("YES" if c["wrap"] else "NO")] + (["DLM . COMMA : delimiter"] if "," in c["sep"] else []) + c["vi"]
    W = ["~Well information" if c["long"] else "~W"] + com
    if head:
        W += head
    elif c["reg"] == 0:
        W += ["STRT.M %.4f : start" % c["start"], "STOP.M %.4f : stop" % (c["start"] + (len(c["rows"]) - 1) * c["step"]), "STEP.M %.4f : step" % c["step"]]
    elif c["reg"] == 1:
        W += ["STRT.M %.4f : start" % c["start"], "STOP.M : stop", "STEP.M 0 :"]
    elif c["reg"] == 2:   # downwards: not used for the number of records
        W += ["STRT.M %.4f : start" % c["start"], "STOP.M %.4f : stop" % (c["start"] - 10), "STEP.M %.4f : step" % -c["step"]]
    if c["null"] is not None:
        W.append("NULL . %s : missing" % c["null"])
    if c["name"] is not None:
        W.append("WELL . %s : name" % c["name"])
    if c["pos"]:
        W += ["XWELL .m %s : x" % c["pos"][0], "YWELL .m %s : y" % c["pos"][1]]
    W += c["wi"]
    C = ["~Curve information"] + com + ["%s .%s %s : %s" % (g["n"], g["u"], g["v"], g["d"]) for g in c["logs"]]
    P = ["~Parameter"] + c["p"] + com if c["p"] else []
    O = ["~Other"] + c["o"] + (["# no"] if c["com"] == 2 else []) if c["o"] else []
    S = {"W": W, "P": P, "O": O, "C": C, "V": V}
    L = (["# file", ""] if c["com"] else [])
    for q in ["V"] + list(order or c["order"]):
        if q != drop:
            L += S.get(q, extra) + ([""] if c["com"] == 3 else [])
    L.append("~ASCII" if c["long"] else "~A  DEPTH  GR")
    if c.get("ind"):   # blanks before and after the lines of the header
        L = L[:1] + [("  " if (i + c["k"]) % 3 == 0 else "") + l + (" " if (i + c["k"]) % 4 == 0 else "") for i, l in enumerate(L[1:])]
    for r in rows:
        t = [q if isinstance(q, str) else fmtval(q, c["fmt"][i % 7]) for i, q in enumerate(r)]
        if c["wrap"]:
            L.append(t[0])
            n = 2 + c["k"] % 2
            L += [c["sep"].join(t[i:i + n]) for i in range(1, len(t), n)]
        else:
            L.append((" " if c["k"] % 3 else "") + c["sep"].join(t))
        if c["com"] == 1 and c["k"] % 2 and not c["wrap"]:
            L.append(["", "  "][c["k"] % 4 // 2])
    return e.join(L) + (e if c["k"] % 5 else "")


def las_ok(w, c, conv, stem, lname=None):
    exp = {g["n"]: [conv(r[i], i) for r in c["rows"]] for i, g in enumerate(c["logs"])}
    require(dict(w.cont()) == exp, "logs %s, expected %s", w.cont(), exp)
    require(len(w.disc()) == 0 and w.n() == len(c["rows"]), "number of data %s", w.n())
    for g in c["logs"]:
        require(w.unit(g["n"]) == g["u"], "unit %s of %s, expected %s", w.unit(g["n"]), g["n"], g["u"])
    null = -999.0 if c["null"] is None else c["null"]
    require(w.cm() == null, "missing code %s, expected %s", w.cm(), null)
    require(w.name() == (c["name"] or stem), "name %s, expected %s", w.name(), c["name"] or stem)
    require(tuple(w.pos()) == tuple(c["pos"] or (0.0, 0.0)), "position %s", w.pos())


def sections(t):
    out, cur = {}, None
    for l in t.split("\n"):
        l = l.strip()
        if not l or l[0] == "#":
            continue
        if l[0] == "~":
            cur = out.setdefault(l[1], [])
        else:
            cur.append(l)
    return out


@scratch
def check_las(c, vwell, d):
    f = d + "/stem-1.las"

    def put(t, name=f):
        open(name, "w", newline="").write(t)
    conv = lambda x, i: float(fmtval(x, c["fmt"][i % 7]))
    put(lastext(c))
    w = vwell.Las(f)
    las_ok(w, c, conv, "stem-1")
    t, fmt, kind = vwell.read(f, [0, 2, 5][c["k"] % 3])
    require(fmt == 2 and kind == 2 and t.cont() == w.cont() and t.name() == w.name(), "ReadWell")
    g = d + "/out.x"
    w.write(g, ["first", "# second"] if c["k"] % 2 else [])
    s = sections(open(g).read())
    norm = lambda L: [q.strip() for q in L]
    if c["logs"]:
        require(set(s["W"]) >= set(norm(c["wi"])) and set(s["V"]) >= set(norm(c["vi"])) and s.get("P", []) == norm(c["p"]) and s.get("O", []) == norm(c["o"]), "sections %s", s)
        cv = [q["n"] for q in c["logs"]], [q["d"] for q in c["logs"]]
        require(([q.split(" .")[0] for q in s["C"]], [q[q.index(":") + 1:].strip() for q in s["C"]]) == cv, "curves %s, expected %s", s["C"], cv)
        ex = [["%.3f" % conv(x, i) for i, x in enumerate(r)] for r in c["rows"]]
        require([l.split() for l in s["A"]] == ex, "data %s, expected %s", s["A"], ex)
        R = vwell.Las(g)
        c2 = dict(c)
        las_ok(R, c2, lambda x, i: float("%.3f" % conv(x, i)), "out")
        t2, fmt, kind = vwell.read(g, 2)
        require(kind == 2 and t2.cont() == R.cont(), "ReadWell")
    # files that are wrong
    b, k = c["bad"], c["k"]
    rows = [list(r) for r in c["rows"]]
    bad = None
    if b == 0:
        bad = "lacks the section", lastext(c, order=["W", "P", "O", "C"], drop="VWC"[k % 3])
    elif b == 1:
        bad = "has a section twice", lastext(c, order=list(c["order"]) + ["WCV"[k % 3]])
    elif b == 2:
        bad = "has a section twice", lastext(dict(c, p=c["p"] or ["x"], o=c["o"] or ["y"]), order=list(c["order"]) + ["PO"[k % 2]])
    elif b == 3:
        bad = "has an unknown section", lastext(c, order=list(c["order"][:k % 5]) + ["Q"] + list(c["order"][k % 5:]), extra=["~Q stuff", "x . y : z"])
    elif b == 4 and len(rows) > 1 and c["reg"] == 0 and c["null"] != 0.0:
        bad = "lacks a record", lastext(c, rows=rows[:-1])
    elif b == 5:
        rows[k % len(rows)][k % len(rows[0])] = "abc"
        bad = "has a value that is no number", lastext(c, rows=rows)
    elif b == 6 and not c["wrap"]:
        rows[k % len(rows)] += ["1.5"]
        bad = "has a value too many", lastext(c, rows=rows)
    elif b == 7 and not c["wrap"] and len(rows[0]) > 1:
        rows[k % len(rows)].pop()
        bad = "lacks a value", lastext(c, rows=rows)
    elif b == 8:
        bad = "has a header value that is no number", lastext(dict(c, null="abc") if k % 2 else dict(c, pos=["1", "1x"]))
    elif b == 9:
        bad = "has no curves", lastext(dict(c, logs=[], rows=[]))
    elif b == 10:
        bad = "has no data", lastext(c).split("~A")[0]
    elif b == 11:
        bad = "lacks a colon", lastext(dict(c, wi=c["wi"] + ["FLD . Troll"]))
    if bad:
        put(bad[1])
        require(raises(vwell, vwell.Las, f), "file that %s is read", bad[0])
    if b == 12:
        put(lastext(c, head=["STRT.M 100 : start", "STOP.M 200 : stop", "STEP.M -0.5 : step"]))
        las_ok(vwell.Las(f), c, conv, "stem-1")
        require(raises(vwell, vwell.Las, d + "/none.las"), "file that does not exist is read")
    # a well that is made, written and read
    n = len(c["rows"])
    st_, dp = round(c["start"], 1), [0.5, 1.0, 4.0][k % 3]
    m = vwell.Las("Made well", n, st_, dp, bool(k % 2), "MS" if k % 2 else "M", "Comp any", "Field", "Loc", "Today", "id 1")
    dl = "TIME" if k % 2 else "DEPT"
    exp = {dl: [st_ + i * dp for i in range(n)]}
    extra = [q for q in c["logs"] if q["n"] != dl]
    for i, q in enumerate(extra):
        v = [round(r[i], 3) for r in c["rows"]]
        exp[q["n"]] = v
        m.add(q["n"], q["u"], q["d"], v)
    require(dict(m.cont()) == exp and m.name() == "Made well" and m.cm() == -999.25, "made well %s, expected %s", m.cont(), exp)
    require(m.unit(dl) == ("MS" if k % 2 else "M") and all(m.unit(q["n"]) == q["u"] for q in extra), "units of made well")
    m.write(f, ["comment"])
    R = vwell.Las(f)
    require(dict(R.cont()) == {q: [float("%.3f" % x) for x in v] for q, v in exp.items()}, "made well reads back as %s, expected %s", R.cont(), exp)
    require(R.name() == "Made well" and R.cm() == -999.25 and all(R.unit(q) == m.unit(q) for q in exp), "made well reads back with name %s, missing %s", R.name(), R.cm())
    s = sections(open(f).read())
    kv = {l.split(".")[0].strip(): l[l.index(" ", l.index(".")):l.rindex(":")].strip() for l in s["W"]}
    require(all(kv.get(a) == v for a, v in (("COMP", "Comp any"), ("WELL", "Made well"), ("FLD", "Field"), ("LOC", "Loc"), ("DATE", "Today"), ("UWI", "id 1"))), "well section %s", s["W"])
    require_close([float(kv[a]) for a in ("STRT", "STOP", "STEP", "NULL")], [st_, st_ + (n - 1) * dp, dp, -999.25], "start, stop, step, missing", 0, 1e-5)
    return len(c["logs"]) >= 2 and len(rows) >= 2, ["wrap" if c["wrap"] else "plain", "bad%d" % b]


# ------------------------------------------------------------------ NORSAR wells
@st.composite
def norsar(draw):
    def sec(names, first):
        cols = draw(st.lists(st.sampled_from(names), unique_by=str.upper, max_size=3))
        cols.insert(draw(st.integers(0, len(cols))), "MD")
        mds = sorted(draw(st.lists(st.integers(0, 12), unique=True, min_size=1, max_size=6)))
        return {"cols": cols, "u": [draw(st.sampled_from(["m", "s", "kg/m3"])) for _ in cols], "rows": [[m / 2 + 100 if q == "MD" else draw(num) for q in cols] for m in mds]}
    secs = [sec(["Tvd", "UTMX", "UTMY", "TWT"], True)] + [sec([["Vp", "vs", "rho"], ["GR", "Phi", "sw"]][i], False) for i in range(draw(st.integers(0, 2)))]
    return {"secs": secs, "pos": [draw(num), draw(num)], "null": draw(st.sampled_from([-999.25, -999.0, -9999.0])), "rest": draw(st.sampled_from(["", " extra words", " 5"])), "fmt": draw(st.lists(st.integers(0, 2), min_size=7, max_size=7)),
            "bad": draw(st.integers(0, 11)), "k": draw(st.integers(0, 30)), "sep": draw(st.sampled_from([" ", "  ", "\t"])), "sub": draw(st.booleans())}


@scratch
def check_norsar(c, vwell, d):
    base = d + "/sub.d" if c["sub"] else d
    os.makedirs(base, exist_ok=True)
    f = base + "/well-1.nwh"
    secs, k = c["secs"], c["k"]
    fm = lambda x, i: "%.8g" % x if c["fmt"][i % 7] == 0 else "%.3f" % x if c["fmt"][i % 7] == 1 else "%.7e" % x
    r = c["rest"]

    def write(version="1000", form="ASCII", first="[Version information]", md="MD", change=None, nrow=0, skip=None):
        L = [first, "VERSION %s" % version, "FORMAT %s" % form, "[Well information]"]
        for q, u, v in (("MDMIN", "m", 0), ("MDMAX", "m", 4000), ("MDMINSTEP", "m", 0.5), ("MDMAXSTEP", "m", 2), ("UTMX", "m", c["pos"][0]), ("UTMY", "m", c["pos"][1]), ("EKB", "m", 25), ("UNDEFVAL", "-", c["null"])):
            L.append("%s %s %s%s" % (q, u, fm(v, 0) if q.startswith("UTM") else v, r))
        for i, s in enumerate(secs):
            if i == 0:
                L.append("[Well track data information]")
            else:
                if i == 1:
                    L.append("[Well log data information]")
                L += ["LOGNAME Logs%d" % i, "LOGFILE logs%d.n%02d" % (i, i)]
            L += ["NUMMD %d%s" % (len(s["rows"]) + (nrow if i == k % len(secs) else 0), r), "NUMPAR %d%s" % (len(s["cols"]), r)]
            L += ["%s %s%s" % (md if q == "MD" and i == k % len(secs) else q, u, r) for q, u in zip(s["cols"], s["u"])]
            if i == 0 and len(secs) == 1:
                L.append("[Well log data information]")
            name = base + ("/well-1.nwt" if i == 0 else "/logs%d.n%02d" % (i, i))
            rows = [[fm(x, j) for j, x in enumerate(row)] for row in s["rows"]]
            if change and i == k % len(secs):
                change(rows)
            if skip == i:
                if os.path.exists(name):
                    os.remove(name)
            else:
                open(name, "w").write("MD and more 1 2\n" + ("second line 3\n" if i else "") + "\n".join(c["sep"].join(q) for q in rows) + "\n" * (k % 2))
        open(f, "w").write("\n".join(L) + "\n")
    write()
    w = vwell.Nor(f)
    mds = sorted({float(fm(row[s["cols"].index("MD")], s["cols"].index("MD"))) for s in secs for row in s["rows"]})
    exp = {"MD": mds}
    for s in secs:
        mi = s["cols"].index("MD")
        by = {float(fm(row[mi], mi)): row for row in s["rows"]}
        for j, q in enumerate(s["cols"]):
            if q != "MD":
                exp[q.upper()] = [float(fm(by[x][j], j)) if x in by else c["null"] for x in mds]
    require(dict(w.cont()) == exp, "logs %s, expected %s", w.cont(), exp)
    require(w.n() == len(mds) and w.cm() == c["null"], "number of data %s, missing %s", w.n(), w.cm())
    p = tuple(float(fm(q, 0)) for q in c["pos"])
    require(tuple(w.pos()) == p and tuple(w.orig()) == p, "position %s %s, expected %s", w.pos(), w.orig(), p)
    for i, s in enumerate(secs):
        for q, u in zip(s["cols"], s["u"]):
            if q != "MD" or i == 0:
                require(w.unit(q) == u and w.unit(q.upper()) == u, "unit %s of %s, expected %s", w.unit(q), q, u)
    require(w.unit("nothing") == "", "unit of a log that does not exist")
    t, fmt, kind = vwell.read(f, [0, 1, 2, 7][k % 4])
    require(fmt == 1 and kind == 1 and t.cont() == w.cont() and t.name() == "well-1", "ReadWell gives %s", t.name())
    b = c["bad"]

    def cut(rows):
        rows[k % len(rows)].pop()

    def more(rows):
        rows[k % (len(rows) - 1)].append("1.5")

    def nan(rows):
        rows[k % len(rows)][0] = "1x"
    s = secs[k % len(secs)]
    todo = {0: dict(version="1001"), 1: dict(form="BINARY"), 2: dict(first="Version information"), 3: dict(md="MDX"), 4: dict(change=cut), 5: dict(change=more) if len(s["rows"]) > 1 else None, 6: dict(nrow=1), 7: dict(change=nan), 8: dict(skip=k % len(secs))}.get(b)
    if todo:
        write(**todo)
        require(raises(vwell, vwell.Nor, f), "file changed by %s is read", sorted(todo.items(), key=str))
    elif b == 9:
        L = open(f).read().split("\n")
        open(f, "w").write("\n".join(L[:4 + k % 8]))
        require(raises(vwell, vwell.Nor, f), "file that ends in its header is read")
    elif b == 10:
        require(raises(vwell, vwell.Nor, d + "/none.nwh"), "file that does not exist is read")
    return len(exp) >= 2 and len(mds) >= 2, ["secs%d" % len(secs)]


# ------------------------------------------------------------------ blocking
@st.composite
def block(draw):
    n = [draw(st.integers(1, 3)) for _ in range(3)]
    m = draw(st.integers(1, 8))
    fr = st.sampled_from([0.1, 0.5, 0.9, 0.3])
    names = draw(st.lists(st.sampled_from(["GR", "a", "zz", "VP"]), unique=True, max_size=3))
    dn = draw(st.lists(st.sampled_from(["F", "zone"]), unique=True, max_size=2))
    return {"n": n, "geo": [draw(gen.nice(-100, 1000, 1)), draw(gen.nice(-100, 1000, 1)), draw(gen.nice(-100, 1000, 1)), draw(st.sampled_from([3.0, 50.0])), draw(st.sampled_from([6.0, 40.0])), draw(st.sampled_from([1.0, 30.0])), draw(st.sampled_from([0.0, 0.0, 0.5, -2.0]))],
            "p": [[draw(st.integers(0, n[a] - 1)) + draw(fr) for a in range(3)] for _ in range(m)], "rm": draw(st.sampled_from([-999.0, -99.0, 1.0])), "im": draw(st.sampled_from([-999, 2])),
            "c": {q: [draw(st.sampled_from([1.0, 2.5, -99.0, -999.0, 7.0])) for _ in range(m)] for q in names}, "d": {q: [draw(st.sampled_from([0, 1, 2, -999, 4])) for _ in range(m)] for q in dn}, "fac": draw(st.booleans())}


def check_block(c):
    import vwell
    g, n = c["geo"], c["n"]
    cs, sn = math.cos(g[6]), math.sin(g[6])
    cells, xyz = [], []
    for p in c["p"]:
        u, v, z = g[3] * p[0] / n[0], g[4] * p[1] / n[1], g[2] + g[5] * p[2] / n[2]
        xyz.append((g[0] + cs * u - sn * v, g[1] + sn * u + cs * v, z))
        cells.append(tuple(int(q) for q in p))
    w = vwell.W("W1", c["rm"], c["im"])
    logs = dict(c["c"])
    for i, q in enumerate("xyz"):
        logs[q] = [p[i] for p in xyz]
    for q, v in logs.items():
        w.add_c(q, v)
    for q, v in c["d"].items():
        w.add_d(q, v)
    before = (w.cont(), w.disc())
    b = vwell.block(w, g, n[0], n[1], n[2], c["fac"])
    order = list(dict.fromkeys(cells))
    require(set(b.cont()) == set(logs) and set(b.disc()) == set(c["d"]), "logs %s of the blocked well", (b.cont(), b.disc()))
    for q, v in logs.items():
        require(b.len(q) == len(order), "%d blocks of %s, expected %d", b.len(q), q, len(order))
        for j, cell in enumerate(order):
            x = [y for y, cc in zip(v, cells) if cc == cell and y != c["rm"]]
            got = b.clog(q)[j]
            if x:
                require(abs(got - sum(x) / len(x)) <= 1e-9 * (1 + max(map(abs, x))), "block %d of %s is %s, expected the mean of %s", j, q, got, x)
            else:
                require(b.miss_c(got), "block %d of %s without values is %s, missing is %s", j, q, got, b.cm())
    for q, v in c["d"].items():
        for j, cell in enumerate(order):
            x = [y for y, cc in zip(v, cells) if cc == cell and y != c["im"]]
            got = b.dlog(q)[j]
            if x:
                require(min(x) <= got <= max(x), "block %d of %s is %s for the values %s", j, q, got, x)
            else:
                require(b.miss_d(got), "block %d of %s without values is %s, missing is %s", j, q, got, b.im())
    require(b.name() == "W1blocked" and (w.cont(), w.disc()) == before, "name %s", b.name())
    return len(order) >= 2, ["facies" if c["fac"] else "cont"]


PROP = Prop("C21", [{"shim": "vwell", "mods": ["well", "volume", "stormgrid", "surface", "iotools", "math"], "asan": False}], [
    Sub("history", hist, check_hist, 2400, 30000, shards=3, rule="at least three operations"),
    Sub("rms", rms, check_rms, 3200, 40000, shards=3, rule="at least two logs and two rows"),
    Sub("las", las, check_las, 3600, 40000, shards=4, rule="at least two logs and two rows"),
    Sub("norsar", norsar, check_norsar, 2400, 30000, shards=3, rule="at least two logs and two rows"),
    Sub("block", block, check_block, 1600, 20000, shards=2, rule="at least two blocks"),
], RULE, ["names without white space in RMS and NORSAR files; one log per name; measured depths increasing; files of wells as read or made, with logs added by LasWell::AddLog; well positions inside the grid when blocking"])
