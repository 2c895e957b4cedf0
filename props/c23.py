"""C23: wavelets."""
import math, os, shutil, tempfile
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("Histories of scaling, resizing, resampling, writing and reading of wavelets of any length, and files in the Jason, Syntool, Strata and Landmark formats written by the check with any position of time zero. "
        "Non-trivial: at least two operations on at least three samples; a file of at least three samples.")
val = st.one_of(st.sampled_from([0.0, 1.0, -0.5]), gen.nice(-100, 100, 4), gen.nice(-1, 1, 6))
dts = st.sampled_from([1.0, 2.0, 4.0, 0.5, 0.1, 0.3, 0.25, 1.5])
NAN = float("nan")
JASON, SYN, STRATA, LAND = 1, 2, 3, 4


def scratch(f):
    def run(c):
        import vpts
        d = tempfile.mkdtemp()
        try:
            return f(c, vpts, d)
        finally:
            shutil.rmtree(d)
    return run


def raises(vpts, f, *a):
    try:
        f(*a)
    except (vpts.Exc, vpts.IOErr, vpts.FormatErr):
        return True
    return False


@st.composite
def wfile(draw, big=9):
    n = draw(st.integers(1, big))
    return {"kind": draw(st.integers(1, 4)), "v": draw(st.lists(val, min_size=n, max_size=n)), "c": draw(st.integers(0, n - 1)), "dt": draw(dts), "com": draw(st.integers(0, 3)), "fmt": draw(st.sampled_from(["%g", "%.6f", "%.8e"])), "k": draw(st.integers(0, 20)), "nl": draw(st.booleans()), "off": draw(st.sampled_from([0.0, 0.0, 1e-5, -1e-5, 0.3, -0.3, 0.45, -0.45]))}


def start(c, cen):
    """Start time of a Jason file: the time zero is rounded to the nearest sample."""
    return repr(-cen * c["dt"] + c["off"] * c["dt"])


def wtext(c, n=None, cen=None, extra="", drop=0):
    v = [c["fmt"] % x for x in c["v"]][:len(c["v"]) - drop]
    n = len(c["v"]) if n is None else n
    cen = c["c"] if cen is None else cen
    e = "\n" if c["nl"] else ""
    if c["kind"] == JASON:
        L = ['"* comment %d' % i for i in range(c["com"])] + ([""] if c["com"] == 2 else []) + ['"wavelet", "none", "time", "ms"', start(c, cen), repr(c["dt"]), "%d" % n]
        L += v if c["k"] % 2 else [" ".join(v)]
    elif c["kind"] == SYN:
        hd = ["Total Samples: %d" % n, "Sample Interval: %s" % c["dt"], "Time Zero Sample: %d" % cen]
        hd = hd[c["k"] % 3:] + hd[:c["k"] % 3]
        L = ["first line", "second: 12", "Wavelet Data:"] + hd + ["other: text"] * c["com"] + ["--------  --------"] + ["%g  %s" % (i * c["dt"], x) for i, x in enumerate(v)]
    elif c["kind"] == STRATA:
        hd = ["~SR %s" % c["dt"], "~TZ %d" % (cen + 1), "~NS %d" % n, "~PR 0"]
        hd = hd[c["k"] % 4:] + hd[:c["k"] % 4]
        L = ["#STRATA_WHIST"] + ["history line"] * c["com"] + ["#STRATA_WPARAMS"] + hd + v
    else:
        L = ["Landmark ASCII Wavelet", "%d" % n, "%d" % cen, "%s" % c["dt"]] + (v if c["k"] % 2 else [" ".join(v)])
    return "\n".join(L) + ("\n" + extra if extra else "") + e


def centred(v, c):
    n = 2 * max(c, len(v) - c - 1) + 1
    return [v[i - n // 2 + c] if 0 <= i - n // 2 + c < len(v) else 0.0 for i in range(n)]


def same(w, v, dt, what):
    require(w.vals() == v and w.size() == len(v), "%s: samples %s, expected %s", what, w.vals(), v)
    require(w.dt() == dt and w.centre() == len(v) // 2, "%s: interval %s, centre %s, expected %s, %s", what, w.dt(), w.centre(), dt, len(v) // 2)
    for i in range(len(v)):
        require(abs(w.time(i) - (i - len(v) // 2) * dt) <= 1e-12 * (1 + abs(w.time(i))) and w.get(i) == v[i], "%s: time %s of sample %d", what, w.time(i), i)


OPS = ["scale", "resize", "resize", "resample", "set", "dt", "copy", "read", "write", "ricker"]


@st.composite
def hist(draw):
    n = draw(st.integers(0, 9))
    return {"ctor": draw(st.integers(0, 2)), "v": draw(st.lists(val, min_size=n, max_size=n)), "dt": draw(dts), "f": draw(st.sampled_from([15.0, 25.0, 40.5])), "s": draw(st.sampled_from([None, 1.0, 2.0, -0.5, 1000.0])),
            "ops": [{"op": draw(st.sampled_from(OPS)), "n": draw(st.integers(0, 11)), "x": draw(val), "m": draw(st.sampled_from([1, 2, 3, 4, 7, 1.5, 0.5, 0.9])), "dt": draw(dts), "w": draw(wfile(5))} for _ in range(draw(st.integers(0, 8)))]}


def ricker(f, n, dt, s):
    out = []
    for i in range(n):
        t = (i - n // 2) * dt / 1000
        a = (math.pi * f * t) ** 2
        out.append((1 - 2 * a) * math.exp(-a) * (1.0 if s is None else s))
    return out


@scratch
def check_hist(c, vpts, d):
    f = d + "/w"
    dt = c["dt"]
    if c["ctor"] == 0:
        w, v, dt = vpts.W(), [], 1.0
    elif c["ctor"] == 1:
        w, v = vpts.W.n(len(c["v"]), dt), [0.0] * len(c["v"])
        same(w, v, dt, "empty wavelet")
        w.setv(c["v"])
        v = list(c["v"])
    else:
        w = vpts.W.ricker(c["f"], len(c["v"]), dt, NAN if c["s"] is None else c["s"])
        ex = ricker(c["f"], len(c["v"]), dt, c["s"])
        require_close(w.vals(), ex, "Ricker wavelet", 1e-12, 1e-12)
        v = w.vals()
    same(w, v, dt, "constructed")
    for o in c["ops"]:
        k = o["op"]
        if k == "scale":
            w.scale(o["x"])
            v = [x * o["x"] for x in v]
        elif k == "resize":
            n = o["n"]
            w.resize(n)
            v = [v[i - n // 2 + len(v) // 2] if 0 <= i - n // 2 + len(v) // 2 < len(v) else 0.0 for i in range(n)]
        elif k == "resample":
            m = o["m"]
            if m in (1.5, 0.5, 0.9):
                require(raises(vpts, w.resample, dt * m), "resampled by a factor %s", m)
            else:
                new = float("%.10g" % (dt * m)) if o["n"] % 2 else dt * m
                w.resample(new)
                cc = len(v) // 2
                lo, hi = cc // m, (len(v) - cc - 1) // m
                v = [v[cc + j * m] for j in range(-lo, hi + 1)] if v else []
                if m > 1:
                    dt = new
        elif k == "set" and v:
            w.set(o["n"] % len(v), o["x"])
            v[o["n"] % len(v)] = o["x"]
        elif k == "dt":
            dt = o["dt"]
            w.set_dt(dt)
        elif k == "copy":
            old, w = w, w.copy()
            old.scale(7.0)
            old.resize(3)
        elif k == "read":
            q = o["w"]
            open(f, "w").write(wtext(q))
            w.read(f, q["kind"])
            v, dt = centred([float(q["fmt"] % x) for x in q["v"]], q["c"]), q["dt"]
        elif k == "write" and v:
            for t in (0, SYN, STRATA, LAND):
                require(raises(vpts, w.write, f, t, []), "written in format %d", t)
            w.write(f, JASON, ["header text", "1 2 3"][:o["n"] % 3])
            L = [x.strip() for x in open(f).read().split("\n") if x.strip() and not x.startswith('"*')]
            require(L[0] == '"wavelet", "none", "time", "ms"' and int(L[3]) == len(v), "header %s", L[:4])
            require_close([float(L[1]), float(L[2])], [-(len(v) // 2) * dt, dt], "start and interval in file", 1e-5, 1e-9)
            require([float(x) for x in L[4:]] == [float("%g" % x) for x in v], "samples in file %s, expected %s", L[4:], v)
            require(vpts.wtype(f) == JASON, "kind %s", vpts.wtype(f))
            r = vpts.W.file(f, [-1, 0, JASON][o["n"] % 3], NAN)
            ex = [float("%g" % x) for x in v] + ([0.0] if len(v) % 2 == 0 else [])
            require(r.vals() == ex and abs(r.dt() - dt) <= 1e-5 * dt, "wavelet %s with %s reads back as %s", v, dt, r.vals())
        elif k == "ricker":
            w = vpts.W.ricker(c["f"], o["n"], dt, NAN)
            require_close(w.vals(), ricker(c["f"], o["n"], dt, None), "Ricker wavelet", 1e-12, 1e-12)
            v = w.vals()
        same(w, v, dt, k)
    return len(c["ops"]) >= 2 and len(c["v"]) >= 3, ["ctor%d" % c["ctor"]]


@st.composite
def files(draw):
    return {"w": draw(wfile(12)), "s": draw(st.sampled_from([None, 1.0, 2.0, -3.5])), "bad": draw(st.integers(0, 6)), "old": draw(st.integers(0, 15)), "m": draw(st.integers(1, 30))}


@scratch
def check_files(c, vpts, d):
    f = d + "/wavelet"
    q = c["w"]
    open(f, "w").write(wtext(q))
    k = q["kind"]
    require(vpts.wtype(f) == k, "kind %s, expected %s", vpts.wtype(f), k)
    v = centred([float(q["fmt"] % x) for x in q["v"]], q["c"])
    sc = 1.0 if c["s"] is None else c["s"]
    w = vpts.W.file(f, [-1, 0, k][c["m"] % 3], NAN if c["s"] is None else c["s"])
    same(w, [x * sc for x in v], q["dt"], "file of kind %d" % k)
    o = vpts.W.n(c["old"], 3.0)
    o.setv([5.0] * c["old"])
    o.read(f, k)
    same(o, v, q["dt"], "file of kind %d" % k)
    b = c["bad"]
    load = lambda t: (open(f, "w").write(t), raises(vpts, vpts.W.file, f, k, NAN))[1]
    if b == 0:
        require(load(wtext(q, drop=1)), "file of kind %d that lacks a sample is read", k)
    elif b == 1:
        require(load(wtext(q, cen=len(q["v"]) + c["m"] % 3)), "file of kind %d with time zero outside is read", k)
    elif b == 2 and k in (JASON, STRATA):
        require(load(wtext(dict(q, nl=True), extra="12.5")), "file of kind %d with more samples is read", k)
    elif b == 3:
        require(load(wtext(dict(q, fmt="%gx"))), "file of kind %d with samples that are no numbers is read", k)
    elif b == 4:
        t = wtext(q)
        lines = t.split("\n")
        hdr = {JASON: len(lines), SYN: 3, STRATA: 2 + q["com"], LAND: 3}[k]
        if k in (SYN, STRATA):
            del lines[hdr + c["m"] % 3 if k == SYN else [i for i, l in enumerate(lines) if l[:3] in ("~SR", "~TZ", "~NS")][c["m"] % 3]]
            require(load("\n".join(lines)), "file of kind %d that lacks a header line is read", k)
            require(load("\n".join(lines[:3])), "file of kind %d that ends in its header is read", k)
        else:
            require(load("\n".join(lines[:2])), "file of kind %d that ends in its header is read", k)
    elif b == 5:
        open(f, "w").write("nothing\nin\nhere\n1 2 3\n")
        require(vpts.wtype(f) == 0 and raises(vpts, vpts.W.file, f, -1, NAN), "unknown file is read")
        require(raises(vpts, vpts.W.file, d + "/none", -1, NAN) and raises(vpts, vpts.W.file, d + "/none", k, NAN), "file that does not exist is read")
    elif b == 6 and k == JASON and q["c"] == 0:
        t = wtext(q).replace("\n" + start(q, q["c"]) + "\n", "\n%s\n" % (3 * q["dt"]), 1)
        require(load(t), "file that starts after time zero is read")
    return len(q["v"]) >= 3, ["kind%d" % k]


PROP = Prop("C23", [{"shim": "vpts", "mods": ["pointset", "wavelet", "geometry", "surface", "iotools", "math"], "asan": False}], [
    Sub("history", hist, check_hist, 4000, 60000, shards=4, rule="at least two operations on at least three samples"),
    Sub("files", files, check_files, 5000, 60000, shards=4, rule="at least three samples"),
], RULE, ["positive sample intervals; time zero within the samples of files; Jason files to six digits"])
