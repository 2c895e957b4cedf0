"""C24: SEG-Y files."""
import math, os, shutil, struct, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close
from vlib import gen

RULE = ("SEG-Y files built byte by byte by the check (all sample formats, standard and own header layouts, coordinate scaling codes, sampling rates below, at and above a millisecond, concatenated files, traces in any order and missing traces) and read by the library; "
        "files written by the library in every way it offers and parsed by the check; header records, textual headers, and truncated files. "
        "Non-trivial: at least two traces of at least two samples, or a header record with a field other than zero.")

IM = -99999
STD = {0: ("SeisWorks", 71, 73, 77, 9, 21, 109, IM), 1: ("IESX", 71, 73, 77, 221, 21, 109, IM), 2: ("SIP", 71, 181, 185, 189, 193, 109, 37),
       3: ("Charisma", 71, 73, 77, 5, 21, 109, IM), 4: ("SIPX", 71, 73, 77, 181, 185, 109, IM), 5: ("HESS", 71, 73, 77, 185, 189, 109, IM)}
SCALE = {1: 1.0, 0: 1.0, -1: 1.0, 10: 10.0, 100: 100.0, 1000: 1000.0, 10000: 10000.0, -10: 0.1, -100: 0.01, -1000: 0.001, -10000: 0.0001}
CODES = [1, -10, -100, -1000, 10, 100, 0, -10000, 1000, 10000]


def scratch(f):
    def run(c):
        import vsegy
        d = tempfile.mkdtemp()
        try:
            return f(c, vsegy, d)
        finally:
            shutil.rmtree(d)
    return run


def raises(v, f, *a):
    try:
        f(*a)
    except (v.Exc, v.IOErr, v.FormatErr, v.Eof):
        return True
    return False


def fields(ft):
    """name, scalco, x, y, il, xl, start, offset, coordinate system of a format given as in the shim"""
    if len(ft) == 1:
        return STD[ft[0]] + (0,)
    if len(ft) == 7:
        return ("unnamed",) + tuple(ft[:6]) + (IM, ft[6])
    s = list(STD[ft[0]])
    for k, v in zip(range(1, 7), ft[2:8]):
        if v != IM:
            s[k] = v
    if ft[1] == 1:
        s[1] = -1
    return tuple(s) + (0 if ft[8] == IM else ft[8],)


@st.composite
def form(draw):
    k = draw(st.integers(0, 5))
    a = draw(st.integers(0, 9))
    if a < 6:
        return [k]
    # the fields of an own layout keep clear of each other and of the sample count and rate
    slots = draw(st.permutations([1, 5, 9, 13, 17, 21, 25, 41, 73, 77, 81, 101, 105, 121, 125, 181, 185, 189, 193, 197, 217, 221, 233, 237]))
    if a < 8:
        return [k, draw(st.integers(0, 1)), draw(st.sampled_from([IM, slots[0]])), slots[1], slots[2], slots[3], slots[4], draw(st.sampled_from([slots[5], slots[5], -1])), IM]
    return [draw(st.sampled_from([-1, slots[0], slots[0]])), slots[1], slots[2], slots[3], slots[4], draw(st.sampled_from([-1, slots[5]])), draw(st.sampled_from([0, 0, 1]))]


i32 = st.one_of(st.integers(0, 5000), st.sampled_from([0, 1, -1, 2**31 - 1, -2**31, 255, 256, 65535, 65536]), st.integers(-2**31, 2**31 - 1))
i16 = st.one_of(st.integers(0, 4000), st.sampled_from([0, 1, 255, 256, 32767, 32768, 40000, 65535]), st.integers(0, 65535))


@st.composite
def record(draw):
    return {"x": draw(st.one_of(i32, st.integers(0, 7000000))), "y": draw(st.one_of(i32, st.integers(0, 7000000))), "fx": draw(st.sampled_from([0.0, 0.0, 0.3, -0.3, 0.49])), "fy": draw(st.sampled_from([0.0, 0.0, 0.3, -0.3, 0.49])),
            "il": draw(i32), "xl": draw(i32), "t": draw(st.integers(-3000, 32767)), "ns": draw(i16), "dt": draw(i16), "sc": draw(st.sampled_from(CODES)), "off": draw(st.integers(0, 32767)), "junk": draw(st.integers(0, 2**32))}


def header_bytes(r, ft, base=None):
    f = fields(ft)
    b = bytearray(240 if base is None else base)
    put = lambda loc, code, v: struct.pack_into(code, b, loc - 1, v)
    put(115, ">H", r["ns"])
    put(117, ">H", r["dt"])
    if f[1] > 0:
        put(f[1], ">h", r["sc"])
    for loc, k in ((f[2], "x"), (f[3], "y"), (f[4], "il"), (f[5], "xl")):
        if loc > 0:
            put(loc, ">i", r[k])
    if f[6] > 0:
        put(f[6], ">h", r["t"])
    return b, f


def scal(r, f):
    return SCALE[r["sc"]] if f[1] > 0 else 1.0


@st.composite
def hdr(draw):
    return {"ft": draw(form()), "r": [draw(record()) for _ in range(draw(st.integers(1, 4)))], "dump": draw(st.booleans())}


def same_header(got, r, f, what):
    s = scal(r, f)
    ex = (s * r["x"] if f[2] > 0 else -99999.0, s * r["y"] if f[3] > 0 else -99999.0, r["il"] if f[4] > 0 else IM, r["xl"] if f[5] > 0 else IM)
    require_close([got[0], got[1]], ex[:2], what + ": coordinates", 1e-9, 1e-9)
    require(tuple(got[2:4]) == ex[2:], "%s: inline, crossline %r, expected %r", what, got[2:4], ex[2:])
    require(got[4] == (float(r["t"]) if f[6] > 0 else -99999.0), "%s: start time %r, expected %r", what, got[4], r["t"])
    c = ex[:2] if f[8] == 0 else ex[2:]
    require_close([got[5], got[6]], [float(v) for v in c], what + ": coordinates in the coordinate system of the format", 1e-9, 1e-9)
    require(got[7] == r["dt"], "%s: sample interval %r, expected %r", what, got[7], r["dt"])
    require(got[9] == (ex[0] >= 0 and ex[1] >= 0 and ex[2] >= 0 and ex[3] >= 0), "%s: header called %s with %r", what, "legal" if got[9] else "illegal", ex)


@scratch
def check_hdr(c, v, d):
    ft, f = c["ft"], fields(c["ft"])
    p, o = os.path.join(d, "h"), os.path.join(d, "o")
    # headers read one after the other with the same object
    raw = b""
    for r in c["r"]:
        base = np.random.default_rng(r["junk"]).integers(0, 256, 240, dtype=np.uint8).tobytes()
        raw += bytes(header_bytes(r, ft, base)[0])
    open(p, "wb").write(raw)
    got = v.th_read(p, ft, len(c["r"]), o, c["dump"])
    for k, r in enumerate(c["r"]):
        same_header(got[k], r, f, "header %d read" % k)
        require(got[k][8] == 0, "status %r after reading a trace header", got[k][8])
    back = open(o, "rb").read()
    require(len(back) == len(raw), "%d bytes written for %d headers", len(back), len(c["r"]))
    for k in range(len(raw)):
        in_off = not c["dump"] and f[7] > 0 and f[7] - 1 <= k % 240 < f[7] + 3
        require(back[k] == raw[k] or in_off, "byte %d of header %d is %d after reading and writing it, it was %d", k % 240 + 1, k // 240, back[k], raw[k])
    # headers written
    rows, want = [], []
    for r in c["r"]:
        s = scal(r, f) if f[1] > 0 else SCALE[r["sc"]]
        x, y = max(-2**31 + 1, min(2**31 - 2, r["x"])), max(-2**31 + 1, min(2**31 - 2, r["y"]))
        rows.append([(x + r["fx"]) * s, (y + r["fy"]) * s, r["il"], r["xl"], r["t"], r["ns"], r["dt"], r["sc"], r["off"]])
        q = dict(r, x=x, y=y)
        b = header_bytes(q, ft)[0]
        if f[7] > 0:
            struct.pack_into(">i", b, f[7] - 1, r["off"])
        want.append(b)
    v.th_write(p, ft, rows)
    raw = open(p, "rb").read()
    require(len(raw) == 240 * len(rows), "%d bytes for %d headers", len(raw), len(rows))
    for k, b in enumerate(want):
        got = raw[240 * k:240 * k + 240]
        for j in range(240):
            require(got[j] == b[j], "byte %d of a written header is %d, expected %d (record %r, format %r)", j + 1, got[j], b[j], rows[k], ft)
    a, b = c["r"][0]["sc"], c["r"][-1]["sc"]
    q = v.th_reset(ft, [a, b, 1234.0, 77.0], o)
    require_close(list(q[:2]), [1234.0 if f[2] > 0 else -99999.0, 77.0 if f[3] > 0 else -99999.0], "coordinates after changing the scaling code from %d to %d" % (a, b), 1e-9)
    return True, ["format kind %d" % len(ft), "several" if len(c["r"]) > 1 else "one", "scaled" if f[1] > 0 else "unscaled"]


@st.composite
def layout(draw):
    loc = st.sampled_from([IM, IM, -1, 5, 9, 21, 71, 73, 77, 109, 181, 185, 189])
    return {"a": [draw(st.integers(0, 6)), draw(st.sampled_from([0, 1, IM])), draw(loc), draw(loc), draw(loc), draw(loc), draw(loc), draw(loc), draw(st.sampled_from([IM, 0, 1]))],
            "b": [draw(st.integers(0, 5)), draw(st.sampled_from([0, 1, IM])), draw(loc), draw(loc), draw(loc), draw(loc), draw(loc), draw(loc), IM], "like": draw(st.integers(0, 3))}


def clash(f):
    p = [q for q in f[1:6] if q > 0]
    return len(set(p)) < len(p)


def check_layout(c):
    import vsegy as v
    ok = []
    a = c["a"]
    if c["like"] == 1:
        c = dict(c, b=list(a))
    elif c["like"] == 2:
        c = dict(c, b=[a[0], 1 - a[1] if a[1] in (0, 1) else 1] + a[2:])
    for ft in (c["a"], c["b"]):
        if ft[0] > 5:
            require(raises(v, v.locs, ft), "no error for an undefined header format")
            continue
        f = fields(ft)
        if clash(f):
            require(raises(v, v.locs, ft), "no error for the header format %r where two fields have the same location", ft)
            continue
        g = v.locs(ft)
        require(tuple(g[:9]) == f, "locations %r, expected %r (asked for %r)", g, f, ft)
        require(g[9] == (f[1] == -1), "bypass of the coordinate scaling is %r with the coefficient at %d", g[9], f[1])
        for q in v.copy_locs(ft):
            require(q == g, "copy of %r is %r", g, q)
        ok.append((ft, f))
    std = v.std()
    require(len(std) == 12, "%d standard formats", len(std))
    for k in range(6):
        require(tuple(std[2 * k][:8]) == STD[k] and tuple(std[2 * k + 1][:8]) == (STD[k][0], -1) + STD[k][2:], "standard formats %d are %r and %r", k, std[2 * k], std[2 * k + 1])
    if len(ok) == 2:
        (fa, f), (fb, g) = ok
        same = f[2:7] == g[2:7]
        ex = 2 if not same else 0 if f[1] == g[1] else 1 if -1 in (f[1], g[1]) else 2
        require(v.diff(fa, fb) == ex and v.diff(fb, fa) == ex, "formats %r and %r compare as %r, expected %r", f, g, v.diff(fa, fb), ex)
    return len(ok) > 0, ["%d legal" % len(ok)]


@st.composite
def text(draw):
    ch = st.sampled_from("ABCXYZabcxyz0129 .,-+/()*#:;=<>'\"%&_?!@$")
    return {"std": draw(st.booleans()), "l": [[draw(st.one_of(st.integers(0, 39), st.sampled_from([-1, 40, 0, 39]))), "".join(draw(st.lists(ch, max_size=84)))] for _ in range(draw(st.integers(0, 5)))]}


@scratch
def check_text(c, v, d):
    p = os.path.join(d, "t")
    r = v.textual(p, c["std"], [tuple(q) for q in c["l"]])
    b = open(p, "rb").read()
    require(len(b) == 3200, "textual header of %d bytes", len(b))
    t = b.decode("cp500").replace("\x9d", " ")
    lines = [t[80 * k:80 * k + 80] for k in range(40)]
    own = {}
    for (n, s), q in zip(c["l"], r):
        ex = -1 if not 0 <= n <= 39 else 1 if len(s) > 75 else 0
        require(q == ex, "setting line %d to %d characters returned %d, expected %d", n, len(s), q, ex)
        if ex >= 0:
            own[n] = s[:75]
    for k in range(40):
        require(lines[k][:3] == "C%2d" % (k + 1) and lines[k][3] == " ", "line %d of the textual header starts %r", k + 1, lines[k][:4])
        for ch in b[80 * k:80 * k + 80]:
            require(ch >= 0x40, "line %d of the textual header has the control character %d", k + 1, ch)
        if k in own:
            got, want = lines[k][5:], own[k].ljust(75)
            for x, y in zip(got, want):
                # code pages differ in the exclamation mark
                require(x == y or (y == "!" and x in "!]|"), "line %d is %r, set to %r", k + 1, got, want)
        elif not c["std"] and k < 39:
            require(lines[k][4:].strip() == "", "line %d of an empty textual header is %r", k + 1, lines[k])
    return len(c["l"]) > 0, ["standard" if c["std"] else "empty", "%d lines" % len(own)]


# --- whole files -----------------------------------------------------------------------------------------------------
DT = [4000, 2000, 1000, 500, 2500, 250, 8000, 3000, 1500, 125, 4100, 290]


def fit(c):
    """header integers hold the coordinates"""
    if SCALE[c["sc"]] < 0.01 and c["y0"] > 1e6:
        c["sc"] = -100
    return c


@st.composite
def cube(draw, small=False):
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = nx * ny
    order = draw(st.one_of(st.just(list(range(n))), st.permutations(range(n))))
    keep = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)), key=order.index) if draw(st.integers(0, 2)) == 0 else list(order)
    ang = draw(st.one_of(st.sampled_from([0.0, 0.0, 90.0, 180.0, 270.0, 30.0]), st.integers(0, 359).map(float)))
    return fit({"nx": nx, "ny": ny, "order": keep, "il0": draw(st.integers(1, 900)), "xl0": draw(st.integers(1, 900)), "dil": draw(st.sampled_from([1, 1, 2, 3, 10])), "dxl": draw(st.sampled_from([1, 1, 2, 4])),
            "x0": draw(st.sampled_from([0.0, 1000.0, 458000.0, 461234.5])), "y0": draw(st.sampled_from([0.0, 500.0, 6780000.0, 7230211.25])), "dx": draw(st.sampled_from([12.5, 25.0, 6.25, 18.75])), "dy": draw(st.sampled_from([12.5, 25.0, 6.25, 37.5])),
            "ang": ang, "flip": draw(st.booleans()), "nz": draw(st.integers(2, 12)), "dt": draw(st.sampled_from(DT)), "z0": draw(st.sampled_from([0.0, 100.0, 1500.0, 1234.0, -200.0])), "sc": draw(st.sampled_from([1, -10, -100, -1000, -100, 0])),
            "ft": draw(form()), "code": draw(st.sampled_from([5, 1, 2, 3, 5, 1])), "seed": draw(st.integers(0, 2**31)), "own_t": draw(st.booleans()), "q": draw(st.lists(st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1)), min_size=3, max_size=6))})


def lattice(c):
    """for trace k: inline, crossline, x, y (inline number along the second index)"""
    a = math.radians(c["ang"])
    s = -1 if c["flip"] else 1
    out = []
    f = fields(c["ft"])
    res = SCALE[c["sc"]] if f[1] > 0 else 1.0
    for k in range(c["nx"] * c["ny"]):
        i, j = k % c["nx"], k // c["nx"]
        u, w = i * c["dx"] + 20000.0, (j * c["dy"] + 20000.0) * s
        x, y = c["x0"] + 60000.0 + u * math.cos(a) - w * math.sin(a), c["y0"] + 60000.0 + u * math.sin(a) + w * math.cos(a)
        ix, iy = math.floor(x / res + 0.5), math.floor(y / res + 0.5)
        out.append((c["il0"] + c["dil"] * j, c["xl0"] + c["dxl"] * i, ix * res, iy * res, ix, iy))
    return out


def samples(c, k):
    """the samples of trace k: bytes and values"""
    g = np.random.default_rng([c["seed"], k])
    if c["code"] == 2:
        w = g.integers(-2**24, 2**24, c["nz"])
        return struct.pack(">%di" % c["nz"], *w), np.array(w, dtype=np.float32)
    if c["code"] == 3:
        w = g.integers(-2**15, 2**15, c["nz"])
        return struct.pack(">%dh" % c["nz"], *w), np.array(w, dtype=np.float32)
    w = (g.normal(size=c["nz"]) * 10.0 ** g.integers(-3, 4)).astype(np.float32)
    w[g.random(c["nz"]) < 0.1] = 0.0
    if c["code"] == 5:
        return struct.pack(">%df" % c["nz"], *w), w
    b, e = b"", []
    for x in w:
        x = float(x)
        if x == 0:
            b += b"\0\0\0\0"
            e.append(0.0)
            continue
        sg, m, ex = (0x80 if x < 0 else 0), abs(x), 64
        while m >= 1:
            m /= 16
            ex += 1
        while m < 1 / 16:
            m *= 16
            ex -= 1
        q = int(m * 2**24)
        b += bytes([sg | ex]) + q.to_bytes(3, "big")
        e.append((-1 if sg else 1) * q / 2.0**24 * 16.0 ** (ex - 64))
    return b, np.array(e, dtype=np.float32)


def textual():
    return "".join(("C%2d" % (k + 1)).ljust(80) for k in range(40)).encode("cp500")


def binary(c, dt=None):
    b = bytearray(400)
    struct.pack_into(">i", b, 4, 7)
    struct.pack_into(">H", b, 16, c["dt"] if dt is None else dt)
    struct.pack_into(">H", b, 20, c["nz"])
    struct.pack_into(">h", b, 24, c["code"])
    return bytes(b)


def build(c, cut=None, tdt=None, bdt=None):
    """the file, and for each trace in file order (k, il, xl, x, y, values, byte position of the data)"""
    la = lattice(c)
    out = textual() + binary(c, bdt)
    tr = []
    for m, k in enumerate(c["order"]):
        if cut is not None and m == cut:
            out += textual() + binary(c, bdt)
        il, xl, x, y, ix, iy = la[k]
        t = int(c["z0"])
        h = header_bytes({"x": ix, "y": iy, "il": il, "xl": xl, "t": t, "ns": c["nz"], "dt": c["dt"] if tdt is None else tdt, "sc": c["sc"]}, c["ft"])[0]
        b, w = samples(c, k)
        tr.append((k, il, xl, x, y, w, len(out) + 240))
        out += bytes(h) + b
    return out, tr


def usable(c):
    f = fields(c["ft"])
    return f[8] == 0 and min(f[2:6]) > 0


def close_trace(got, t, c, what, j0=0, j1=None):
    f = fields(c["ft"])
    j1 = c["nz"] - 1 if j1 is None else j1
    require(got is not None, "%s: no trace", what)
    x, y = (t[3], t[4]) if f[2] > 0 else (-99999.0, t[4])
    if f[3] <= 0:
        y = -99999.0
    require_close([got[0], got[1]], [x, y], what + ": coordinates", 1e-12, 1e-6)
    require((got[2], got[3]) == (t[1] if f[4] > 0 else IM, t[2] if f[5] > 0 else IM), "%s: inline, crossline %r, in the file %r", what, got[2:4], t[1:3])
    require((got[4], got[5]) == (j0, j1), "%s: samples %d to %d, expected %d to %d", what, got[4], got[5], j0, j1)
    w = [float(q) for q in t[5][j0:j1 + 1]]
    require(list(got[6]) == w and list(got[7]) == w, "%s: samples %r, in the file %r", what, got[6], w)


@st.composite
def rd(draw):
    c = draw(cube())
    c["cut"] = draw(st.sampled_from([None, None, 1, 2]))
    c["two"] = draw(st.integers(0, 4))
    return c


@st.composite
def lng(draw):
    """traces longer than 32767 samples, or coarser than 32.767 ms"""
    c = draw(cube())
    c.update(nx=1, ny=draw(st.integers(1, 2)), order=[0], code=draw(st.sampled_from([5, 2, 3])), cut=None, two=draw(st.integers(1, 4)))
    if draw(st.booleans()):
        c["nz"] = draw(st.sampled_from([32767, 32768, 40000, 65535]))
    if c["nz"] < 100 or draw(st.booleans()):
        c["dt"] = draw(st.sampled_from([32767, 32768, 40000, 64000]))
    return c


@scratch
def check_read(c, v, d):
    p = os.path.join(d, "a.segy")
    cut = c["cut"] if c["cut"] is not None and c["cut"] < len(c["order"]) else None
    raw, tr = build(c, cut)
    open(p, "wb").write(raw)
    ft, n = c["ft"], len(tr)
    f = fields(ft)
    y = v.Y.open(p, c["z0"], ft)
    info = y.info()
    require(info[1] == c["nz"] and info[3] == c["z0"], "%r samples from %r, in the file %r from %r", info[1], info[3], c["nz"], c["z0"])
    require_close(info[2], c["dt"] / 1000.0, "sampling interval", 1e-12)
    require(info[0] >= n and (cut is not None or info[0] == n), "%d traces, %d in the file", info[0], n)
    for m, t in enumerate(tr):
        close_trace(y.next(0.0, None, False), t, c, "trace %d read singly" % m)
    require(y.next(0.0, None, False) is None, "a trace after the last one")
    require(v.count(p, ft) == n, "%d traces counted, %d in the file", v.count(p, ft), n)
    y = v.Y.open(p, c["z0"] if not c["own_t"] or f[6] <= 0 else -99999.0, ft)
    y.read_all(None, 0.0, False, True)
    info = y.info()
    require(info[3] == c["z0"], "top %r, %s %r", info[3], "start time in the header" if c["own_t"] else "given", c["z0"])
    require(not info[4], "sampling called inconsistent")
    for m, t in enumerate(tr):
        close_trace(y.trace(m), t, c, "trace %d of all" % m)
        close_trace(y.trace_copy(m), t, c, "copy of trace %d" % m)
    for m in range(n, info[0]):
        require(y.trace(m) is None, "trace %d of %d", m, n)
    w = [float(q) for t in tr for q in t[5]]
    require(list(y.all()) == w, "%d values in total, expected %d", len(y.all()), len(w))
    require(y.longest() == c["nz"], "longest trace of %d samples", y.longest())
    require(y.next(0.0, None, False) is None, "single trace from a file read completely")
    if c["two"] == 0:   # sampling that differs between the headers
        b, t_ = c["dt"], 2 * c["dt"]
        open(p, "wb").write(build(c, cut, t_, b)[0])
        y = v.Y.open(p, c["z0"], ft)
        if b in (1000, 2000, 4000):
            y.read_all(None, 0.0, False, True)
            require(y.info()[2] == b / 1000.0 and y.info()[4], "sampling %r and inconsistency %r for %d in the file header and %d in the trace headers", y.info()[2], y.info()[4], b, t_)
            close_trace(y.trace(0), tr[0], c, "trace 0 with other sampling")
        else:
            require(raises(v, y.read_all, None, 0.0, False, True), "no error for sampling %d in the file header and %d in the trace headers", b, t_)
    elif c["two"] == 1:   # sampling only in the trace headers
        open(p, "wb").write(build(c, cut, c["dt"], 0)[0])
        y = v.Y.open(p, c["z0"], ft)
        y.read_all(None, 0.0, False, True)
        require_close(y.info()[2], c["dt"] / 1000.0, "sampling given in the trace headers only", 1e-12)
        close_trace(y.trace(n - 1), tr[-1], c, "last trace with sampling in the trace headers only")
    elif c["two"] == 2:   # no sampling in the trace headers
        open(p, "wb").write(build(c, cut, 0)[0])
        y = v.Y.open(p, c["z0"], ft)
        y.read_all(None, 0.0, False, True)
        require_close(y.info()[2], c["dt"] / 1000.0, "sampling given in the file header only", 1e-12)
    return n > 1 or c["nz"] > 32000 or c["dt"] > 32000, ["code %d" % c["code"], "concatenated" if cut is not None else "plain", "below a millisecond" if c["dt"] < 1000 else "fraction" if c["dt"] % 1000 else "whole"]


@st.composite
def win(draw):
    c = draw(cube())
    c["ft"] = [draw(st.integers(0, 5))]
    c["nz"] = draw(st.integers(2, 40))
    c["vol"] = [draw(st.floats(0.02, 0.9)), draw(st.floats(0.05, 0.95)), draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])), draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([0.0, 0.0, 0.1])), draw(st.sampled_from([0, 0, 0, 1, 2, 3]))]
    return c


@scratch
def check_window(c, v, d):
    p = os.path.join(d, "a.segy")
    raw, tr = build(c)
    open(p, "wb").write(raw)
    a, b, pad, rel, only, tilt, mode = c["vol"]
    dz = c["dt"] / 1000.0
    L = c["nz"] * dz
    xs, ys = [t[3] for t in tr], [t[4] for t in tr]
    X0, Y0 = min(xs), min(ys)
    ext = max(max(xs) - X0, max(ys) - Y0) + 20.0
    sq = [X0 - 10 - ext * 0.5, Y0 - 10 - ext * 0.5, 2 * ext]
    top0, th = c["z0"] + a * L, (1 - a) * b * L
    if mode == 1:
        top0 = c["z0"] - 0.5 * L
    if mode == 2:
        th = L * (1 - a) + 0.5 * L
    t4 = [top0, top0 + tilt * th, top0, top0 + tilt * th]
    b4 = [top0 + th, top0 + th, top0 + (1 - tilt) * th, top0 + (1 - tilt) * th]
    vx = X0 - 5 if mode != 3 else X0 + (max(xs) - X0) * 0.4
    V = v.V.surf(vx, Y0 - 5, ext if mode != 3 else 0.5 * (max(xs) - X0) + 7, ext, 0.0, sq + t4, sq + b4, -999.0)
    y = v.Y.open(p, c["z0"], c["ft"])
    if mode in (1, 2):
        require(raises(v, y.read_all, V, 0.0, only, rel), "no error when the volume reaches %s the data", "above" if mode == 1 else "below")
        return len(tr) > 1, ["volume beyond the data"]
    ex = []
    for t in tr:
        if only and not V.inside(t[3], t[4]):
            ex.append(None)
            continue
        zt, zb = V.z(t[3], t[4])
        q = 0.5 * pad * (zb - zt if rel else 1.0)
        f0, f1 = (zt - q - c["z0"]) / dz, (zb + q - c["z0"]) / dz
        ex.append((max(0, math.floor(f0)), min(c["nz"] - 1, math.floor(f1)), min(f0 - math.floor(f0 + 1e-7), 1), min(f1 - math.floor(f1 + 1e-7), 1)))
    if any(e is not None and (abs(e[2]) < 1e-6 or abs(e[3]) < 1e-6) for e in ex):
        return False, ["limit on a sample"]
    if all(e is None for e in ex):
        require(raises(v, y.read_all, V, pad, only, rel), "no error when no trace is in the volume")
        return False, ["no trace inside"]
    y.read_all(V, pad, only, rel)
    for m, (t, e) in enumerate(zip(tr, ex)):
        if e is None:
            require(y.trace(m) is None, "trace %d is outside the volume and is kept", m)
        else:
            close_trace(y.trace(m), t, c, "trace %d in a volume" % m, e[0], e[1])
    require(len(y.all()) == sum(e[1] - e[0] + 1 for e in ex if e), "%d values in all", len(y.all()))
    require(y.longest() == max(e[1] - e[0] + 1 for e in ex if e), "longest trace %d", y.longest())
    if rel:
        y = v.Y.open(p, c["z0"], c["ft"])
        for m, (t, e) in enumerate(zip(tr, ex)):
            g = y.next(pad, V, only)
            if e is None:
                require(g is None, "trace %d is outside the volume and is returned", m)
            else:
                close_trace(g, t, c, "single trace %d in a volume" % m, e[0], e[1])
    return len(tr) > 1, ["padded" if pad else "no padding", "some outside" if None in ex else "all inside"]


@scratch
def check_grid(c, v, d):
    if not usable(c) or len({k % c["nx"] for k in c["order"]}) < 2 or len({k // c["nx"] for k in c["order"]}) < 2:
        return False, ["no grid"]
    # lines without traces leave the step of the numbers open
    full = all({c["order"][0] % c["nx"] + s for s in (1,)} and any(k % c["nx"] == i for k in c["order"]) for i in range(c["nx"])) and all(any(k // c["nx"] == j for k in c["order"]) for j in range(c["ny"]))
    if not full:
        return False, ["empty line"]
    pt = [(k % c["nx"], k // c["nx"]) for k in c["order"]]
    if 2 * max(abs((a[0] - pt[0][0]) * (b[1] - pt[0][1]) - (a[1] - pt[0][1]) * (b[0] - pt[0][0])) for a in pt for b in pt) < (c["nx"] - 1) * (c["ny"] - 1):
        return False, ["traces nearly on a line"]
    f = fields(c["ft"])
    if c["sc"] == -10:
        c = dict(c, sc=-100)
    if (SCALE[c["sc"]] if f[1] > 0 else 1.0) > 0.1 and c["ang"] % 90:
        c = dict(c, sc=-100) if f[1] > 0 else dict(c, ang=0.0)
    if (SCALE[c["sc"]] if f[1] > 0 else 1.0) > 0.1:
        c = dict(c, dx=math.ceil(c["dx"]), dy=math.ceil(c["dy"]), x0=math.floor(c["x0"]), y0=math.floor(c["y0"]))
    p = os.path.join(d, "a.segy")
    raw, tr = build(c)
    open(p, "wb").write(raw)
    dz = c["dt"] / 1000.0
    by = {(t[1], t[2]): t for t in tr}
    la = {(q[0], q[1]): q for q in lattice(c)}
    tol = 0.2 if (SCALE[c["sc"]] if f[1] > 0 else 1.0) > 1e-2 else 0.06
    # read everything and make a grid
    y = v.Y.open(p, c["z0"], c["ft"])
    y.read_all(None, 0.0, False, True)
    reg = c["seed"] % 2 == 1   # nothing to make regular but the rounding of the coordinates
    y.regular(reg)
    g = y.geom()
    for il, xl in la:
        gx, gy = g.xy_il(il, xl)
        q = la[(il, xl)]
        require(math.hypot(gx - q[2], gy - q[3]) < tol * (2 if reg else 1), "inline %d, crossline %d is at (%r, %r), the traces put it at (%r, %r)", il, xl, gx, gy, q[2], q[3])
        have = (il, xl) in by
        require(y.defined(il, xl) == have, "trace at inline %d, crossline %d is %sdefined", il, xl, "not " if have else "")
        got, miss, z0d = y.nearest(gx, gy)
        if have:
            t = by[(il, xl)]
            require(not miss and list(got) == [float(w) for w in t[5]], "nearest trace at the position of inline %d, crossline %d is another trace", il, xl)
            require_close(z0d, c["z0"] + 0.5 * dz, "start of the nearest trace", 1e-9)
            for h in (y.hdr_il(il, xl), y.hdr_xy(gx, gy)):
                require((h[2], h[3]) == (il, xl), "header of inline %d, crossline %d has %r", il, xl, h[2:4])
            for k in (0, c["nz"] // 2, c["nz"] - 1):
                val = y.value(gx, gy, c["z0"] + (k + 0.5) * dz, -1)
                sc = max(abs(float(w)) for t_ in tr for w in t_[5]) + 1e-30
                require_close(val, float(t[5][k]), "value at the middle of sample %d of inline %d, crossline %d" % (k, il, xl), 0.0, 0.05 * sc if tol > 0.1 else 0.02 * sc)
        else:
            require(miss, "a nearest trace where none is in the file")
            require(raises(v, y.hdr_il, il, xl), "a header of a trace that is not in the file")
            require(y.value(gx, gy, c["z0"] + 0.5 * dz, -1) == -99999.0 and y.value(gx, gy, c["z0"] + 0.5 * dz, 1) == 0.0, "a value where no trace is in the file")
    for il, xl in ((c["il0"] - c["dil"], c["xl0"]), (c["il0"], c["xl0"] + c["nx"] * c["dxl"]), (c["il0"] + c["ny"] * c["dil"], c["xl0"])):
        require(not y.defined(il, xl), "trace outside the grid is defined")
        require(raises(v, y.hdr_il, il, xl), "a header for inline %d, crossline %d outside the grid", il, xl)
    if c["dil"] > 1:
        require(not y.defined(c["il0"] + 1, c["xl0"]), "trace between the inlines is defined")
        require(raises(v, y.hdr_il, c["il0"] + 1, c["xl0"]), "a header for an inline between those of the file")
        require(raises(v, g.index_il, c["il0"] + 1, c["xl0"]), "an index for an inline between those of the file")
    # the value inside a cell: a parabola through the neighbours
    nx, ny = g.n()
    cell = {}
    for t in tr:
        cell[g.index_il(t[1], t[2])] = t
    for a, b, e in c["q"]:
        fi, fj, fk = a * nx, b * ny, e * c["nz"]
        i, j, k = int(fi), int(fj), int(fk)
        if min(fi - i, fj - j, fk - k) < 0.01 or max(fi - i, fj - j, fk - k) > 0.99:
            continue
        geo = g.geo()
        x, yy = geo[0] + fi * geo[2] * geo[5] - fj * geo[3] * geo[6], geo[1] + fi * geo[2] * geo[6] + fj * geo[3] * geo[5]
        got = y.value(x, yy, c["z0"] + fk * dz, -1)
        if (i, j) not in cell:
            require(got == -99999.0, "value %r in a cell without trace", got)
            continue
        def at(i, j, k):
            t = cell.get((i, j))
            return None if t is None or not 0 <= k < c["nz"] else float(t[5][k])
        w = at(i, j, k)
        ex = w
        for lo, hi, u in ((at(i - 1, j, k), at(i + 1, j, k), fi - i - 0.5), (at(i, j - 1, k), at(i, j + 1, k), fj - j - 0.5), (at(i, j, k - 1), at(i, j, k + 1), fk - k - 0.5)):
            if lo is None and hi is None:
                continue
            q2, q1 = (0.0, hi - w) if lo is None else (0.0, w - lo) if hi is None else ((hi + lo - 2 * w) / 2, (hi - lo) / 2)
            ex += q2 * u * u + q1 * u
        sc = max(abs(q) for q in [w] + [s for s in (at(i - 1, j, k), at(i + 1, j, k), at(i, j - 1, k), at(i, j + 1, k), at(i, j, k - 1), at(i, j, k + 1)) if s is not None])
        require_close(got, ex, "value in cell %d, %d at sample %d" % (i, j, k), 0.0, 2e-2 * sc if tol > 0.1 else 1e-2 * sc + 1e-30)
    for z in (c["z0"] - dz, c["z0"] + (c["nz"] + 1) * dz):
        t = tr[0]
        require(y.value(t[3], t[4], z, -1) == -99999.0, "a value above or below the data")
    # headers only
    y = v.Y.open(p, c["z0"], c["ft"])
    y.find_geom(False, True, True)
    h = y.geom()
    require(h.n() == g.n() and h.il() == g.il(), "geometry from the headers %r %r, from all traces %r %r", h.n(), h.il(), g.n(), g.il())
    if not reg:
        require_close(list(h.geo()), list(g.geo()), "geometry from the headers", 1e-9, 1e-6)
    for il, xl in la:
        if (il, xl) in by:
            t = by[(il, xl)]
            require(y.pos_il(il, xl) == t[6] and y.pos_xy(*g.xy_il(il, xl)) == t[6], "position %d of inline %d, crossline %d in the file, expected %d", y.pos_il(il, xl), il, xl, t[6])
            w = [float(q) for q in t[5]]
            require(list(y.data_il(il, xl, None, False)) == w and list(y.data_xy(*g.xy_il(il, xl))) == w, "data of inline %d, crossline %d are those of another trace", il, xl)
            require(y.hdr_il(il, xl)[2:4] == (il, xl), "header of inline %d, crossline %d", il, xl)
            # only the samples inside a volume
            k0 = int(c["q"][0][0] * (c["nz"] - 1))
            k1 = k0 + int(c["q"][1][0] * (c["nz"] - 1 - k0))
            gx, gy = g.xy_il(il, xl)
            for far in (False, True):
                o = 5000.0 if far else 0.0
                sq = [gx - 100.0 + o, gy - 100.0, 200.0]
                V = v.V.surf(gx - 50.0 + o, gy - 50.0, 100.0, 100.0, 0.0, sq + [c["z0"] + (k0 + 0.4) * dz] * 4, sq + [c["z0"] + (k1 + 0.6) * dz] * 4, -999.0)
                for got in (list(y.data_vol(gx, gy, V)), list(y.data_il(il, xl, V, True))):
                    if far:
                        require(len(got) == 0, "%d samples at a position outside the volume", len(got))
                    else:
                        require(len(got) == c["nz"] and got[k0:k1 + 1] == w[k0:k1 + 1], "samples %d to %d of %d inside a volume are %r, in the file %r", k0, k1, len(got), got[k0:k1 + 1], w[k0:k1 + 1])
        else:
            require(y.pos_il(il, xl) == 0, "position of a trace that is not in the file")
            require(raises(v, y.data_il, il, xl, None, False), "data for a trace that is not in the file")
    require(raises(v, y.data_il, c["il0"] - c["dil"], c["xl0"], None, False), "data for an inline outside the grid")
    k = v.geometry(p, c["ft"])
    require(k.n() == g.n() and k.il() == g.il(), "geometry of the file %r %r, expected %r %r", k.n(), k.il(), g.n(), g.il())
    if c["ny"] > 1 and c["nx"] > 1:
        y = v.Y.open(p, c["z0"], c["ft"])
        y.find_geom(True, True, True)   # inline and crossline numbers as coordinates
        g = y.geom()
        require(g.il() == h.il(), "numbers %r of the geometry in inline and crossline coordinates, expected %r", g.il(), h.il())
        for il, xl in by:
            require(y.pos_xy(float(il), float(xl)) == by[(il, xl)][6], "position of inline %d, crossline %d found by its numbers", il, xl)
    return True, ["missing traces" if len(tr) < len(la) else "complete", "shuffled" if c["order"] != sorted(c["order"]) else "in order", "rotated" if c["ang"] % 90 else "along the axes"]


@st.composite
def bog(draw):
    c = draw(cube())
    c["nx"], c["ny"] = draw(st.integers(4, 12)), draw(st.integers(4, 12))
    c["dil"], c["dxl"] = draw(st.sampled_from([1, 2, 3, 4, 10])), draw(st.sampled_from([1, 2, 4, 5]))
    c["il0"], c["xl0"] = draw(st.integers(200, 900)), draw(st.integers(200, 900))
    c["nz"] = 2
    c = fit(c)
    c["gap"] = [draw(st.sampled_from([None, None] + list(range(1, n - 1)))) for n in (c["nx"], c["ny"])]   # line without traces
    c["bogus"] = draw(st.lists(st.tuples(st.booleans(), st.integers(-60, 200), st.integers(0, 999), st.integers(0, 200)), max_size=4))
    c["drop"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
    c["mix"] = draw(st.booleans())
    return c


@scratch
def check_bogus(c, v, d):
    f = fields(c["ft"])
    if not usable(c):
        return False, ["no grid"]
    if c["sc"] == -10 or (SCALE[c["sc"]] if f[1] > 0 else 1.0) > 0.1:
        c = dict(c, sc=-100) if f[1] > 0 else dict(c, ang=0.0, dx=math.ceil(c["dx"]), dy=math.ceil(c["dy"]), x0=math.floor(c["x0"]), y0=math.floor(c["y0"]))
    nx, ny = c["nx"], c["ny"]
    la = lattice(c)
    rng = np.random.default_rng(c["seed"])
    tr = [q for k, q in enumerate(la) if k % nx != c["gap"][0] and k // nx != c["gap"][1] and (k % nx in (0, nx - 1) or k // nx in (0, ny - 1) or rng.random() >= c["drop"])]
    good = [sorted({q[m] for q in tr}) for m in (0, 1)]
    step = (c["dil"], c["dxl"])
    # numbers that are not a step away from another
    bad = [[], []]
    extra = []
    for inl, n, k, at in c["bogus"]:
        m = 0 if inl else 1
        num = good[m][0] + n
        if any(abs(num - q) in (0, step[m]) for q in good[m] + bad[m]) or num <= 0:
            continue
        bad[m].append(num)
        q = list(la[k % len(la)])
        q[1 - m] = good[1 - m][k % len(good[1 - m])]
        q[m] = num
        extra.append((q, at))
    for m in (0, 1):
        a = sorted(good[m] + bad[m])
        df = [y - x for x, y in zip(a, a[1:])]
        # the step of the survey is the one most found, and every line has a neighbour
        if any(df.count(w) >= df.count(step[m]) for w in set(df) if w != step[m]) or not all(q - step[m] in good[m] or q + step[m] in good[m] for q in good[m]):
            return False, ["no common step"]
    rows = [(q, True) for q in tr]
    if c["mix"]:
        rows = [rows[k] for k in rng.permutation(len(rows))]
    for q, at in extra:
        rows.insert(at % (len(rows) + 1), (q, False))
    out = textual() + binary(c)
    pos = {}
    for q, ok in rows:
        h = header_bytes({"x": q[4], "y": q[5], "il": q[0], "xl": q[1], "t": int(c["z0"]), "ns": c["nz"], "dt": c["dt"], "sc": c["sc"]}, c["ft"])[0]
        b, w = samples(c, len(pos))
        if ok:
            pos[(q[0], q[1])] = (len(out) + 240, [float(z) for z in w], q)
        out += bytes(h) + b
    p = os.path.join(d, "a.segy")
    open(p, "wb").write(out)
    tol = 0.2 if (SCALE[c["sc"]] if f[1] > 0 else 1.0) > 1e-2 else 0.06
    full = lambda m: (good[m][0], good[m][-1])
    for g, y in ((v.geometry(p, c["ft"]), None), (None, v.Y.open(p, c["z0"], c["ft"]))):
        if y is not None:
            y.find_geom(False, True, True)
            g = y.geom()
        il = g.il()
        require((il[0:2], il[3:5]) == (full(0), full(1)) and (il[2], il[5]) == step, "lines %r of a survey with inlines %r and crosslines %r in steps %r and bogus numbers %r", il, full(0), full(1), step, bad)
        for k, (at, w, q) in pos.items():
            gx, gy = g.xy_il(*k)
            require(math.hypot(gx - q[2], gy - q[3]) < tol, "inline %d, crossline %d is at (%r, %r), the trace puts it at (%r, %r)", k[0], k[1], gx, gy, q[2], q[3])
            if y is not None:
                require(y.pos_il(*k) == at, "position %d of inline %d, crossline %d in the file, expected %d (bogus numbers %r)", y.pos_il(*k), k[0], k[1], at, bad)
                require(y.defined(*k) and y.hdr_il(*k)[2:4] == k, "trace of inline %d, crossline %d is lost", *k)
                if hash(k) % 5 == 0:
                    require(list(y.data_il(k[0], k[1], None, False)) == w, "data of inline %d, crossline %d are those of another trace", *k)
        if y is not None:
            for q, _ in extra:
                require(not y.defined(q[0], q[1]) and (raises(v, y.pos_il, q[0], q[1]) or y.pos_il(q[0], q[1]) == 0), "trace with the bogus numbers %r is in the grid", (q[0], q[1]))
            for k in range(len(la)):
                if (la[k][0], la[k][1]) not in pos:
                    require(not y.defined(la[k][0], la[k][1]), "a trace where there is none, at %r", la[k][:2])
    return bool(extra) or c["gap"] != [None, None], ["bogus: %d" % len(extra), "gaps: %d" % (2 - c["gap"].count(None)), "first is bogus" if not rows[0][1] else "first is good"]


@st.composite
def det(draw):
    c = draw(cube())
    c.update(nx=draw(st.integers(2, 5)), ny=draw(st.integers(2, 5)), ft=[draw(st.integers(0, 5))], sc=draw(st.sampled_from([-100, -1000, -10])), swap=draw(st.booleans()), ang=draw(st.sampled_from([0.0, 30.0, 60.0, 121.0, 200.0, 300.0])),
             dil=draw(st.sampled_from([1, 1, 2])), dxl=draw(st.sampled_from([1, 1, 2])), dx=draw(st.sampled_from([12.5, 25.0])), dy=draw(st.sampled_from([12.5, 25.0])), il0=draw(st.integers(10, 5000)), xl0=draw(st.integers(10, 5000)), nz=draw(st.integers(4, 30)))
    n = c["nx"] * c["ny"]
    c["order"] = list(range(n)) if not c["swap"] else sorted(range(n), key=lambda k: (k % c["nx"], k // c["nx"]))
    return fit(c)


@scratch
def check_detect(c, v, d):
    p = os.path.join(d, "a.segy")
    raw, tr = build(c)
    open(p, "wb").write(raw)
    f = STD[c["ft"][0]]
    for q in (v.detect(p), v.Y.open(p, c["z0"], []).format(), v.Y.open_own(p, c["z0"], [[-1, 41, 45, 49, 53, -1, 0]], True).format()):
        require(tuple(q[:8]) == f, "a %s file (spacing %r by %r, %d by %d traces) is taken as %r", f[0], c["dx"] * 1.0 / c["dxl"], c["dy"] * 1.0 / c["dil"], c["nx"], c["ny"], q)
    require(v.count(p, []) == len(tr), "%d traces counted", v.count(p, []))
    y = v.Y.open(p, c["z0"], [])
    for m, t in enumerate(tr):
        close_trace(y.next(0.0, None, False), t, c, "trace %d of a file of detected format" % m)
    own = [71, 201, 205, 209, 213, 109, 0]
    c2 = dict(c, ft=own)
    open(p, "wb").write(build(c2)[0])
    require(raises(v, v.Y.open, p, c["z0"], []), "a file with an own layout passes as a standard format")
    q = v.Y.open_own(p, c["z0"], [[c["ft"][0]], own], True).format()
    require(q[1:7] == (71, 201, 205, 209, 213, 109), "own layout in the list is found as %r", q)
    return True, [f[0], "crosslines first" if c["swap"] else "inlines first"]


# --- writing -----------------------------------------------------------------------------------------------------------
def parse(raw, ft):
    """binary header fields and the traces of a file written by the library"""
    f = fields(ft)
    dt, ns, code = (struct.unpack_from(">h", raw, 3200 + k)[0] for k in (16, 20, 24))
    out, pos = [], 3600
    while pos < len(raw):
        h = raw[pos:pos + 240]
        g = lambda loc, code: struct.unpack_from(code, h, loc - 1)[0]
        sc = g(f[1], ">h") if f[1] > 0 else 1
        s = SCALE[sc] if f[1] > 0 else 1.0
        r = {"x": g(f[2], ">i") * s if f[2] > 0 else None, "y": g(f[3], ">i") * s if f[3] > 0 else None, "il": g(f[4], ">i") if f[4] > 0 else None, "xl": g(f[5], ">i") if f[5] > 0 else None,
             "t": g(f[6], ">h") if f[6] > 0 else None, "off": g(f[7], ">i") if f[7] > 0 else None, "ns": g(115, ">h"), "dt": g(117, ">h"), "sc": sc}
        r["v"] = list(struct.unpack_from(">%df" % ns, raw, pos + 240)) if pos + 240 + 4 * ns <= len(raw) else None
        out.append(r)
        pos += 240 + 4 * ns
    return dt, ns, code, out, pos == len(raw)


@st.composite
def wr(draw):
    c = draw(cube())
    c["how"] = draw(st.sampled_from(["il", "xy", "store", "hdr", "storm"]))
    c["init"] = draw(st.booleans())
    c["ens"] = draw(st.integers(1, 60))
    c["off"] = draw(st.integers(0, 5000))
    c["vol"] = draw(st.sampled_from([None, None, [0.0, 0.5], [0.3, 0.7]]))
    c["top"] = draw(st.sampled_from([0.0, -1.5, 7.0]))
    c["base"] = draw(st.sampled_from([0.0, 2.5]))
    c["seis"] = draw(st.booleans())
    c["lift"] = draw(st.sampled_from([0.0, 0.0, 0.3, -0.4]))
    return c


@scratch
def check_write(c, v, d):
    p = os.path.join(d, "w.segy")
    ft = c["ft"]
    f = fields(ft)
    dz, nz, z0 = c["dt"] / 1000.0, c["nz"], c["z0"]
    a = math.radians(c["ang"])
    rng = np.random.default_rng(c["seed"])
    X0, Y0 = c["x0"] + 1000.0, c["y0"] + 1000.0
    nx, ny = c["nx"], c["ny"]
    # geometry of the file: crosslines along the first axis, inlines along the second
    S = [c["il0"] - 0.5 * c["dil"], c["xl0"] - 0.5 * c["dxl"], -math.sin(a) * c["dil"] / c["dy"], math.cos(a) * c["dil"] / c["dy"], math.cos(a) * c["dxl"] / c["dx"], math.sin(a) * c["dxl"] / c["dx"]]
    g = v.G.full(X0, Y0, c["dx"], c["dy"], nx, ny, S, a)
    xy = lambda i, j: (X0 + (i + 0.5) * c["dx"] * math.cos(a) - (j + 0.5) * c["dy"] * math.sin(a), Y0 + (i + 0.5) * c["dx"] * math.sin(a) + (j + 0.5) * c["dy"] * math.cos(a))
    ext = 2 * (nx * c["dx"] + ny * c["dy"]) + 10
    sq = [X0 - ext, Y0 - ext, 2 * ext]
    fine = 4.2 if dz != 4.1 else 4.3
    V, first, nd = None, 0, nz
    if c["vol"] is not None and c["how"] != "il":
        first = int(c["vol"][0] * nz)
        nd = max(1, int((nz - first) * c["vol"][1]))
        V = v.V.surf(X0, Y0, nx * c["dx"], ny * c["dy"], a, sq + [z0 + (first + 0.5) * dz] * 4, sq + [z0 + (first + 0.5 + nd) * dz] * 4, -999.0)
    res = SCALE[c["sc"]] if f[1] > 0 else 1.0
    want = []
    if c["how"] == "storm":
        if f[2] <= 0:
            return False, ["storm"]
        top = z0 + max(0, first) * dz + (0.37 + c["lift"] * nz) * dz
        bot = top + (nz - first) * dz * 0.6 + 1.3 * dz
        VV = v.V.surf(X0, Y0, nx * c["dx"], ny * c["dy"], a, sq + [top] * 4, sq + [bot] * 4, -999.0)
        nk = max(2, nz // 2)
        val = [float(np.float32(q)) for q in rng.normal(size=nx * ny * nk)]
        q, pos = [], []
        sh = 0.0 if c["seis"] else 0.5 * dz
        k0, k1 = math.floor((top - z0 + sh) / dz), math.floor((bot - z0 - sh) / dz)
        for j in range(ny):
            for i in range(nx):
                x, y = xy(i, j)
                for k in range(max(0, k0), min(nz, k1)):
                    q.append([x, y, z0 + k * dz + sh])
                    pos.append((i, j, k))
        r, tl = v.storm(VV, nx, ny, nk, val, p, z0, dz, nz, ft, c["seis"], True, q)
        data = np.zeros((nx, ny, nz))
        for (i, j, k), w in zip(pos, r):
            data[i, j, k] = w
        for j in range(ny):
            for i in range(nx):
                x, y = xy(i, j)
                want.append((x, y, j, i, data[i, j], 0))
                t = tl[i + nx * j]
                require(t is not None, "no trace for column %d, %d of a grid of %d by %d", i, j, nx, ny)
                require_close([t[0], t[1]], [x, y], "position of column %d, %d" % (i, j), 1e-12, 1e-6)
                require((t[2], t[3]) == (j, i), "inline, crossline %r of column %d, %d", t[2:4], i, j)
                require_close(t[6], data[i, j], "trace of column %d, %d of a grid" % (i, j), 1e-5, 1e-5)
        tol = 1e-4
        sc_used = 1
        if f[1] <= 0:
            sc_used = None
        off_used = None
    else:
        y = v.Y.create(p, z0, nz, dz, ft, c["init"], c["ens"])
        sc_used, off_used, tol = c["sc"], c["off"], 0.0
        if c["how"] in ("xy", "store"):
            y.set_geom(g)
        cells = [(k % nx, k // nx) for k in c["order"]]
        for i, j in cells:
            x, yy = xy(i, j)
            il, xl = c["il0"] + c["dil"] * j, c["xl0"] + c["dxl"] * i
            data = [float(np.float32(q)) for q in rng.normal(size=nd)]
            full = [float(np.float32(c["top"]))] * first + data + [float(np.float32(c["base"]))] * (nz - first - nd)
            if c["how"] == "il":
                y.write_il(x, yy, il, xl, full, c["sc"], c["off"])
            elif c["how"] == "xy":
                y.write_xy(x, yy, data, V, V is not None, c["top"], c["base"], c["sc"], c["off"])
            elif c["how"] == "store":
                y.store(x, yy, data, V, V is not None, c["top"], c["base"])
            else:
                if f[2] <= 0 or f[3] <= 0:
                    return False, ["header without position"]
                y.write_hdr(ft, [x, yy, il, xl, int(z0), 0, c["dt"], c["sc"], c["off"]], data, V, V is not None, c["top"], c["base"])
            want.append((x, yy, il, xl, full, c["off"]))
        if c["how"] == "store":
            xo, yo = X0 + 3 * ext, Y0
            require(raises(v, y.store, xo, yo, [0.0] * nd, None, False, 0.0, 0.0), "a trace outside the geometry is stored")
            y.write_all(c["sc"])
            for i, j in cells:   # the traces stay available after writing
                t = y.trace(i + nx * j) if (c["ang"] % 360 == 0) else None
                if t is not None:
                    require((t[2], t[3]) == (c["il0"] + c["dil"] * j, c["xl0"] + c["dxl"] * i), "trace of cell %d, %d is %r after writing", i, j, t[2:4])
            want.sort(key=lambda w: (w[2], w[3]))
            off_used = None
        elif c["how"] == "xy":
            require(raises(v, y.write_xy, X0 + 3 * ext, Y0, [0.0] * nd, None, False, 0.0, 0.0, 1, 0), "a trace outside the geometry is written")
        if c["how"] in ("hdr",) and f[1] <= 0:
            sc_used = None
        del y
    raw = open(p, "rb").read()
    dt, ns, code, out, whole = parse(raw, ft)
    require(whole and (dt, ns, code) == (c["dt"], nz, 5), "file of %d bytes with sample interval %d, %d samples, format %d; expected %d, %d, 5", len(raw), dt, ns, code, c["dt"], nz)
    require(len(out) == len(want), "%d traces in the file, %d written", len(out), len(want))
    if c["init"] and c["how"] != "storm":
        require(struct.unpack_from(">h", raw, 3212)[0] == c["ens"], "%d traces per ensemble in the file, %d given", struct.unpack_from(">h", raw, 3212)[0], c["ens"])
    else:
        require(struct.unpack_from(">h", raw, 3212)[0] == 1, "%d traces per ensemble in the file", struct.unpack_from(">h", raw, 3212)[0])
    s = SCALE[sc_used] if f[1] > 0 else (SCALE[c["sc"]] if c["how"] != "storm" else 1.0)
    for m, (r, w) in enumerate(zip(out, want)):
        if f[1] > 0:
            require(r["sc"] == sc_used, "scaling code %d, expected %d", r["sc"], sc_used)
            if f[2] > 0:
                require(abs(r["x"] - w[0]) <= 0.5 * s * (1 + 1e-6) and (f[3] <= 0 or abs(r["y"] - w[1]) <= 0.5 * s * (1 + 1e-6)), "trace %d at (%r, %r), written for (%r, %r) with resolution %r", m, r["x"], r["y"], w[0], w[1], s)
        require(r["il"] in (None, w[2]) and r["xl"] in (None, w[3]), "trace %d has inline, crossline %r, %r, written with %r, %r", m, r["il"], r["xl"], w[2], w[3])
        require(r["t"] in (None, int(z0)), "start time %r of trace %d, expected %r", r["t"], m, z0)
        require(r["off"] is None or off_used is None or r["off"] == off_used, "offset %r, expected %r", r["off"], off_used)
        require(r["ns"] == nz and r["dt"] == c["dt"], "trace %d has %d samples of %d in its header, expected %d of %d", m, r["ns"], r["dt"], nz, c["dt"])
        require_close(r["v"], list(w[4]), "samples of trace %d" % m, tol and 1e-5, tol and 1e-5)
    if usable(c) and (f[1] > 0):
        y = v.Y.open(p, z0, ft)
        y.read_all(None, 0.0, False, True)
        for m, r in enumerate(out):
            t = y.trace(m)
            require((t[2], t[3]) == (r["il"], r["xl"]) and list(t[6]) == r["v"], "trace %d reads back as %r", m, t)
    return len(want) > 1, [c["how"], "volume" if V is not None else "plain"]


@st.composite
def dam(draw):
    c = draw(cube())
    c["ft"] = [draw(st.integers(0, 5))]
    c["at"] = draw(st.floats(0, 1))
    c["kind"] = draw(st.sampled_from(["cut", "cut", "format", "missing", "head"]))
    return c


@scratch
def check_damage(c, v, d):
    p = os.path.join(d, "a.segy")
    raw, tr = build(c)
    n, ft = len(tr), c["ft"]
    if c["kind"] == "missing":
        require(raises(v, v.Y.open, os.path.join(d, "no"), c["z0"], ft), "no error for a file that is not there")
        return True, ["missing"]
    if c["kind"] == "head":
        open(p, "wb").write(raw[:3600])
        y = v.Y.open(p, c["z0"], ft)
        require(raises(v, y.read_all, None, 0.0, False, True), "no error for a file without traces")
        y = v.Y.open(p, c["z0"], ft)
        require(y.next(0.0, None, False) is None, "a trace from a file without traces")
        return True, ["no traces"]
    if c["kind"] == "format":
        bad = 4 if c["at"] < 0.5 else 7
        b = bytearray(raw)
        struct.pack_into(">h", b, 3224, bad)
        open(p, "wb").write(bytes(b))
        require(raises(v, lambda: v.Y.open(p, c["z0"], ft).read_all(None, 0.0, False, True)), "no error for samples of format %d", bad)
        return True, ["format"]
    size = len(samples(c, 0)[0])
    k = 3601 + int(c["at"] * (len(raw) - 3602))
    open(p, "wb").write(raw[:k])
    done = (k - 3600) // (240 + size)
    rest = (k - 3600) % (240 + size)
    y = v.Y.open(p, c["z0"], ft)
    for m in range(done):
        close_trace(y.next(0.0, None, False), tr[m], c, "complete trace %d of a truncated file" % m)
    try:
        g = y.next(0.0, None, False)
        require(g is None, "a trace from the last %d bytes of a truncated file", rest)
    except (v.Exc, v.IOErr, v.FormatErr, v.Eof):
        require(rest > 0, "error at the end of a file that ends after a trace")
    y = v.Y.open(p, c["z0"], ft)
    try:
        y.read_all(None, 0.0, False, True)
        require(rest <= 240, "no error for a file that ends within the samples of a trace")
        for m in range(y.info()[0]):
            if m < done:
                close_trace(y.trace(m), tr[m], c, "trace %d of a truncated file" % m)
            else:
                require(y.trace(m) is None, "trace %d of a file with %d complete ones", m, done)
    except (v.Exc, v.IOErr, v.FormatErr, v.Eof):
        require(rest > 0 or done == 0, "error for a file that ends after a trace")
    return True, ["within a header" if rest < 240 else "within the samples"]


PROP = Prop("C24", [{"shim": "vsegy", "mods": ["segy", "stormgrid", "volume", "surface", "iotools", "exception", "math", "geometry", "grid"], "asan": False}], [
    Sub("header", hdr, check_hdr, 1000, 20000, shards=1, rule="always"),
    Sub("layout", layout, check_layout, 300, 10000, shards=1, rule="a legal layout"),
    Sub("textual", text, check_text, 150, 5000, shards=1, rule="a line set"),
    Sub("read", rd, check_read, 900, 15000, shards=2, rule="two traces"),
    Sub("long", lng, check_read, 40, 1500, shards=1, rule="always"),
    Sub("window", win, check_window, 1000, 15000, shards=2, rule="two traces"),
    Sub("grid", cube, check_grid, 1000, 15000, shards=2, rule="two inlines and two crosslines"),
    Sub("bogus", bog, check_bogus, 500, 8000, shards=2, rule="a line number out of step or a line without traces"),
    Sub("detect", det, check_detect, 200, 8000, shards=1, rule="always"),
    Sub("write", wr, check_write, 1200, 15000, shards=2, rule="two traces"),
    Sub("damage", dam, check_damage, 500, 8000, shards=1, rule="always"),
], RULE, [
    "sample counts and intervals are those a 16-bit signed header field can hold; coordinate scaling codes are the powers of ten",
    "regular orthogonal surveys; detection of the layout is checked for surveys with two inlines and two crosslines, spacings of 12.5 and 25 m and lines stored one after the other",
])
