"""C16: text files and strings."""
import math, os, re, shutil, struct, tempfile
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require
from vlib.worker import run_forked

RULE = ("stream: generated texts (tokens, numbers, quotes, comments, all kinds of white space, with and without final newline) read by histories of up to 9 "
        "reading functions against a model of position and line number. strings: tokens, quoted tokens, type parsing, number formatting, array parsing, "
        "substitution, trimming and path functions against Python. tables: tabular files with headers, blank lines and short rows. serialize: "
        "round trips of vectors. gridtype: headers of every grid file format. Non-trivial: at least 3 tokens (stream, strings, tables), at least two elements "
        "(serialize), a recognised format (gridtype).")

WS = " \t\n\v\f\r"
INT = re.compile(r"[ \t\n\v\f\r]*[+-]?[0-9]+\Z")
DBL = re.compile(r"[ \t\n\v\f\r]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")

word = st.one_of(st.text("abXY_#.", min_size=1, max_size=4), st.integers(-2000, 2000).map(str), st.sampled_from(["1.5", "-2e3", "+7", ".5", "3.", "1e", "--1", "2147483647", "2147483648", "1e308", "1e309", "0x1F", "007", "-", "1,5"]))
num = st.one_of(st.integers(-10**6, 10**6).map(str), st.sampled_from(["0", "-1", "+7", "2147483647"]))
space = st.one_of(st.sampled_from([" ", "\n", "  ", "\t", "\r\n", "\n\n", " \n \t"]), st.text(WS, min_size=1, max_size=4))


def int_of(s):
    return int(s) if INT.match(s) and -2**31 <= int(s) < 2**31 else None


def dbl_of(s):
    if not DBL.match(s):
        return None
    x = float(s)
    return None if math.isinf(x) else x


class Eof(Exception):
    pass


class Err(Exception):
    pass


class Stop(Exception):
    pass


class M:
    """A text stream: position, line number and whether the stream is exhausted."""
    def __init__(self, t):
        self.t, self.p, self.line, self.dead, self.lines = t, 0, 1, False, True

    def token(self):
        if self.dead:
            return ""
        while self.p < len(self.t) and self.t[self.p] in WS:
            self.line += self.t[self.p] == "\n"
            self.p += 1
        a = self.p
        while self.p < len(self.t) and self.t[self.p] not in WS:
            self.p += 1
        if self.p == len(self.t):
            self.dead = True
        return self.t[a:self.p]

    def next(self, conv):
        s = self.token()
        if s == "":
            raise Eof()
        v = s if conv is None else conv(s)
        if v is None:
            raise Err()
        return v

    def getline(self):
        if self.dead:
            return None
        i = self.t.find("\n", self.p)
        if i < 0:
            self.dead = True
            s = self.t[self.p:]
            if self.p == len(self.t):
                return None
            self.p = len(self.t)
            return s
        s = self.t[self.p:i]
        self.p = i + 1
        return s

    def nonempty(self):
        while True:
            s = self.getline()
            if s is None:
                return None
            self.line += 1
            if s.strip(WS):
                return s

    def discard(self, strict):
        s = self.getline()
        self.line += 1
        if strict and s.strip(WS):
            raise Err()

    def skip(self, c):
        while True:
            while self.p < len(self.t) and self.t[self.p] in WS:
                self.line += self.t[self.p] == "\n"
                self.p += 1
            if self.p == len(self.t):
                self.dead, self.lines = True, False
                return
            if self.t[self.p] != c:
                return
            self.p += 1
            s = self.getline()
            self.line += 1
            if self.dead:
                self.lines = False
                return

    def at_end(self):
        while self.p < len(self.t) and self.t[self.p] in WS:
            if self.t[self.p] == "\n":
                self.lines = False      # this function cannot count lines
            self.p += 1
        if self.p == len(self.t):
            self.dead = True
            return True
        return False

    def quoted(self, q):
        i = -1 if self.dead else self.t.find(q, self.p)
        if i < 0:
            raise Eof()
        j = self.t.find(q, i + 1)
        if j < 0:
            s = self.t[i + 1:]
            self.dead = True
            if not s:
                raise Eof()
            self.line += self.t.count("\n", self.p)
            self.p = len(self.t)
            return s
        self.line += self.t.count("\n", self.p, j)
        self.p = j + 1
        return self.t[i + 1:j]

    def upcoming(self):
        return self.t[self.p:].split() if not self.dead else []


@st.composite
def stream_case(draw):
    parts = []
    for _ in range(draw(st.integers(0, 14))):
        k = draw(st.sampled_from("wwnnnqcs"))
        if k == "w":
            parts.append(draw(word))
        elif k == "n":
            parts.append(draw(num))
        elif k == "q":
            parts.append('"' + draw(st.text("ab \n", max_size=5)) + draw(st.sampled_from(['"', '"', '"', ""])))
        elif k == "c":
            parts.append("#" + draw(st.text("ab #", max_size=6)) + "\n")
        else:
            parts.append("")
        parts.append(draw(space))
    if parts and draw(st.booleans()):
        parts.pop()
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        ops.append([draw(st.sampled_from(["token", "s", "i", "d", "q", "discard", "nonempty", "skip", "end", "arr_i", "arr_d", "fast_i", "fast_d", "rest_i", "rest_d"])), draw(st.integers(0, 4))])
    return {"t": draw(st.sampled_from(["", "", " ", "\n"])) + "".join(parts), "ops": ops}


def check_stream(c):
    import vio
    t, md = vio.Text(c["t"].encode()), M(c["t"])
    labs = set()
    B = lambda x: x.decode()
    for k, (op, n) in enumerate(c["ops"]):
        real = model = None
        if op == "token":
            real, model = lambda: B(t.token()), md.token
        elif op == "s":
            real, model = lambda: B(t.next_s()), lambda: md.next(None)
        elif op == "i":
            real, model = t.next_i, lambda: md.next(int_of)
        elif op == "d":
            real, model = t.next_d, lambda: md.next(dbl_of)
        elif op == "q":
            real, model = lambda: B(t.quoted('"')), lambda: md.quoted('"')
        elif op == "discard":
            if md.dead:
                continue
            real, model = lambda: t.discard(n % 2 == 1), lambda: md.discard(n % 2 == 1)
        elif op == "nonempty":
            real, model = lambda: (lambda x: None if x is None else B(x))(t.nonempty()), md.nonempty
        elif op == "skip":
            if md.dead:
                continue
            real, model = lambda: t.skip("#"), lambda: md.skip("#")
        elif op == "end":
            if md.dead:
                real, model = t.at_end, lambda: True
            else:
                real, model = t.at_end, md.at_end
        elif op.startswith("arr"):
            conv = int_of if op == "arr_i" else dbl_of
            real, model = lambda: list(getattr(t, op)(n)), lambda: [md.next(conv) for _ in range(n)]
        elif op.startswith("fast"):
            up = md.upcoming()[:n]
            conv = int_of if op == "fast_i" else dbl_of
            if any(conv(x) is None for x in up) or (md.dead and n == 0):
                continue        # unchecked reading of something else than numbers

            def model(up=up, n=n, conv=conv):
                for _ in range(min(n, len(up))):
                    keep = md.line
                    while md.t[md.p] in WS:
                        md.lines = md.lines and md.t[md.p] != "\n"
                        md.p += 1
                    md.token()
                    md.line = keep
                if len(up) < n:
                    raise Eof()
                return [conv(x) for x in up]
            real = lambda: list(getattr(t, op)(n))
        else:
            up = md.upcoming()
            conv = int_of if op == "rest_i" else dbl_of
            if md.dead or "\v" in md.t[md.p:] or any(conv(x) is None for x in up[:n]):
                continue

            def model(up=up, n=n, conv=conv):
                if len(up) < n:
                    raise Stop()
                md.dead, md.lines, md.p = True, False, len(md.t)
                return [conv(x) for x in up[:n]]
            real = lambda: list(getattr(t, op)(n))
        exp = err = None
        try:
            exp = model()
        except (Eof, Err, Stop) as e:
            err = type(e)
        got = gerr = None
        try:
            got = real()
        except vio.EndOfFile:
            gerr = Eof
        except (vio.IOErr, vio.Exc):
            gerr = Err
        labs.add(op + ("-" + err.__name__ if err else ""))
        if err is Stop:
            require(gerr is not None, "operation %d %s(%d): too few elements were not reported: %r", k, op, n, got)
            break
        require(err == gerr, "operation %d %s(%d): %s, expected %s", k, op, n, gerr.__name__ if gerr else repr(got), err.__name__ if err else repr(exp))
        require(got == exp, "operation %d %s(%d): %r, expected %r", k, op, n, got, exp)
        if err and op not in ("s", "i", "d"):
            break
        if md.lines:
            require(t.line == md.line, "line number %d after operation %d %s(%d), expected %d", t.line, k, op, n, md.line)
        if op.startswith("rest"):
            break
    w = [x for x in c["t"].split("\n") if x.strip(WS)]
    if len(c["t"]) < 900:
        last = bytes(vio.last_line(c["t"].encode())).decode()
        require(last == (w[-1] if w else ""), "last non-empty line %r, expected %r", last, w[-1] if w else "")
    # comment lines at the start of a file
    lines = c["t"].split("\n")
    d = tempfile.mkdtemp()
    try:
        f = d + "/x"
        with open(f, "w", newline="") as fh:
            fh.write(c["t"])
        rest, exp = c["t"], []
        for _ in range(c["ops"][0][1]):
            s = rest.lstrip(WS)
            if not s:
                exp = None
                break
            exp.append(s[0] == "#")
            rest = s if s[0] != "#" else s[s.index("\n") + 1:] if "\n" in s else ""
        try:
            got = vio.ignore_comment(f, "#", c["ops"][0][1])
            require(exp is not None and list(got[0]) == exp and bytes(got[1]).decode() == rest, "IgnoreComment: %s, expected %s", got, (exp, rest))
        except vio.Exc:
            require(exp is None, "IgnoreComment raised, expected %s", exp)
    finally:
        shutil.rmtree(d)
    return len(c["t"].split()) >= 3, sorted(labs)


@st.composite
def str_case(draw):
    return {"words": draw(st.lists(word, max_size=6)), "sep": [draw(space) for _ in range(7)],
            "q": draw(st.lists(st.tuples(st.booleans(), st.text("ab c\t", max_size=6)), max_size=5)), "open": draw(st.integers(0, 5)) == 0,
            "num": draw(st.one_of(word, st.floats(allow_nan=False, allow_infinity=False).map(repr), st.integers(-2**33, 2**33).map(str), st.tuples(st.sampled_from(WS), num).map("".join),
                                  st.tuples(num, st.sampled_from(WS)).map("".join))),
            "x": draw(st.floats(-1e6, 1e6)), "prec": draw(st.integers(-1, 8)), "i": draw(st.integers(-2**31, 2**31 - 1)),
            "sub": [draw(st.text("ab", max_size=12)), draw(st.text("ab", min_size=1, max_size=3)), draw(st.text("abc", max_size=4))], "s": draw(st.text("abZ z1\t", max_size=8)),
            "nums": draw(st.lists(st.one_of(num, st.sampled_from(["1.5", "-2e3", ".25", "1e-3"])), max_size=6)), "n": draw(st.integers(0, 7)),
            "path": draw(st.tuples(st.sampled_from(["", "", "/"]), st.lists(st.sampled_from(["a", "b.c", "dir", "x.y.z", ".."]), max_size=3), st.sampled_from(["f", "f.txt", "g.tar.gz", "UP.F", "n"]))),
            "ext": draw(st.sampled_from(["dat", "d", "x1"])), "dir": draw(st.sampled_from(["", "p", "p/q", "/p", "p/"]))}


def check_str(c):
    return run_forked(_check_str, c, 20) if c["open"] else _check_str(c)


def _check_str(c):
    import vio
    D = lambda v: [bytes(x).decode() for x in v]
    t = "".join(s + w for s, w in zip(c["sep"], c["words"])) + c["sep"][6]
    for s in (t, t.strip(WS)):
        require(D(vio.tokens(s.encode())) == c["words"], "GetTokens(%r): %s", s, D(vio.tokens(s.encode())))
    # quoted tokens
    exp, q = [], ""
    for k, (quoted, s) in enumerate(c["q"]):
        if not quoted:
            s = s.replace(" ", "").replace("\t", "") or "w"
        exp.append(s)
        q += (" \t"[k % 2] if k else ("" if c["prec"] % 2 else " ")) + ('"' + s + '"' if quoted else s)
    if c["open"]:
        q, exp = q + ' "un term', exp + ["un term"]
    got = D(vio.quoted_tokens(q.encode()))
    require(got == exp, "GetQuotedTokens(%r): %s, expected %s", q, got, exp)
    # parsing
    s = c["num"]
    b = s.encode()
    ty = vio.is_type(b)
    i, x = int_of(s), dbl_of(s)
    require(ty[0] == (i is not None), "IsType<int>(%r) is %s", s, ty[0])
    require(ty[1] == (x is not None), "IsType<double>(%r) is %s", s, ty[1])
    if not s.strip(WS).startswith("-"):
        u = int(s) if INT.match(s) and int(s) < 2**32 else None
        require(ty[3] == (u is not None), "IsType<unsigned>(%r) is %s", s, ty[3])
        if u is not None:
            require(vio.parse_u(b) == u, "ParseType<unsigned>(%r)", s)
    for ok, f, v in ((i is not None, vio.parse_i, i), (x is not None, vio.parse_d, x)):
        try:
            r = f(b)
            require(ok and r == v, "%r parsed as %r, expected %r", s, r, v)
        except vio.Exc:
            require(not ok, "%r was not parsed", s)
    if x is not None:
        require(ty[5], "IsNumber(%r) is false", s)
    if x is not None and abs(x) < 3e38 and (x == 0 or abs(x) > 1.2e-38):
        r = vio.parse_f(b)
        # one rounding of the decimal number: nearest float (a second rounding of the double may differ by one unit)
        require(abs(r - x) <= abs(x) * 2.0 ** -24 * 1.0001, "ParseType<float>(%r): %r", s, r)
    if s and s[0] in "ab_-":
        require(not ty[5] or x is not None or s[0] == "-", "IsNumber(%r) is true", s)
    require(bytes(vio.parse_s(t.encode())).decode() == t, "ParseType<string>(%r)", t)
    # formatting
    require(vio.to_s_i(c["i"]) == str(c["i"]), "ToString(%d): %s", c["i"], vio.to_s_i(c["i"]))
    e = ("%.*f" % (c["prec"], c["x"])) if c["prec"] >= 0 else ("%g" % c["x"])
    require(vio.to_s_d(c["x"], c["prec"]) == e, "ToString(%r, %d): %s, expected %s", c["x"], c["prec"], vio.to_s_d(c["x"], c["prec"]), e)
    # arrays
    a = "".join(sp.replace("\v", " ") + w for sp, w in zip(c["sep"], c["nums"]))
    for tail in ("", c["sep"][6].replace("\v", " ")):
        for f, conv in ((vio.parse_arr_d, float), (vio.parse_arr_f, lambda z: struct.unpack("f", struct.pack("f", float(z)))[0]), (vio.parse_arr_i, lambda z: int(re.match(r"[+-]?[0-9]*", z).group() or 0))):
            try:
                r = list(f((a + tail).encode(), c["n"]))
                require(c["n"] <= len(c["nums"]) and r == [conv(z) for z in c["nums"][:c["n"]]], "ParseAsciiArrayFast(%r, %d): %s", a + tail, c["n"], r)
            except vio.Exc:
                require(c["n"] > len(c["nums"]), "ParseAsciiArrayFast(%r, %d) raised", a + tail, c["n"])
    # substitution, case, trimming
    if not c["open"]:
        txt, out, inn = c["sub"]
        got = run_sub(txt, out, inn)
        require(got == txt.replace(out, inn), "Substitute(%r, %r, %r): %r", txt, out, inn, got)
    s = c["s"]
    require(bytes(vio.upper(s.encode())).decode() == s.upper(), "Uppercase(%r)", s)
    require(bytes(vio.chomp(s.encode())).decode() == s.strip(" "), "Chomp(%r): %r", s, vio.chomp(s.encode()))
    # paths
    root, dirs, name = c["path"]
    p = root + "/".join(dirs + [name])
    par = root + "/".join(dirs)
    st_, ex = os.path.splitext(name)
    g = vio.paths(p, c["ext"], c["dir"])
    pre = p if root or not c["dir"] else c["dir"].rstrip("/") + "/" + p
    e = (par if par != "" else "", st_, ex, name, pre, p[:len(p) - len(ex)] + "." + c["ext"], p + "." + c["ext"])
    require(tuple(g) == e, "path functions of %r with %r and %r: %s, expected %s", p, c["ext"], c["dir"], g, e)
    return len(c["words"]) >= 3


def run_sub(txt, out, inn):
    import vio
    return bytes(vio.substitute(txt.encode(), out.encode(), inn.encode())).decode()


dnum = st.one_of(st.integers(-50, 50).map(str), st.sampled_from(["1.5", "-2e3", "0", "0.0", "-999", "-999.00", "-999.25", ".25"]))


@st.composite
def table_case(draw):
    nc = draw(st.integers(1, 4))
    head = draw(st.lists(st.sampled_from(["", "  ", "x y", "# comment", "depth value 3", "a 1 2"]), max_size=4))
    rows = draw(st.lists(st.one_of(st.lists(dnum, min_size=nc, max_size=nc), st.lists(dnum, min_size=nc, max_size=nc), st.lists(dnum, min_size=max(1, nc - 1), max_size=nc + 2), st.just([])), max_size=7))
    return {"head": head, "rows": rows, "tail": draw(st.sampled_from(["", "", "", "end of file", "1 end"])), "nl": draw(st.booleans()), "sp": draw(st.sampled_from([" ", "\t", "  "])), "end": draw(st.sampled_from(["", "", " "])),
            "last": draw(st.booleans())}


def check_table(c):
    import vio
    lines = c["head"] + [c["sp"].join(r) + (c["end"] if r else "") for r in c["rows"]] + ([c["tail"]] if c["tail"] else [])
    txt = "\n".join(lines) + ("\n" if c["nl"] else "")
    d = tempfile.mkdtemp()
    try:
        f = d + "/t"
        with open(f, "w") as fh:
            fh.write(txt)
        full = [(k + 1, l) for k, l in enumerate(lines) if l.strip(WS)]
        data = [(k, l) for k, l in full if dbl_of(l.split()[0]) is not None]
        last = full[-1][1] if full else ""
        rl = bool(full) and all(dbl_of(w) is not None and float(w) not in (0.0, -999.0) for w in last.split())
        ok = bool(data) and all(dbl_of(w) is not None for w in data[0][1].split())
        try:
            g = vio.table_check(f)
        except Exception as e:
            require(False, "CheckFile raised %s", e)
        require(g[0] == ok, "CheckFile is %s, expected %s", g[0], ok)
        require(bytes(g[4]).decode() == last, "last line %r, expected %r", g[4], last)
        if not ok:
            require(raises(lambda: vio.table(f, None, 0, True)), "a file without a table was read")
            return False, ["no table"]
        first, nc = data[0][0], len(data[0][1].split())
        require((g[1], g[2], g[3]) == (first, nc, rl), "CheckFile: first line, columns and last line %s, expected %s", g[1:4], (first, nc, rl))
        body = [l for k, l in full if k >= first]

        def table(read_last, cols):
            use = body if read_last else body[:-1]
            vals = []
            for l in use:
                w = l.split()[:cols]
                if len(w) < cols or any(dbl_of(x) is None for x in w):
                    return None
                vals.append([float(x) for x in w])
            return [[v[k] for v in vals] for k in range(cols)]

        for args, exp in (((None, 0, True), table(rl, nc)), ((first, nc, c["last"]), table(c["last"], nc)), ((first, max(1, nc - 1), True), table(True, max(1, nc - 1)))):
            if exp is None:
                short = any(len(l.split()) < (nc if args[0] is None else args[1]) for l in (body if (rl if args[0] is None else args[2]) else body[:-1]))
                if short:
                    require(raises(lambda: vio.table(f, *args)), "a row with too few columns was read: %s", vio.table(f, *args) if not raises(lambda: vio.table(f, *args)) else "")
                continue
            got = vio.table(f, *args)
            require(got == exp, "columns %s, expected %s (%s)", got, exp, args)
    finally:
        shutil.rmtree(d)
    return len(body) >= 2 and nc >= 2, ["table%d" % nc]


def raises(f):
    import vio
    try:
        f()
    except (vio.FormatErr, vio.IOErr, vio.Exc):
        return True
    return False


@st.composite
def ser_case(draw):
    iv = st.integers(-2**31, 2**31 - 1)
    return {"i": draw(st.lists(iv, min_size=1, max_size=6)), "d": draw(st.lists(st.integers(-99999, 99999).map(lambda q: q / 8), min_size=1, max_size=5).map(lambda v: [float("%g" % x) for x in v])),
            "s": draw(st.lists(st.text("abc_1", min_size=1, max_size=4), min_size=1, max_size=4)), "v": draw(st.lists(st.lists(st.integers(0, 2**40), max_size=4), max_size=5)),
            "w": draw(st.lists(st.lists(iv, max_size=4), max_size=5)), "e": draw(st.sampled_from(["", "*", "* 1 2\n3 4\n"])), "per": draw(st.integers(1, 7))}


def check_ser(c):
    import vio
    for f, v in ((vio.ser_i, c["i"]), (vio.ser_d, c["d"]), (vio.ser_s, c["s"])):
        b, got = f(v)
        require(list(got) == v, "a vector %s comes back as %s", v, got)
    for f, v in ((vio.ser2, c["v"]), (vio.ser2_i, c["w"]), (vio.ser2_d, [c["d"], []])):
        got = f(v, c["e"], "*")
        require(got == v, "vectors %s come back as %s", v, got)
    for f, v in ((vio.wascii_i, c["i"]), (vio.wascii_d, c["d"]), (vio.wascii_s, c["s"])):
        exp = "".join(("%g" % x if isinstance(x, float) else str(x)) + " " + ("\n" if (k + 1) % c["per"] == 0 else "") for k, x in enumerate(v))
        require(bytes(f(v, c["per"])).decode() == exp, "WriteAsciiArray: %r, expected %r", f(v, c["per"]), exp)
    return len(c["i"]) >= 2 and len(c["v"]) >= 2


HEADS = [("storm_petro_binary", 0), ("storm_petro_ascii", 1), ("storm_facies_binary", 2), ("storm_facies_ascii", 3), ("NORSAR General Grid Format v1.0", 4), ("NORSAR General Grid Format v2.0", 4),
         ("NORSAR General Grid Format v3.0", -1), ("1.25", 6), ("-17", 6), ("12e", -1), ("xyz", -1), ("Storm_petro_binary", -1), ("SEGY", 5), ("SEGYlow", -1), ("SEGYfreq", -1)]


@st.composite
def grid_case(draw):
    return {"h": draw(st.integers(0, len(HEADS) - 1)), "lead": draw(st.sampled_from(["", "\n", "  "])), "n": draw(st.one_of(st.integers(0, 20), st.sampled_from([120, 140, 160, 161, 162, 200, 1000, 3190, 3199, 3200, 3201, 5000]))),
            "sep": draw(st.sampled_from([" ", "\n", ""])), "ch": draw(st.sampled_from(["7", "x", " "])), "r": draw(st.integers(0, 255))}


def check_grid(c):
    import vio
    head, exp = HEADS[c["h"]]
    if head.startswith("SEGY"):
        # text header in EBCDIC: blanks (64) dominate, no control characters
        b = bytearray([64] * 3200)
        for k in range(0, 1200):
            b[k] = 193 + (k * 7 + c["r"]) % 40
        if head == "SEGYlow":
            b[0:6] = bytes([1, 2, 3, 4, 5, 6])
        elif head == "SEGYfreq":
            b[0:1600] = bytes([200]) * 1600
            b[1600] = 201
        b += bytes(c["n"])
        if c["n"] == 0:
            exp = -1            # 3200 bytes: there is no room for data
    else:
        b = bytearray((c["lead"] + head + c["sep"] + c["ch"] * c["n"]).encode())
        if c["sep"] == "" and c["n"] and c["ch"] != " ":
            t = b.split(None)[0].decode()
            if head.startswith("NORSAR"):
                exp = -1
            elif t[0] in "-1" and dbl_of(t[:3200]) is not None:
                exp = 6
            elif exp != -1:
                exp = -1
            if len(b) > 3200:
                exp = None
        if len(b) > 3200 and exp == -1:
            exp = None          # could be taken for SEG-Y
    d = tempfile.mkdtemp()
    try:
        with open(d + "/g", "wb") as fh:
            fh.write(bytes(b))
        got = vio.grid_type(d + "/g")
        again = vio.grid_type(d + "/g")
    finally:
        shutil.rmtree(d)
    require(exp is None or got == exp, "file type %d of %r... (%d bytes), expected %s", got, bytes(b[:40]), len(b), exp)
    require(got == again, "file type %d and then %d", got, again)
    return exp is not None and exp >= 0, ["type%s" % exp]


PROP = Prop("C16", [{"shim": "vio", "mods": ["iotools"], "asan": False}], [
    Sub("stream", stream_case, check_stream, 5000, 80000, shards=3, rule="at least 3 tokens"),
    Sub("strings", str_case, check_str, 2500, 40000, shards=2, rule="at least 3 tokens"),
    Sub("tables", table_case, check_table, 1500, 20000, shards=1, rule="at least two rows and columns"),
    Sub("serialize", ser_case, check_ser, 800, 10000, shards=1, rule="at least two elements and two vectors"),
    Sub("gridtype", grid_case, check_grid, 800, 8000, shards=1, rule="a recognised format"),
], RULE, ["ASCII text in the classic locale"])
