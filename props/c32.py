"""C32: no file crashes a reader. Files made by altering a corpus are given to every reader, in a process with AddressSanitizer."""
import atexit, json, os, re, select, shutil, struct, subprocess, tempfile, time, zipfile
from hypothesis import strategies as st
from vlib import build
from vlib.fw import Prop, Sub, Violation, require

RULE = ("A case is one file (or two, where a reader opens a companion) for one of 33 readers: a corpus file (valid files and the edge-covering files of libFuzzer campaigns) "
        "altered by up to six byte, number, line and block edits, cuts and splices. corpus: every corpus file as it is. Non-trivial: the reader took the file, or raised "
        "after accepting at least one of the file's own fields (any message other than an unknown type or an unopenable file).")
FAMILIES = {
    "surface": ["surface_auto", "surface_storm", "surface_irap", "surface_sgri", "surface_rotated", "surface_multi_sgri"],
    "grid": ["storm_cont", "storm_facies", "eclipse", "grid_type"],
    "segy": ["segy_all", "segy_geometry", "segy_traces", "segy_detect"],
    "well": ["well_rms", "well_las", "well_norsar"],
    "text": ["points", "tabular", "text", "seed", "trend1d", "trend2d", "trend3d", "trend3d_binary"],
    "wavelet": ["wavelet_auto", "wavelet_jason", "wavelet_syntool", "wavelet_strata", "wavelet_landmark"],
    "xml": ["xml_string", "xml_file", "xml_stream"],
}
CPU_S = 15
ANSWER_S = 80
_corpus = {}


def corpus(kind):
    if kind not in _corpus:
        with zipfile.ZipFile(os.path.join(build.VERIF, "fuzz", "corpus.zip")) as z:
            _corpus[kind] = [z.read(n) for n in sorted(z.namelist()) if n.startswith(kind + "/")]
        # files that readers failed on once
        with open(os.path.join(build.VERIF, "fuzz", "regress.json")) as f:
            _corpus[kind] += [d.encode("latin-1") for k, d in json.load(f) if k == kind]
    return _corpus[kind]


class Child:
    """The reading process. It is started anew now and then, since a reader that raises may leave memory behind."""
    def __init__(self):
        self.p = None

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="rd-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.err = open(self.dir + "/stderr", "w+b")
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        env.pop("ASAN_OPTIONS", None)
        self.p = subprocess.Popen([build.BUILD + "/fuzz/readers", self.dir, str(CPU_S)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.buf = b""
        self.n = 0
        self.kinds = self.line(60).split()[1:]

    def line(self, tmo):
        t0 = time.time()
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = tmo - (time.time() - t0)
            r = select.select([fd], [], [], max(left, 0))[0]
            if not r:
                return None
            b = os.read(fd, 65536)
            if not b:
                return None
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def stop(self):
        if self.p is None:
            return ""
        self.p.kill()
        self.p.wait()
        self.err.seek(0)
        e = self.err.read()[-20000:].decode("latin-1")
        self.err.close()
        self.p.stdin.close() if not self.p.stdin.closed else None
        self.p.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        self.p = None
        return e

    def ask(self, kind, data):
        if self.p is not None and self.n >= 400:
            self.stop()
        if self.p is None:
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(struct.pack("<II", self.kinds.index(kind), len(data)) + data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        l = self.line(ANSWER_S)
        if l is None:
            hung = self.p.poll() is None
            rc = None if hung else self.p.wait()
            hung = hung or rc in (-14, -27)
            e = self.stop()
            if hung:
                raise Violation("reading this %s file does not end" % kind)
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*(\n[^\n]*)?)", e)
            f = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", e)[:6]
            raise Violation("reading this %s file ends the process (status %s): %s %s" % (kind, rc, m.group(1) if m else e[-300:], " < ".join(x[:90] for x in f)))
        ms, _, l = l.partition(" ")
        return l, int(ms)


CHILD = Child()
atexit.register(CHILD.stop)

NUM = re.compile(rb"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")
BAD = [b"0", b"-1", b"1", b"2", b"-0", b"-2147483648", b"2147483647", b"4294967295", b"4294967296", b"99999999", b"1e308", b"-1e308", b"1e-320", b"nan", b"inf", b"",
       b"x", b"1.5", b"-999", b"9999900", b"1000000", b"100000", b"65536", b"3", b"7", b"18446744073709551615", b"1e30", b"0.0", b"3*", b"3*1", b"*", b"'", b"\"", b"/"]
INTS = [0, 1, -1, 2, -2, 3, 7, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648, 1000000, 100000, 1 << 24]
TOK = [b"SPECGRID\n", b"COORD\n", b"ZCORN\n", b"ACTNUM\n", b"/\n", b"DATES\n", b"CARFIN\n", b"ENDFIN\n", b"FAULTS\n", b"MAPAXES\n", b"GRIDUNIT\n", b"INCLUDE\n", b"--\n", b"\n",
       b"\r\n", b"~A\n", b"~C\n", b"~P\n", b"~V\n", b"~W\n", b" NULL. -999 :\n", b"DISC 1 a 2 b\n", b"x", b"<a>", b"</a>", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"&#x41;", b"&#", b"&", b"<?xml",
       b"?>", b"='", b"=\"", b"<", b">", b"\xef\xbb\xbf", b"\x00", b"\xff", b" ", b"\t", b"storm_petro_binary", b"storm_petro_ascii", b"NORSAR Well Header", b"Pulse file", b"2 4 1 4.0", b"\x1e\x1e", b"9" * 40, b"a" * 300]
POS = st.one_of(st.integers(0, 9000), st.integers(0, 400), st.integers(3200, 3260), st.integers(3600, 3840), st.integers(0, 30).map(lambda k: -k))
op = st.one_of(
    st.tuples(st.just("num"), st.integers(0, 120), st.sampled_from(BAD)),
    st.tuples(st.just("num"), st.integers(0, 20), st.sampled_from(BAD)),
    st.tuples(st.just("num"), st.integers(0, 120), st.integers(-40, 400).map(lambda v: b"%d" % v)),
    st.tuples(st.just("int"), POS, st.sampled_from(["<i", ">i", "<h", ">h", "b"]), st.sampled_from(INTS)),
    st.tuples(st.just("flt"), POS, st.sampled_from(["<f", ">f", "<d", ">d"]), st.sampled_from([0.0, -1.0, 1e30, float("nan"), float("inf"), 1e-30, -999.0, 1e6])),
    st.tuples(st.just("byte"), POS, st.integers(0, 255)),
    st.tuples(st.just("ins"), POS, st.sampled_from(TOK)),
    st.tuples(st.just("del"), POS, st.integers(1, 600)),
    st.tuples(st.just("dup"), POS, st.integers(1, 300)),
    st.tuples(st.just("cut"), POS),
    st.tuples(st.just("linedel"), st.integers(0, 60), st.integers(1, 3)),
    st.tuples(st.just("linedup"), st.integers(0, 60), st.integers(1, 4)),
    st.tuples(st.just("lineswap"), st.integers(0, 60), st.integers(0, 60)),
    st.tuples(st.just("tok"), st.integers(0, 60), st.integers(0, 12), st.sampled_from(["cut", "del", "dup", "swap"])),
    st.tuples(st.just("tok"), st.integers(0, 60), st.integers(0, 12), st.sampled_from(["cut", "del", "dup", "swap"])),
    st.tuples(st.just("splice"), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)))


def alter(b, o, kind):
    k = o[0]
    if k == "num":
        m = list(NUM.finditer(b[:6000]))
        if not m:
            return b
        m = m[o[1] % len(m)]
        return b[:m.start()] + o[2] + b[m.end():]
    if k in ("linedel", "linedup", "lineswap"):
        l = b.split(b"\n")
        i = o[1] % len(l)
        if k == "linedel":
            del l[i:i + o[2]]
        elif k == "linedup":
            l[i:i] = [l[i]] * o[2]
        else:
            j = o[2] % len(l)
            l[i], l[j] = l[j], l[i]
        return b"\n".join(l)[:20000]
    if k == "tok":
        # one line of two tokens or more: cut after a token, or lose, repeat or exchange one
        l = b.split(b"\n")
        w = [i for i, x in enumerate(l) if len(x) < 400 and len(x.split()) > 1]
        if not w:
            return b
        i = w[o[1] % len(w)]
        t = l[i].split()
        j = o[2] % len(t)
        if o[3] == "cut":
            t = t[:j]
        elif o[3] == "del":
            del t[j]
        elif o[3] == "dup":
            t[j:j] = [t[j]]
        else:
            t[j - 1], t[j] = t[j], t[j - 1]
        l[i] = b" ".join(t)
        return b"\n".join(l)
    if k == "splice":
        c = corpus(kind)
        d = c[o[1] % len(c)]
        i = o[2] % (len(b) + 1)
        j = o[2] % (len(d) + 1)
        return (b[:i] + d[j:])[:20000]
    p = o[1] % (len(b) + 1)
    if k == "byte":
        return b[:p] + bytes([o[2]]) + b[p + 1:]
    if k == "int":
        v = o[3]
        s = {"i": 4, "h": 2, "b": 1}[o[2][-1]]
        v = (v & (256 ** s - 1)).to_bytes(s, "big" if o[2][0] == ">" else "little")
        return b[:p] + v + b[p + s:]
    if k == "flt":
        v = struct.pack(o[2], o[3])
        return b[:p] + v + b[p + len(v):]
    if k == "ins":
        return b[:p] + o[2] + b[p:]
    if k == "del":
        return b[:p] + b[p + o[2]:]
    if k == "dup":
        return (b[:p] + b[p:p + o[2]] * 2 + b[p + o[2]:])[:20000]
    return b[:p]


def make(kind, i, ops):
    c = corpus(kind)
    b = c[i % len(c)]
    for o in ops:
        b = alter(b, o, kind)
    return {"kind": kind, "data": b.decode("latin-1")}


def files(fam):
    def f():
        return st.builds(make, st.sampled_from(FAMILIES[fam]), st.integers(0, 10 ** 6), st.lists(op, min_size=1, max_size=6))
    return f


def check(c):
    r, ms = CHILD.ask(c["kind"], c["data"].encode("latin-1"))
    ok = r == "read"
    return ok or not re.search("nknown|open|recogni", r), [c["kind"] + (" read" if ok else " raised")] + ["over %d s" % (ms // 1000)] * (ms > 999)


def whole():
    n = {k: len(corpus(k)) for f in FAMILIES.values() for k in f}
    return st.sampled_from([[k, i] for k in sorted(n) for i in range(0, n[k], 25)])


def check_corpus(c):
    kind, i = c
    for j, d in enumerate(corpus(kind)[i:i + 25]):
        try:
            CHILD.ask(kind, d)
        except Violation as e:
            raise Violation("%s/%d of the corpus: %s" % (kind, i + j, e))
    return True, [kind]


MODS = ["eclipsegrid", "geometry", "iotools", "pointset", "random", "segy", "stormgrid", "surface", "trend", "volume", "wavelet", "well", "tinyxml", "math"]
PROP = Prop("C32", [{"exe": "readers", "mods": MODS}],
            [Sub(f, files(f), check, 4000 * len(FAMILIES[f]), 45000 * len(FAMILIES[f]), shards={"quick": 4, "thorough": 8}, rule="") for f in FAMILIES]
            + [Sub("corpus", whole, check_corpus, 5000, 5000)],
            RULE, ["allocations above 64 MB fail with std::bad_alloc, as on a machine without that memory", "no file is longer than 20 kB"])
