"""C15: binary files: encodings, streams, BigFile and file functions."""
import math, os, shutil, struct, tempfile
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require

RULE = ("binary: generated sequences of up to 8 single and array writes (short, int, float, double, IBM float; both byte orders; bit patterns with "
        "extremes; raw blocks of up to 2.5 MB) and overwrites in place to a stream or a BigFile, compared byte for byte with struct and an exact IBM model, "
        "then read back in order and at random positions by the other kind of file, with the file cut short at a generated byte. ibm: exact value of "
        "generated IBM words. files: histories of open, write, append, copy, remove, make directory and size on a scratch directory tree against a "
        "dictionary. Non-trivial: at least two writes of different kinds or byte orders; for files at least one successful and one refused operation or 3 operations.")

SIZE = {"short": 2, "int": 4, "float": 4, "double": 8, "ibm": 4}


def bits(kind):
    n = SIZE[kind] * 8
    if kind == "ibm":
        return st.one_of(st.just(0), st.builds(lambda s, e, m: s << 31 | e << 23 | m, st.integers(0, 1), st.one_of(st.integers(1, 254), st.integers(110, 140), st.sampled_from([1, 254])),
                                               st.one_of(st.integers(0, (1 << 23) - 1), st.sampled_from([0, 1, (1 << 23) - 1, 1 << 22]))), st.just(1 << 31))
    return st.one_of(st.integers(0, (1 << n) - 1), st.sampled_from([0, 1, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, 0x0102030405060708 & ((1 << n) - 1), 0xff, 0x80]))


def ibm_encode(u):
    """Bits of a normal IEEE float (or zero) -> IBM word, mantissa truncated."""
    if u & 0x7fffffff == 0:
        return 0
    s, e, m = u >> 31, (u >> 23 & 255) - 127, (u & 0x7fffff) | 0x800000   # value m * 2^(e-23)
    E = e // 4 + 1                                   # 16^(E-1) <= |x| < 16^E
    sh = e - 23 - 4 * E + 24                         # m * 2^sh = fraction * 2^24
    f = m << sh if sh >= 0 else m >> -sh
    return s << 31 | (E + 64) << 24 | f


def ibm_decode(w):
    """Normalised IBM word in the range of normal IEEE floats -> bits of the float."""
    if w == 0:
        return 0
    x = (w & 0xffffff) * 2.0 ** (4 * ((w >> 24 & 127) - 64) - 24)
    return struct.unpack("<I", struct.pack("<f", -x if w >> 31 else x))[0]


def encode(kind, v, little):
    if kind == "ibm":
        v = ibm_encode(v)
    return v.to_bytes(SIZE[kind], "little" if little else "big")


def back(kind, v):
    return ibm_decode(ibm_encode(v)) if kind == "ibm" else v


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["short", "int", "float", "double", "ibm", "raw"]))
        if k == "raw":
            ops.append({"k": "raw", "n": draw(st.one_of(st.integers(0, 40), st.sampled_from([131071, 131072, 131073]), st.sampled_from([1048575, 1048576, 1048577, 2500000])))
                        if draw(st.integers(0, 3)) == 0 else draw(st.integers(0, 40)), "s": draw(st.integers(0, 255))})
            continue
        arr = draw(st.booleans())
        nv = draw(st.integers(0 if arr else 1, 9 if arr else 3))
        d = draw(st.booleans())
        ops.append({"k": k, "v": [draw(bits(k)) for _ in range(nv)], "arr": arr, "little": False if d else draw(st.booleans()), "d": d,
                    "patch": draw(st.one_of(st.none(), st.lists(bits(k), min_size=nv, max_size=nv)))})
    return {"w": draw(st.sampled_from(["stream", "big"])), "r": draw(st.sampled_from(["stream", "big"])), "ops": ops,
            "seeks": draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 2)), max_size=4)), "cut": draw(st.integers(1, 30))}


def raw(o):
    return bytes((o["s"] + i * 7 + (i >> 8)) & 255 for i in range(min(o["n"], 4096))) * (o["n"] // 4096 + 1)


def check(c):
    import vio
    d = tempfile.mkdtemp()
    try:
        f = d + "/sub/x.bin"
        pos, segs, exp = 0, [], b""
        if c["w"] == "stream":
            w = vio.OutS(f)
        else:
            w = vio.Big()
            w.openw(f, True)
        wraw = w.raw if c["w"] == "stream" else w.wraw
        for o in c["ops"]:
            if o["k"] == "raw":
                b = raw(o)[:o["n"]]
                wraw(b)
            else:
                w.write(o["k"], o["v"], o["arr"], o["little"], o["d"])
                b = b"".join(encode(o["k"], v, o["little"]) for v in o["v"])
            segs.append((len(exp), len(b)))
            exp += b
            require(w.tell() == len(exp), "position %d after writing, expected %d", w.tell(), len(exp))
        vals = []
        for o, (p, n) in zip(c["ops"], segs):
            v = o.get("v")
            if o.get("patch") is not None:
                v = o["patch"]
                w.seek(p, 0)
                w.write(o["k"], v, o["arr"], o["little"], o["d"])
                exp = exp[:p] + b"".join(encode(o["k"], x, o["little"]) for x in v) + exp[p + n:]
            vals.append(v)
        w.close()
        got = open(f, "rb").read()
        if got != exp:
            i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            require(False, "bytes from %d: %s, expected %s (sizes %d and %d)", i, got[i:i + 8].hex(), exp[i:i + 8].hex(), len(got), len(exp))

        def rd(r, o, v):
            if o["k"] == "raw":
                return r.raw(o["n"]) == raw(o)[:o["n"]]
            return list(r.read(o["k"], len(v), o["arr"], o["little"], o["d"])) == [back(o["k"], x) for x in v]

        def opener(p):
            if c["r"] == "stream":
                return vio.InS(p)
            b = vio.Big()
            b.openr(p)
            return b

        r = opener(f)
        for i, (o, v) in enumerate(zip(c["ops"], vals)):
            require(rd(r, o, v), "operation %d (%s) does not read back", i, o["k"])
            require(r.good() and not r.eof(), "not good after reading inside the file")
        require(r.tell() == len(exp), "position %d at the end of %d bytes", r.tell(), len(exp))
        for q, how in c["seeks"]:
            q %= len(segs)
            p = segs[q][0]
            r.seek(p if how == 0 else p - r.tell() if how == 1 else p - len(exp), how)
            require(r.tell() == p, "position %d after seeking to %d", r.tell(), p)
            require(rd(r, c["ops"][q], vals[q]), "operation %d does not read back after a seek", q)
        if c["r"] == "big":
            require(r.size() == len(exp) and r.name() == f, "file size %d, expected %d", r.size(), len(exp))
        r.close()
        # the file cut short: everything before the cut is readable, what crosses it is refused
        cut = c["cut"] % len(exp) if len(exp) else 0
        short = len(exp) - cut
        g = d + "/cut.bin"
        with open(g, "wb") as fh:
            fh.write(exp[:short])
        r = opener(g)
        for i, (o, v, (p, n)) in enumerate(zip(c["ops"], vals, segs)):
            if p + n <= short:
                require(rd(r, o, v), "operation %d does not read back from a file cut later", i)
                continue
            if o["k"] == "raw":
                require(r.raw(o["n"]) == exp[p:short], "raw read at the end")
            else:
                try:
                    r.read(o["k"], len(v), o["arr"], o["little"], o["d"])
                    bad = True
                except (vio.Exc, vio.EndOfFile, vio.IOErr):
                    bad = False
                require(not bad, "operation %d (%s, bytes %d-%d) was read from a file of %d bytes", i, o["k"], p, p + n, short)
            require(r.eof() and not r.good(), "no end of file after reading past the end")
            break
        r.clear()
        r.seek(0, 0)
        require(r.good() and r.tell() == 0, "not usable after clear and seek")
        if segs[0][1] and segs[0][1] <= short:
            require(rd(r, c["ops"][0], vals[0]), "the first operation does not read back after clear and seek")
        r.close()
        for p in (d + "/none", d):
            try:
                opener(p)
                bad = True
            except vio.IOErr:
                bad = False
            require(not bad, "opened %s for reading", "a directory" if p == d else "a missing file")
        b = vio.Big()
        for p, cr in ((d, True), (d + "/no/file", False)):
            try:
                b.openw(p, cr)
                bad = True
            except vio.IOErr:
                bad = False
            require(not bad, "opened %s for writing", p)
        require(not os.path.exists(d + "/no"), "a refused open created a directory")
        require(not b.good(), "a BigFile that failed to open is good")
        b.openr(f)
        require(b.raw(5) == exp[:5], "reading with a BigFile opened again")
    finally:
        shutil.rmtree(d)
    kinds = {(o["k"], o.get("little")) for o in c["ops"]}
    return len(kinds) >= 2, [o["k"] for o in c["ops"]] + [c["w"] + "-" + c["r"]]


@st.composite
def ibm_case(draw):
    w = draw(st.lists(st.builds(lambda s, e, m: s << 31 | e << 24 | m, st.integers(0, 1), st.one_of(st.integers(0x22, 0x60), st.integers(0x3e, 0x44)),
                                st.one_of(st.integers(1 << 20, (1 << 24) - 1), st.sampled_from([1 << 20, 1 << 21, 1 << 22, 1 << 23, (1 << 24) - 1]))), min_size=1, max_size=8))
    return {"w": w, "b": draw(st.lists(st.integers(0, 2**32 - 1), min_size=1, max_size=6)), "little": draw(st.booleans()), "arr": draw(st.booleans())}


def check_ibm(c):
    import vio
    d = tempfile.mkdtemp()
    try:
        f = d + "/x"
        words = c["w"] + [0]
        with open(f, "wb") as fh:
            for w in words:
                fh.write(w.to_bytes(4, "little" if c["little"] else "big"))
        got = list(vio.InS(f).read("ibm", len(words), c["arr"], c["little"], False))
        require(got == [ibm_decode(w) for w in words], "IBM words %s read as %s, expected %s", ["%08x" % w for w in words], ["%08x" % g for g in got], ["%08x" % ibm_decode(w) for w in words])
    finally:
        shutil.rmtree(d)
    for w in c["w"]:
        require(vio.buf(w.to_bytes(4, "big"))[5] == ibm_decode(w), "ParseIBMFloatBE of %08x", w)
    for u in c["b"] + c["w"]:
        b = u.to_bytes(4, "big")
        g = vio.buf(b)
        h, i = struct.unpack(">hh", b)[0], struct.unpack(">i", b)[0]
        require(list(g[:5]) == [h, i, h & 0xffff, u, u], "buffer parse of %08x: %s", u, g[:5])
        require([bytes(x) for x in g[6:]] == [b[:2], b, b[:2], b], "buffer write of %08x", u)
    return len(c["w"]) >= 2


NAMES = ["a", "b", "d/x", "d/e/y", "d/e", "a/z", "d"]


@st.composite
def file_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        ops.append({"op": draw(st.sampled_from(["write", "write", "append", "read", "copy", "copy", "remove", "mkdir", "stat", "rewrite"])), "p": draw(st.sampled_from(NAMES)), "q": draw(st.sampled_from(NAMES)),
                    "t": draw(st.text("ab\n\0", max_size=6)), "f": draw(st.booleans()), "two": draw(st.booleans())})
    return {"ops": ops}


def check_files(c):
    import vio
    d = tempfile.mkdtemp()
    files, dirs = {}, {""}
    done, refused = 0, 0
    labs = set()

    def parent(p):
        return os.path.dirname(p)

    def can_mk(p):     # could the directory p be made?
        while p not in dirs:
            if p in files:
                return False
            p = parent(p)
        return True

    def mk(p):
        while p not in dirs:
            dirs.add(p)
            p = parent(p)

    try:
        for k, o in enumerate(c["ops"]):
            p, q, P, Q = o["p"], o["q"], d + "/" + o["p"], d + "/" + o["q"]
            t = o["t"].encode()
            op = o["op"]
            try:
                r = None
                if op in ("write", "append", "rewrite"):
                    ok = p not in dirs and (parent(p) in dirs or (o["f"] and can_mk(parent(p))))
                    if op == "rewrite":
                        ok = ok and p in files
                        if not ok:
                            continue
                    vio.open_write(P, t, op == "append", o["f"], o["two"])
                elif op == "read":
                    ok = p in files
                    r = vio.open_read(P, o["two"])
                elif op == "copy":
                    if p in dirs or q in dirs:
                        continue
                    ok = p in files and (q not in files or o["f"]) and parent(q) in dirs
                    vio.copy(P, Q, o["f"])
                elif op == "remove":
                    if p in dirs:
                        continue
                    ok = True
                    vio.remove(P)
                elif op == "mkdir":
                    if parent(p) in files:   # there is something: nothing to make
                        continue
                    ok = can_mk(parent(p))
                    vio.mkdir_for(P)
                else:
                    require(vio.exists(P) == (p in files or p in dirs), "FileExists(%s) is %s", p, vio.exists(P))
                    if p in dirs:
                        continue
                    ok = p in files
                    r = vio.file_size(P)
                raised = False
            except (vio.IOErr, vio.Exc, RuntimeError) as e:
                raised = True
            require(raised == (not ok), "operation %d %s(%s, %s) %s", k, op, p, q, "was refused" if raised else "was not refused")
            labs.add(op + ("" if ok else "-refused"))
            done, refused = done + ok, refused + (not ok)
            if ok:
                if op in ("write", "append", "rewrite"):
                    mk(parent(p))
                    files[p] = (files.get(p, b"") if op == "append" else b"") + t
                elif op == "read":
                    require(r == files[p], "operation %d read %r from %s, expected %r", k, r, p, files[p])
                elif op == "copy":
                    files[q] = files[p]
                elif op == "remove":
                    files.pop(p, None)
                elif op == "mkdir":
                    mk(parent(p))
                else:
                    require(r == len(files[p]), "size %d of %s, expected %d", r, p, len(files[p]))
            have, hd = {}, {""}
            for base, ds, fs in os.walk(d):
                rel = os.path.relpath(base, d)
                rel = "" if rel == "." else rel + "/"
                for x in fs:
                    have[rel + x] = open(base + "/" + x, "rb").read()
                for x in ds:
                    hd.add(rel + x)
            require(have == files and hd == dirs, "after operation %d %s(%s, %s): files %s and directories %s, expected %s and %s", k, op, p, q, have, sorted(hd), files, sorted(dirs))
    finally:
        shutil.rmtree(d)
    return (done and refused) or done >= 3, sorted(labs)


PROP = Prop("C15", [{"shim": "vio", "mods": ["iotools"], "asan": False}], [
    Sub("binary", case, check, 3000, 40000, shards=3, rule="at least two kinds or byte orders"),
    Sub("ibm", ibm_case, check_ibm, 1500, 20000, shards=1, rule="at least two words"),
    Sub("files", file_case, check_files, 2000, 30000, shards=2, rule="a successful and a refused operation, or 3 successful ones"),
], RULE, ["finite values of normal size for IBM floats (normalised IBM words)", "regular files on a local file system"])
