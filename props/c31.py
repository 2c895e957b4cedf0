"""C31: XML documents (tinyxml)."""
import os, re, shutil, tempfile
import xml.parsers.expat as expat
from hypothesis import strategies as st
from vlib import gen
from vlib.fw import Prop, Sub, require

RULE = ("build: documents built node by node, written in seven ways and read back by the library and by expat. text: XML texts laid out by the check, "
        "with the tree and the row and column of every node known. edits: histories of changes of a document against a model. malformed: cut and altered texts. "
        "query: attribute values. Non-trivial: at least three nodes or two changes.")
DOC, EL, COM, UNK, TXT, DECL = range(6)
WS = " \t\n\r"

name = st.one_of(st.sampled_from(["a", "b", "ab", "_x", "a-b.c", "n:s", "x1"]), st.builds(lambda a, b: a + b, st.sampled_from("aZ_é"), st.text("ab1_-.:ß", max_size=5)))
chars = st.sampled_from(list("abc  <>&\"'x;#1]") + ["é", "ß", "中", "𝄞", "\t", "\n", "\x01", "&amp;", "&lt;", "&#x41;", "&#65;", "&#x", "&#x;", "&#xZ;", "&#x4", "]]>", "&", "--"])
txt = st.lists(chars, max_size=8).map(lambda x: re.sub("&#x([0-9a-fA-F]{5,});", r"&#x\1", "".join(x)))
plain = st.text("abc <>&'\"\n\té中-]", max_size=8)
com = plain.map(lambda s: re.sub("-+", "-", s).rstrip("-"))
cdat = plain.map(lambda s: re.sub("\\]\\]>+", "]]", s))
unk = st.sampled_from(["!DOCTYPE doc", "!ELEMENT a (b)", "?pi some data?", "?php echo?", "!x", "?", "%x"])
attrs = st.lists(st.tuples(name, txt).map(list), max_size=4)


def U(b):
    return b.decode("utf-8", "surrogateescape")


def uniq(a):
    out = []
    for n, v in a:
        for p in out:
            if p[0] == n:
                p[1] = v
                break
        else:
            out.append([n, v])
    return out


def leaf():
    return st.one_of(st.builds(lambda v: [TXT, v, [], [], False], txt), st.builds(lambda v: [TXT, v, [], [], True], cdat),
                     st.builds(lambda v: [COM, v, [], [], None], com), st.builds(lambda v: [UNK, v, [], [], None], unk),
                     st.builds(lambda n, a: [EL, n, a, [], None], name, attrs))


def tree(leaves=10):
    return st.recursive(leaf(), lambda kids: st.builds(lambda n, a, k: [EL, n, a, k, None], name, attrs, st.lists(kids, max_size=5)), max_leaves=leaves)


def element(leaves=10):
    return tree(leaves).map(lambda t: t if t[0] == EL else [EL, "root", [], [t], None])


decl = st.builds(lambda v, e, s: [DECL, "", [], [], [v, e, s]], st.sampled_from(["1.0", ""]), st.sampled_from(["", "UTF-8", "utf-8", "UTF8"]), st.sampled_from(["", "yes", "no"]))


def undump(d, pos=False):
    """The library's tree, with text decoded and, unless wanted, without positions."""
    t, v, a, k, row, col, x = d
    if t == DECL:
        x = [U(i) for i in x]
        v = b""
    r = [t, U(v), [[U(i[0]), U(i[1])] + ([i[2], i[3]] if pos else []) for i in a], [undump(i, pos) for i in k], x]
    return r + [row, col] if pos else r


REF = re.compile("&#x([0-9a-fA-F]+);")


def read_back(s):
    """What is read of a value that was written: complete hexadecimal references are written as they are."""
    return REF.sub(lambda m: chr(int(m.group(1), 16)), s)


def normal(t, keep):
    """The tree that is read back after t was written."""
    typ, v, a, kids, x = t
    if typ == DECL:
        return t
    if typ == EL:
        a = [[n, read_back(w)] for n, w in uniq(a)]
    out = []
    for k in kids:
        k = normal(k, keep)
        if k[0] == TXT and not k[4]:
            s = k[1]
            if not keep:  # only blanks are written as they are; they are joined and cut at the ends
                s = re.sub(" +", " ", s).strip(" ")
            s = read_back(s)
            if not s.strip(WS + "\v\f"):
                continue
            k = [TXT, s, [], [], False]
        out.append(k)
    return [typ, v, a, out, x]


def no_adjacent(t):
    """texts that follow each other would be joined"""
    kids, prev = [], False
    for k in t[3]:
        is_text = k[0] == TXT and not k[4]
        if is_text and prev:
            continue
        prev = is_text
        kids.append(no_adjacent(k))
    return t[:3] + [kids] + t[4:]


def count(t):
    return 1 + sum(count(k) for k in t[3])


def nodes(t):
    yield t
    for k in t[3]:
        yield from nodes(k)


def has(t, f):
    return any(f(n) for n in nodes(t))


class Expat:
    def parse(self, data):
        p = expat.ParserCreate("UTF-8" if b"encoding=\"UTF8\"" in data else None)
        p.ordered_attributes = True
        p.buffer_text = True
        root = [DOC, "", [], [], None]
        st_, cd = [root], [False]
        def start(n, a):
            e = [EL, n, [[a[i], a[i + 1]] for i in range(0, len(a), 2)], [], None]
            st_[-1][3].append(e)
            st_.append(e)
        def add(t, v, x=None):
            st_[-1][3].append([t, v, [], [], x])
        def text(s):
            if cd[0]:
                cd.append(s)
            elif s.strip(WS + "\v\f"):
                add(TXT, s, False)
        def cend():
            add(TXT, "".join(cd[1:]), True)
            cd[:] = [False]
        def cstart():
            cd[0] = True
        p.StartElementHandler = start
        p.EndElementHandler = lambda n: st_.pop()
        p.CharacterDataHandler = text
        p.StartCdataSectionHandler, p.EndCdataSectionHandler = cstart, cend
        p.CommentHandler = lambda s: add(COM, s)
        p.ProcessingInstructionHandler = lambda t, d: add(UNK, "?" + t + " " + d + "?")
        p.Parse(data, True)
        return root


def collapse(t, trim):
    """white space as the library has it: joined and cut at the ends (trim), or as it is"""
    out = []
    for k in t[3]:
        if k[0] == TXT and not k[4]:
            v = k[1]
            if trim:
                v = v.strip(" ")
            k = [TXT, v, [], [], False]
        else:
            k = collapse(k, trim)
        out.append(k)
    return t[:3] + [out] + t[4:]


@st.composite
def build_case(draw):
    top = []
    if draw(st.booleans()):
        top.append(draw(decl))
    for k in draw(st.lists(st.builds(lambda v: [COM, v, [], [], None], com), max_size=2)):
        top.append(k)
    if draw(st.integers(0, 3)) == 0:
        top.append([UNK, draw(unk), [], [], None])
    top.append(draw(element(14)))
    top += draw(st.lists(st.builds(lambda v: [COM, v, [], [], None], com), max_size=1))
    return {"top": top, "str": draw(st.booleans()), "link": draw(st.booleans()), "enc": draw(st.integers(0, 2)), "keep": draw(st.integers(0, 3)) == 0, "how": draw(st.integers(0, 3)), "path": draw(st.lists(st.integers(0, 4), max_size=3)),
            "indent": draw(st.sampled_from([None, "", "\t", "  "])), "lb": draw(st.sampled_from([None, "", "\n", "\r\n"])), "bom": draw(st.integers(0, 4)) == 0}


def made(vxml, top, link=True, string=True):
    d = vxml.Doc()
    for i, t in enumerate(top):
        require(d.end([], t, link, string) == i, "child %d is elsewhere", i)
    return d


def check_build(c):
    import vxml
    root = no_adjacent([DOC, "", [], c["top"], None])
    top = root[3]
    full = normal(root, True)
    d = made(vxml, top, c["link"], c["str"])
    # what was built is there
    def asis(t):
        return t[:2] + [uniq(t[2]), [asis(k) for k in t[3]], t[4]]
    require(undump(d.dump()) == asis(root), "built %s, expected %s", undump(d.dump()), root)
    want = normal(root, False)
    tmp = tempfile.mkdtemp()
    try:
        f = tmp + "/doc.xml"
        require(d.save(f, c["how"]), "not saved")
        saved = open(f, "rb").read()
        stream = d.out([], c["str"])
        forms = {"file": saved, "printer": d.printer([], None, None, False), "layout": d.printer([], c["indent"], c["lb"], False), "stream": d.printer([], None, None, True)}
        require(stream == forms["stream"], "<< wrote %s, the printer %s", stream, forms["stream"])
        require(forms["printer"] == d.printer([], "    ", "\n", False), "the default layout is another")
        # a subtree is written as itself
        p, n = [], root
        for i in c["path"]:
            if n[3]:
                p.append(i % len(n[3]))
                n = n[3][p[-1]]
        if n[0] == EL:
            e = vxml.Doc()
            e.parse(d.out(p, c["str"]), 1)
            require(undump(e.dump())[3] == [normal(n, False)], "%s written alone is read as %s", n, undump(e.dump()))
        for k, s in forms.items():
            e = vxml.Doc()
            enc = 1 if has(root, lambda n: "&#x" in n[1] or any("&#x" in v for _, v in n[2])) else c["enc"]
            if c["bom"] and enc < 2:
                s = b"\xef\xbb\xbf" + s
            e.parse(s, enc)
            require(not e.error()[0], "%s: %s in %s", k, e.error(), U(s))
            got = undump(e.dump())
            require(got == want, "%s: read %s from %s, expected %s", k, got, U(s), want)
        e = vxml.Doc()
        require(e.load(f, enc, c["how"]) and not e.error()[0], "not loaded: %s", e.error())
        require(c["how"] == 3 or e.name() == f, "named %s", e.name())
        require(undump(e.dump()) == want, "loaded %s, expected %s", undump(e.dump()), want)
        if c["keep"]:
            require(not vxml.condense(False), "white space is condensed")
            try:
                e = vxml.Doc()
                e.parse(stream, 1)
                require(undump(e.dump()) == full, "with all white space: %s from %s, expected %s", undump(e.dump()), U(stream), full)
            finally:
                require(vxml.condense(True), "white space is not condensed")
        # an independent parser
        ctl = lambda v: bool(re.search("[\x00-\x08\x0b\x0c\x0e-\x1f]", read_back(v)))
        bad = has(root, lambda n: ctl(n[1]) or any(ctl(v) for _, v in n[2]) or n[0] == UNK and not n[1].startswith("?pi") or n[0] == DECL and n[4][0] == ""
                  or n[1].count(":") > 1 or any(x.count(":") > 1 for x, _ in n[2]) or ":" in (n[1][-1:] if n[0] == EL else ""))
        if not bad:
            for k, s in forms.items():
                try:
                    t = Expat().parse(s)
                except expat.ExpatError as ex:
                    require(False, "%s is not well-formed: %s: %s", k, ex, U(s))
                w = [x for x in want[3] if x[0] != DECL]
                t = collapse(t, True)[3]
                # blanks around texts may come from the layout, blanks in them are as they were
                def sq(t):
                    return [t[0], t[1] if t[0] != TXT or t[4] else re.sub("[ \t\r\n]+", " ", t[1]).strip(" "), t[2], [sq(k) for k in t[3]], t[4]]
                require([sq(x) for x in t] == [sq(x) for x in w], "%s: expat reads %s from %s, expected %s", k, t, U(s), w)
    finally:
        shutil.rmtree(tmp)
    return count(root) > 3, ["expat" if not bad else "odd", "keep" if c["keep"] else "condensed", "bom" if c["bom"] else "plain"]


# ---- texts laid out by the check

ws0 = st.text(WS, max_size=4)
ws1 = st.text(WS, min_size=1, max_size=3)
refs = {"&amp;": "&", "&lt;": "<", "&gt;": ">", "&quot;": '"', "&apos;": "'", "&#65;": "A", "&#x42;": "B", "&#x7a;": "z", "&#10;": "\n", "&#x20;": " "}
ref8 = dict(refs, **{"&#xe9;": "é", "&#x4e2D;": "中", "&#119070;": "𝄞", "&#x1D11E;": "𝄞"})


point = st.one_of(st.integers(32, 126), st.integers(0xa0, 0x7ff), st.integers(0x800, 0xd7ff), st.integers(0xe000, 0x10ffff), st.sampled_from([0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0x3fff, 0xd7ff, 0xe000, 0xffef, 0xfec1, 0xf03f, 0xffbe, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]))
point_refs = st.tuples(point, st.sampled_from(["&#%d;", "&#x%x;", "&#x%X;", "&#x0%x;"])).map(lambda t: t[1] % t[0])
piece_lists = {(u, k): st.lists(st.one_of(st.sampled_from(list("abc ]>-=\t\n") + ["\r\n", "é", "中", "\ufeff", "\uffff"]), st.sampled_from(sorted(ref8 if u else refs)), st.one_of(point, st.integers(33, 126)).map(chr).filter(lambda x: x not in "<&"), point_refs), max_size=k)
               for u in (True, False) for k in (5, 7)}


class Lay:
    """Collects a text and the offsets of what it holds."""
    def __init__(self, draw, utf8):
        self.draw, self.utf8, self.s = draw, utf8, b""
        self.cuts = []

    def w(self, s):
        self.s += s.encode()

    def pieces(self, no, k):
        """text without the characters of `no`, as written and as meant"""
        r = ref8 if self.utf8 else refs
        src, val = [], []
        for x in self.draw(piece_lists[self.utf8, k]):
            if x[0] == "&" and x not in r:
                h = x[2] == "x"
                n = int(x[2 + h:-1], 16 if h else 10)
                if not self.utf8:
                    n %= 128  # other characters have no bytes that are known
                    n += 0 if n >= 32 else 64
                    x = "&#%s%x;" % ("x", n) if h else "&#%d;" % n
                src.append(x)
                val.append(chr(n))
                continue
            if x in r:
                src.append(x)
                val.append(r[x])
            elif not any(ch in no for ch in x):
                src.append(x)
                val.append(x)
        return src, val

    def attr(self):
        n = self.draw(name)
        at = len(self.s)
        q = self.draw(st.sampled_from(["\"", "'", ""]))
        self.w(n + self.draw(ws0) + "=" + self.draw(ws0))
        if q:
            src, val = self.pieces(q, 5)
            self.w(q + "".join(src) + q)
            v = "".join(val)
        else:
            v = self.draw(st.text("ab1.=<&é", min_size=1, max_size=4))
            self.w(v)
        return [n, v, at], q

    def open(self):
        at = len(self.s)
        n = self.draw(name)
        self.w("<" + n)
        a, q = [], "x"
        for _ in range(self.draw(st.integers(0, 3))):
            self.w(self.draw(ws1))
            x, q = self.attr()
            if any(y[0] == x[0] for y in a):
                # the same name twice is an error: use another name
                return None
            a.append(x)
        return at, n, a, q

    def element(self, depth):
        r = self.open()
        if r is None:
            return None
        at, n, a, q = r
        kids = []
        if self.draw(st.integers(0, 2)) == 0:
            # an unquoted value ends at '/'
            self.w(self.draw(ws0) + "/>")
        else:
            self.w(self.draw(ws0) + ">")
            text = False
            for _ in range(self.draw(st.integers(0, 4 if depth < 3 else 1))):
                k = self.draw(st.integers(0, 5))
                if k <= 1 and not text:
                    x = self.text()
                    text = True
                elif k == 2:
                    x, text = self.misc(), False
                elif k == 3:
                    x, text = self.cdata(), False
                elif k > 3:
                    x, text = self.element(depth + 1), False
                    if x is None:
                        return None
                else:
                    x = None
                if x:
                    kids.append(x)
            # a blank text that is not cut off would not be taken as a node
            self.w("</" + n + self.draw(st.one_of(st.just(""), st.just(""), ws0)) + ">")
        return [EL, n, a, kids, None, at]

    def text(self):
        src, val = self.pieces("<", 7)
        s = "".join(src)
        # leading white space (and zero-width marks, when read as UTF-8) is skipped
        lead = WS + ("\ufeff\ufffe\uffff" if self.utf8 else "")
        i = 0
        while i < len(src) and src[i][0] != "&" and all(ch in lead for ch in src[i]):
            i += 1
        at = len(self.s) + len("".join(src[:i]).encode())
        self.w(s)
        out, gap = "", False
        for x, y in zip(src[i:], val[i:]):
            if x[0] == "&":
                out += (" " if gap else "") + y
                gap = False
            elif all(ch in WS for ch in x):
                gap = True
            else:
                out += (" " if gap else "") + y
                gap = False
        self.lasttext = None
        if not out.strip(WS + "\v\f"):
            return None
        return [TXT, out, [], [], False, at]

    def misc(self):
        self.w(self.draw(ws0))
        at = len(self.s)
        k = self.draw(st.integers(0, 2))
        if k < 2:
            v = self.draw(com)
            self.w("<!--" + v + "-->")
            return [COM, v, [], [], None, at]
        v = self.draw(unk)
        self.w("<" + v + ">")
        return [UNK, v, [], [], None, at]

    def cdata(self):
        self.w(self.draw(ws0))
        at = len(self.s)
        v = self.draw(cdat)
        self.w("<![CDATA[" + v + "]]>")
        return [TXT, v, [], [], True, at]

    def decl(self):
        at = len(self.s)
        v = [self.draw(st.sampled_from(["", "1.0", "1.1"])), self.draw(st.sampled_from(["", "UTF-8", "utf8"])), self.draw(st.sampled_from(["", "yes"]))]
        self.w(self.draw(st.sampled_from(["<?xml", "<?XML"])))
        parts = [(n, x) for n, x in zip(["version", "encoding", "standalone"], v) if x]
        for n, x in self.draw(st.permutations(parts)):
            q = self.draw(st.sampled_from("\"'"))
            self.w(self.draw(ws1) + n + self.draw(ws0) + "=" + self.draw(ws0) + q + x + q)
        self.w(self.draw(ws0) + "?>")
        return [DECL, "", [], [], v, at]


@st.composite
def text_case(draw):
    mode = draw(st.sampled_from(["utf8", "legacy", "declared", "bom", "unknown"]))
    L = Lay(draw, mode in ("utf8", "declared", "bom"))
    top, ends = [], []
    if mode == "bom":
        L.s += b"\xef\xbb\xbf"
    L.w(draw(ws0) if mode != "declared" else "")
    if mode == "declared" or mode != "unknown" and draw(st.booleans()):
        top.append(L.decl())
        ends.append(len(L.s))
    for _ in range(draw(st.integers(0, 2))):
        top.append(L.misc())
        ends.append(len(L.s))
    L.w(draw(ws0))
    x = L.element(0)
    if x is None:
        return None
    top.append(x)
    ends.append(len(L.s))
    root_end = len(L.s)
    for _ in range(draw(st.integers(0, 2))):
        top.append(L.misc())
        ends.append(len(L.s))
    L.w(draw(ws0))
    return {"s": L.s.decode("latin-1"), "top": top, "mode": mode, "tab": draw(st.sampled_from([4, 4, 1, 2, 8, 0])), "ends": ends, "root": root_end,
            "file": draw(st.booleans()), "copied": draw(st.integers(0, 3)), "cut": draw(st.integers(0, 10 ** 6)), "mut": draw(st.lists(st.tuples(st.sampled_from("dir"), st.integers(0, 10 ** 6), st.integers(0, 255)).map(list), max_size=4))}


def width(b, i, utf8):
    """bytes and columns of the character at i"""
    if not utf8:
        return 1, 1
    if b[i:i + 3] in (b"\xef\xbb\xbf", b"\xef\xbf\xbe", b"\xef\xbf\xbf"):
        return 3, 0
    c = b[i]
    return (1 if c < 0xc2 else 2 if c < 0xe0 else 3 if c < 0xf0 else 4), 1


def position(b, at, tab, utf8):
    row = col = i = 0
    while i < at:
        if b[i:i + 2] in (b"\r\n", b"\n\r"):
            row, col, i = row + 1, 0, i + 2
        elif b[i:i + 1] in b"\r\n":
            row, col, i = row + 1, 0, i + 1
        elif b[i] == 9:
            col, i = (col // tab + 1) * tab, i + 1
        else:
            n, w = width(b, i, utf8)
            i, col = i + n, col + w
    return [row + 1, col + 1]


def located(t, b, tab, utf8):
    pos = lambda at: position(b, at, tab, utf8) if tab else [1, 1]
    return [t[0], t[1], [[n, v] + pos(at) for n, v, at in t[2]], [located(k, b, tab, utf8) for k in t[3]], t[4]] + pos(t[5])


ENC = {"utf8": 1, "legacy": 2, "declared": 0, "bom": 0, "unknown": 0}


def check_text(c):
    import vxml
    if c is None:
        return False, ["skipped"]
    b = c["s"].encode("latin-1")
    utf8 = c["mode"] in ("utf8", "declared", "bom")
    d = vxml.Doc()
    require(d.tab(c["tab"]) == c["tab"], "tab size %s", c["tab"])
    if c["copied"] < 2:
        d.copy(c["copied"])
    end = d.parse(b, ENC[c["mode"]])
    require(not d.error()[0], "%s in %s", d.error(), U(b))
    require(end is None or end == len(b), "ended at %s of %s", end, len(b))
    got, want = undump(d.dump(), True)[3], [located(t, b, c["tab"], utf8) for t in c["top"]]
    require(got == want, "read %s from %s, expected %s", got, repr(U(b)), want)
    # into a document that holds something else: added at the end
    strip = lambda t: t[:5] if not t[3] and not t[2] else [t[0], t[1], [a[:2] for a in t[2]], [strip(k) for k in t[3]], t[4]]
    bare = [strip(t) for t in want]
    if c["file"]:
        tmp = tempfile.mkdtemp()
        try:
            open(tmp + "/f", "wb").write(b)
            e = vxml.Doc()
            require(e.load(tmp + "/f", ENC[c["mode"]], 0), "not loaded: %s", e.error())
            # line ends are made \n
            nl = lambda t: [t[0], t[1].replace("\r\n", "\n").replace("\r", "\n"), [[n, v.replace("\r\n", "\n").replace("\r", "\n")] for n, v in t[2]], [nl(k) for k in t[3]], t[4]]
            require([strip(nl(t)) for t in undump(e.dump())[3]] == [nl(t) for t in bare], "loaded %s, expected %s", undump(e.dump()), bare)
            # a saved document with a byte order mark keeps it, also when it is copied
            if c["mode"] == "bom":
                e.copy(0)
                e.save(tmp + "/g", 0)
                require(open(tmp + "/g", "rb").read()[:3] == b"\xef\xbb\xbf", "the byte order mark is lost")
        finally:
            shutil.rmtree(tmp)
    # as a stream: to the end of the root element; markup must not hold '>' in values
    odd = has([0, 0, [], c["top"], 0], lambda t: any(">" in a[1] for a in t[2]) or t[0] in (COM, UNK) and ">" in t[1])
    if not odd and c["mode"] != "bom" and b"\0" not in b:
        e = vxml.Doc()
        rest = e.stream_in(b)
        k = max(i for i, t in enumerate(bare) if t[0] == EL)
        if c["mode"] in ("declared", "unknown"):
            require(undump(e.dump())[3] == bare[:k + 1], "streamed %s from %s, expected %s", undump(e.dump())[3], repr(U(b)), bare[:k + 1])
        require(rest == b[c["root"]:], "%s is left in the stream, expected %s", rest, b[c["root"]:])
    return sum(count(t) for t in c["top"]) >= 3, [c["mode"], "tab%d" % c["tab"]]


# ---- cut and altered texts

def check_malformed(c):
    import vxml
    if c is None:
        return False, ["skipped"]
    b = c["s"].encode("latin-1")
    cut = c["cut"] % (len(b) + 1)
    s = b[:cut]
    utf8 = c["mode"] in ("utf8", "declared", "bom")
    d = vxml.Doc()
    d.parse(s, ENC[c["mode"]])
    err = d.error()
    # complete when it ends between two constructs of the top level
    full = [e for e in c["ends"] if e <= cut]
    whole = bool(full) and s[max(full):].strip(WS.encode()) == b""
    require(err[0] == (not whole), "%s after %s of %s", "no error" if whole is False else err, repr(U(s)), repr(U(b)))
    if err[0]:
        require(0 < err[1] <= 15 and err[2] != "" and err[3] >= 0 and err[4] >= 0, "error %s", err)
    d.dump()
    # the same from a stream: ended or broken by a null character before the end of the root element
    if cut < c["root"] and not whole:
        for end in (b"", b"\0" + b[cut:]):
            e = vxml.Doc()
            e.stream_in(s + end)
            require(e.error()[0], "no error for the stream %s", repr(s + end))
    # altered: no crash, and what was read can be written and read
    s = bytearray(b)
    for how, at, x in c["mut"]:
        at %= len(s) + 1
        if how == "d" and s:
            del s[at:at + 1 + x % 3]
        elif how == "i":
            s[at:at] = bytes([x or 1]) if x % 2 else [b"<", b">", b"</", b"&", b"\"", b"<!--", b"]]>", b"=", b"/>", b"&#x", b"<?xml"][x % 11]
        elif how == "r" and at < len(s):
            s[at] = x or 1
    s = bytes(s)
    for enc in range(3):
        e = vxml.Doc()
        e.parse(s, enc)
        err = e.error()
        require(not err[0] or 0 < err[1] <= 15 and err[2] != "", "error %s", err)
        e.dump()
        if e.dump()[3]:
            t = e.printer([], None, None, True)
            f = vxml.Doc()
            f.parse(t, enc)
            f.dump()
    e = vxml.Doc()
    e.stream_in(s)
    e.dump()
    e = vxml.Doc()
    e.stream_in(s[:len(s) // 2] + b"\0" + s[len(s) // 2:])
    e.dump()
    return cut > 5, ["whole" if whole else "cut", c["mode"]]


# ---- histories

OPS = ["end", "end", "insert", "insert", "replace", "remove", "clear", "value", "cdata", "attr", "attr", "remove_attr", "copy", "assign", "clone", "bad", "int", "double"]


small = st.integers(0, 4)
edit_tree = tree(4)
dbl = st.one_of(gen.nice(-100, 100, 4), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([1e-10, 1e300, 0.1, -2.5e-300]))


@st.composite
def edit_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(OPS))
        # bits: after, str, how, k, i
        w = draw(st.integers(0, 2 * 2 * 3 * 4 * 6 - 1))
        o = {"op": k, "path": draw(st.lists(small, max_size=3)), "after": bool(w % 2), "str": bool(w // 2 % 2), "how": w // 4 % 3, "k": w // 12 % 4, "i": w // 48,
             "q": draw(st.sampled_from(["a", "b", "ab", "root", "x"])), "at": draw(st.lists(small, max_size=3)), "stop": draw(st.integers(-1, 5)), "n": [COM, "n", [], [], None]}
        if k in ("end", "insert", "replace", "bad"):
            o["n"] = draw(edit_tree)
        if k in ("value", "attr", "int", "double", "remove_attr"):
            o["name"] = draw(st.sampled_from(["a", "b", "ab", "x", "_x", ""]))
        if k in ("value", "attr"):
            o["v"] = draw(txt)
        if k in ("assign", "clone"):
            o["from"] = draw(st.lists(small, max_size=2))
        if k == "int":
            o["num"] = draw(st.integers(-2 ** 31, 2 ** 31 - 1))
        if k == "double":
            o["dbl"] = draw(dbl)
        ops.append(o)
    return {"top": [draw(edit_top)], "ops": ops}


edit_top = element(8)


def walk(root, path):
    p, n = [], root
    for i in path:
        if not n[3]:
            break
        p.append(i % len(n[3]))
        n = n[3][p[-1]]
    return p, n


def copy(t):
    return [t[0], t[1], uniq(t[2]), [copy(k) for k in t[3]], t[4]]


def find(kids, f, rev=False):
    idx = [i for i, k in enumerate(kids) if f(k)]
    return (idx[-1] if rev else idx[0]) if idx else -1


def val(t):
    return "" if t[0] == DOC else t[1]


def events(root, stop):
    ev = [("doc", "")]
    seen = [0]
    def go(t):
        if t[0] == EL:
            ev.append(("el", t[1]))
            for k in t[3]:
                if not go(k):
                    break
            ev.append(("/el", t[1]))
            return True
        ev.append(({COM: "comment", UNK: "unknown", TXT: "text", DECL: "decl"}[t[0]], t[1]))
        seen[0] += 1
        return stop < 0 or seen[0] - 1 != stop
    for k in root[3]:
        if not go(k):
            break
    return ev + [("/doc", "")]


def check_nav(vxml, d, root, o):
    p, n = walk(root, o["at"])
    q, k = o["q"], o["k"]
    r = d.nav(p, q, k, o["str"])
    kids = n[3]
    named = lambda t: t[1] == q
    el = lambda t: t[0] == EL
    eln = lambda t: t[0] == EL and t[1] == q
    exp = {"first": 0 if kids else -1, "last": len(kids) - 1, "first_v": find(kids, named), "last_v": find(kids, named, True), "first_el": find(kids, el), "first_el_v": find(kids, eln),
           "iter": list(range(len(kids))), "iter_v": [i for i, t in enumerate(kids) if named(t)], "doc": True, "root": find(root[3], el), "h_none": True}
    exp["first_i"], exp["first_el_i"] = exp["first_v"], exp["first_el_v"]
    pos = lambda i: sum(1 for t in (kids if i < 0 else kids[:i + 1]) if t[0] != COM)
    exp["i"], exp["el_i"] = pos(exp["first_v"]), pos(exp["first_el_v"])
    if p:
        sib = walk(root, p[:-1])[1][3]
        i = p[-1]
        up = lambda f: next((j for j in range(i + 1, len(sib)) if f(sib[j])), -1)
        down = lambda f: next((j for j in range(i - 1, -1, -1) if f(sib[j])), -1)
        exp.update(next=i + 1 if i + 1 < len(sib) else -1, prev=i - 1, next_v=up(named), prev_v=down(named), next_el=up(el), next_el_v=up(eln))
    nth = lambda f: ([i for i, t in enumerate(kids) if f(t)] + [-1] * 10)[k]
    exp.update(h_first=exp["first"], h_first_v=exp["first_v"], h_el=exp["first_el"], h_el_v=exp["first_el_v"], h_k=nth(lambda t: True), h_kv=nth(named), h_ek=nth(el), h_ekv=nth(eln))
    is_k = kids[k] if k < len(kids) else [None]
    exp["h_text"] = k if is_k[0] == TXT else -1
    exp["h_unknown"] = k if is_k[0] == UNK else -1
    if n[0] == EL:
        exp["text"] = kids[0][1].encode() if kids and kids[0][0] == TXT else None
    for key, v in exp.items():
        require(r[key] == v, "%s of %s at %s (%s): %s, expected %s", key, root, p, q, r[key], v)


def check_edits(c):
    import vxml
    root = [DOC, "", [], [copy(t) for t in c["top"]], None]
    d = made(vxml, root[3])
    done = 0
    for o in c["ops"]:
        p, n = walk(root, o["path"])
        k = o["op"]
        new = copy(o["n"])
        spec = o["n"]
        holder = n[0] in (DOC, EL)
        i = o["i"] % len(n[3]) if n[3] else None
        nm = o.get("name") or "e"
        before = d.error()[0]
        if k == "end" and holder:
            require(d.end(p, spec, o["after"], o["str"]) == len(n[3]), "inserted elsewhere")
            n[3].append(new)
        elif k == "insert" and i is not None:
            j = i + 1 if o["after"] else i
            require(d.insert(p, i, spec, o["after"], o["str"]) == j, "inserted elsewhere")
            n[3].insert(j, new)
        elif k == "replace" and i is not None:
            require(d.replace(p, p + [i], spec) == i, "replaced elsewhere")
            n[3][i] = new
        elif k == "remove" and i is not None:
            require(d.remove(p, i), "not removed")
            del n[3][i]
        elif k == "clear":
            d.clear(p)
            del n[3][:]
        elif k == "value" and n[0] != DOC:
            v = nm if n[0] == EL else o["v"]
            d.set_value(p, v, o["str"])
            n[1] = v
        elif k == "cdata" and n[0] == TXT:
            d.set_cdata(p, o["after"])
            n[4] = o["after"]
        elif k in ("attr", "int", "double") and n[0] == EL:
            if k == "attr":
                d.set_attr(p, nm, o["v"], o["str"])
                v = o["v"]
            elif k == "int":
                d.set_int(p, nm, o["num"], o["how"])
                v = str(o["num"])
            else:
                d.set_double(p, nm, o["dbl"], o["how"] % 2)
                g = d.query(p, nm, o["str"])
                require(g["double"] == (0, o["dbl"]) and g["own"][1] == o["dbl"] and g["atof"] == o["dbl"], "%r is kept as %s", o["dbl"], g)
                v = U(g["value"])
                require(float(v) == o["dbl"] and len(v) <= 24, "%r is written as %s", o["dbl"], v)
            n[2] = uniq(n[2] + [[nm, v]])
        elif k == "remove_attr" and n[0] == EL:
            d.remove_attr(p, nm, o["str"])
            n[2] = [a for a in n[2] if a[0] != nm]
        elif k == "copy":
            d.copy(o["i"] % 2)
        elif k in ("assign", "clone"):
            q, m = walk(root, o["from"])
            if m[0] == DOC or n[0] not in (DOC, EL):
                continue
            if k == "clone":
                require(d.clone_into(p, q) == len(n[3]), "cloned elsewhere")
                n[3].append(copy(m))
            elif m[0] == EL and n[0] == EL:
                x = copy(m)
                d.assign_el(p, q)
                # attributes that are only in the target stay or go with its value: both have those of the source
                got = undump(d.dump())
                g = walk(got, p)[1]
                names = [a[0] for a in x[2]]
                require([a for a in g[2] if a[0] in names and a not in x[2]] == [] and all(a in g[2] for a in x[2]), "assigned attributes %s, expected %s", g[2], x[2])
                n[1], n[2], n[3] = x[1], g[2], x[3]
        elif k == "bad":
            # what can not be done is refused and changes nothing
            doc = [DOC, "doc", [], [], None]
            require(d.end(p, doc, False, True) == -1, "a document is a child")
            if i is not None:
                require(d.insert(p, i, doc, o["after"], True) == -1 and d.replace(p, p + [i], doc) == -1, "a document is a child")
                # not a child of this node
                if n[3][i][3]:
                    require(d.replace(p, p + [i, 0], spec) == -1, "a grandchild is replaced")
            require(d.insert(p, -1, spec, o["after"], True) == -1 and not d.insert_null(p, spec, o["after"]), "inserted next to a node that is no child")
            require(d.error()[0] and d.error()[1] > 0, "no error for a document as a child")
            d.clear_error()
            require(not d.error()[0] and d.error()[1] == 0 and d.error()[2] == "", "error %s is not cleared", d.error())
        else:
            continue
        done += 1
        got = undump(d.dump())
        require(got == root, "after %s at %s: %s, expected %s", k, p, got, root)
        require(not d.error()[0], "%s: error %s", k, d.error())
        check_nav(vxml, d, root, o)
        ev = [(a, U(b)) for a, b in d.visit(o["stop"])]
        want = events(root, o["stop"])
        require([e for e in ev if e[0] != "decl"] == [e for e in want if e[0] != "decl"], "visited %s, expected %s", ev, want)
    return done >= 2, ["ops%d" % min(done, 6)]


# ---- attributes as numbers

@st.composite
def query_case(draw):
    kind = draw(st.sampled_from(["int", "real", "word", "empty"]))
    lead = draw(st.sampled_from(["", "", " ", "\t", "\n "]))
    if kind == "int":
        v = draw(st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1).map(str), st.integers(0, 99).map(lambda x: "+%d" % x), st.integers(0, 99).map(lambda x: "00%d" % x)))
    elif kind == "real":
        v = draw(st.one_of(gen.nice(-1000, 1000, 5).map(repr), st.sampled_from(["1e3", "-2.5E-2", ".5", "3.", "-.25", "1.5e+2"])))
    else:
        v = draw(st.sampled_from(["abc", "-", "x1", "é", ";"])) if kind == "word" else ""
    tail = draw(st.sampled_from(["", "", " ", "abc", " 7", ";", "\n"]))
    return {"kind": kind, "v": v, "lead": lead, "tail": tail, "str": draw(st.booleans()), "other": draw(attrs), "name": draw(name), "miss": draw(name)}


def check_query(c):
    import vxml
    s = c["lead"] + c["v"] + c["tail"]
    n = c["name"]
    other = [a for a in uniq(c["other"]) if a[0] != n]
    d = made(vxml, [[EL, "e", other[:1] + [[n, s]] + other[1:], [], None]])
    r = d.query([0], n, c["str"])
    require(r["value"] == s.encode(), "value %s, expected %s", r["value"], s)
    num = re.match(r"\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", s)
    whole = re.match(r"\s*([+-]?\d+)", s)
    real = float(num.group(1)) if num else None
    integer = int(whole.group(1)) if whole else None
    require(r["int"] == ((0, integer) if whole else (2, 77)), "QueryIntAttribute of %r: %s", s, r["int"])
    require(r["double"] == ((0, real) if num else (2, 77.0)), "QueryDoubleAttribute of %r: %s", s, r["double"])
    import numpy as np
    require(r["float"] == ((0, float(np.float32(real))) if num else (2, 77.0)), "QueryFloatAttribute of %r: %s", s, r["float"])
    require(r["atoi"] == (integer or 0) and r["atof"] == (real or 0.0), "Attribute of %r: %s, %s", s, r["atoi"], r["atof"])
    require(r["own"] == (integer or 0, real or 0.0), "values of %r: %s", s, r["own"])
    if c["tail"] not in ("abc",):
        require(r["vdouble"] == ((0, real) if num else (2, 77.0)), "QueryValueAttribute of %r: %s", s, r["vdouble"])
        if integer is None or integer >= 0:
            require(r["vunsigned"] == ((0, integer) if whole else (2, 77)), "QueryValueAttribute of %r: %s", s, r["vunsigned"])
    w = s.split()
    require(r["vstring"] == ((0, w[0].encode()) if w else (2, b"?")), "QueryValueAttribute of %r: %s", s, r["vstring"])
    m = c["miss"]
    if m != n and all(a[0] != m for a in other):
        r = d.query([0], m, c["str"])
        require(r["value"] is None and r["int"] == (1, 77) and r["double"] == (1, 77.0) and r["float"] == (1, 77.0) and r["vdouble"][0] == r["vstring"][0] == 1, "attribute that is not there: %s", r)
        require(r["atoi"] == 0 and r["atof"] == 0.0, "number of an attribute that is not there: %s %s", r["atoi"], r["atof"])
    return c["kind"] != "empty", [c["kind"]]


PROP = Prop("C31", [{"shim": "vxml", "mods": ["tinyxml"], "asan": False}], [
    Sub("build", build_case, check_build, 1000, 20000, shards=3, rule="more than three nodes"),
    Sub("text", text_case, check_text, 1800, 30000, shards=3, rule="at least three nodes"),
    Sub("malformed", text_case, check_malformed, 1800, 30000, shards=3, rule="more than five characters"),
    Sub("edits", edit_case, check_edits, 1200, 20000, shards=4, rule="at least two changes"),
    Sub("query", query_case, check_query, 1500, 15000, shards=1, rule="a value that is not empty"),
], RULE, ["no '--' in comments, no ']]>' in CDATA, markup without '>' in itself"])
