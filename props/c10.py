"""C10: the random generators (global and objects) are independent dSFMT-19937 streams; seed files."""
import os, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vlib import ref, gen
from vlib.fw import Prop, Sub, require
from vlib.worker import run_forked

RULE = ("Histories of up to 40 operations, each in a fresh process, on the global generator and three generator objects: seed, seed from a "
        "file (good, missing, empty, malformed), clock seed, uniform / open uniform / 32-bit / normal draws (runs of up to 1500), copy "
        "and assignment of generators, start seed, write seed file; every value is compared with an independent implementation of "
        "dSFMT-19937; the array functions of the generator behind from seeds and keys; streams of up to 900000 uniform and normal draws. Non-trivial: two generators draw, or a seed file is used, and at least 10 values are drawn.")
BAD = ["", "\n", "abc", "x12", "999999999999999999999999999"]
DRAW = ["u32", "unif", "unif_open", "norm"]


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        k = draw(st.integers(0, 99))
        w = draw(st.integers(0, 3))     # 0: the global generator
        if k < 55:
            ops.append(["draw", w, draw(st.sampled_from(DRAW)), draw(st.one_of(st.integers(1, 4), st.integers(1, 60), st.integers(300, 1500)))])
        elif k < 70:
            ops.append(["seed", w, draw(st.one_of(gen.seed32(), st.integers(0, 2**40)))])
        elif k < 74:
            ops.append(["clock", w])
        elif k < 82:
            ops.append(["start", w])
        elif k < 87:
            ops.append(["copy", draw(st.integers(1, 3)), draw(st.integers(1, 3))])
        elif k < 91:
            ops.append(["assign", draw(st.integers(1, 3)), draw(st.integers(1, 3))])
        elif k < 95:
            ops.append(["file", draw(st.integers(0, 1)), draw(st.one_of(st.sampled_from(BAD), st.none(), st.tuples(st.sampled_from(["", " ", "\n\t"]), gen.seed32(), st.sampled_from(["", "\n", " 77", "\nx"])).map(list)))])
        else:
            ops.append(["write"])
    return {"ops": ops}


class Model:
    def __init__(self):
        self.seeded = None
        self.log = []

    def seed(self, s):
        self.seeded = s
        self.log = []
        self.r = ref.Rng(s)

    def draw(self, what):
        self.log.append(what)
        return getattr(self.r, what)()

    def copy(self):
        m = Model()
        if self.seeded is not None:
            m.seed(self.seeded)
            for w in self.log:
                m.draw(w)
        return m


def body(c):
    import vrand as v
    d = tempfile.mkdtemp()
    try:
        gens = [v] + [v.Gen() for _ in range(3)]
        mods = [Model() for _ in range(4)]
        used = None
        nd, drew, files = 0, set(), False
        for o in c["ops"]:
            op = o[0]
            if op in ("draw", "seed", "clock", "start"):
                w = o[1]
                g, m = gens[w], mods[w]
            if op == "draw":
                if m.seeded is None:
                    continue  # "always initialize before use"
                if o[3] > 100 and sum(1 for x in m.log) > 6000:
                    continue
                for k in range(o[3]):
                    a, b = getattr(g, o[2])(), m.draw(o[2])
                    require(a == b, "%s draw %d after seed %s: %r, expected %r", o[2], len(m.log), m.seeded, a, b)
                nd += o[3]
                drew.add(w)
            elif op == "seed":
                g.init_seed(o[2])
                m.seed(o[2])
            elif op == "clock":
                g.init()
                s = g.start_seed()
                require(0 <= s < 2**32, "clock seed %s", s)
                m.seed(s)
            elif op == "start":
                try:
                    s = g.start_seed()
                except Exception as e:
                    require(m.seeded is None, "start seed raised %s after seeding", e)
                    s = None
                require(s == m.seeded, "start seed %s, expected %s", s, m.seeded)
            elif op == "copy":
                gens[o[1]] = gens[o[2]].copy()
                mods[o[1]] = mods[o[2]].copy()
            elif op == "assign":
                gens[o[1]].assign(gens[o[2]])
                if o[1] != o[2]:
                    mods[o[1]] = mods[o[2]].copy()
            elif op == "file":
                p = "%s/seed%d" % (d, o[1])
                spec = o[2]
                if spec is None:
                    p = d + "/missing"
                else:
                    with open(p, "w") as f:
                        f.write(spec if isinstance(spec, str) else "%s%d%s" % tuple(spec))
                try:
                    v.init_file(p)
                    ok = True
                except Exception as e:
                    ok = False
                require(ok == isinstance(spec, list), "seed file %r: %s", spec, "accepted" if ok else "rejected")
                if ok:
                    mods[0].seed(spec[1])
                    used = p
                    files = True
            elif op == "write":
                before = {f: open(d + "/" + f).read() for f in os.listdir(d)}
                v.write_seed()
                if used is not None:
                    before[os.path.basename(used)] = "%d\n" % mods[0].draw("u32")
                after = {f: open(d + "/" + f).read() for f in os.listdir(d)}
                require(after == before, "seed files %s, expected %s", after, before)
        for g, m in zip(gens, mods):
            if m.seeded is not None:
                for _ in range(3):
                    require(g.unif() == m.draw("unif"), "the stream after the history")
                require(g.start_seed() == m.seeded, "start seed after the history")
        return nd >= 10 and (len(drew) > 1 or files), (["file"] if files else []) + (["objects"] if len(drew) > 1 else [])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    return run_forked(body, c)


# ---------------- whole arrays
@st.composite
def arrays(draw):
    return {"key": draw(st.one_of(gen.seed32(), st.lists(gen.seed32(), max_size=5), st.tuples(st.integers(0, 2000), gen.seed32()).map(lambda t: [(t[1] * (i + 1)) % 2**32 for i in range(t[0])]))),
            "fills": draw(st.lists(st.tuples(st.integers(0, 3), st.one_of(st.sampled_from([0, 1, 2, 95, 190, 191, 192]), st.integers(0, 600))), max_size=4)),
            "draws": draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 500)), max_size=3))}


def check_arrays(c):
    import vrand as v
    g, r = v.Raw(), ref.Rng()
    if isinstance(c["key"], int):
        g.seed(c["key"])
        r.seed(c["key"])
    else:
        g.key(c["key"])
        r.seed_array(c["key"])
    require(v.min_array() == 382, "least array size %r", v.min_array())
    for how, ops in (("array", [(k, 382 + 2 * n) for k, n in c["fills"]]), ("draws", c["draws"])):
        for k, n in ops:
            a, b = (g.fill if how == "array" else g.draw)(k, n), r.kind(k, n).tolist()
            if a != b:
                q = next(i for i in range(n) if a[i] != b[i])
                require(False, "value %d of %d of kind %d (%s) is %r, expected %r", q, n, k, how, a[q], b[q])
    return bool(c["fills"]) or not isinstance(c["key"], int), ["key"] if not isinstance(c["key"], int) else ["seed"]


# ---------------- long streams: the tails of the normal draws are reached
@st.composite
def long(draw):
    return {"seed": draw(gen.seed32()), "obj": draw(st.booleans()), "runs": draw(st.lists(st.tuples(st.sampled_from(["norms", "norms", "unifs"]), st.integers(1, 300000)), min_size=1, max_size=3))}


def check_long(c):
    import vrand as v
    r = ref.Rng(c["seed"])
    v.init_seed(c["seed"])
    g = v.Gen(c["seed"]) if c["obj"] else v
    far = 0
    for k, n in c["runs"]:
        a, b = np.frombuffer(getattr(g, k)(n)), getattr(r, k)(n)
        if not np.array_equal(a, b):
            q = int(np.argmax(a != b))
            require(False, "value %d of %d of %s is %r, expected %r", q, n, k, a[q], b[q])
        far += k == "norms" and int((np.abs(a) > 3).sum())
    return far > 0, ["tail" if far else "notail", "object" if c["obj"] else "global"]


PROP = Prop("C10", ["ref", {"shim": "vrand", "mods": ["random", "iotools/stringtools.cpp", "iotools/logkit.cpp", "iotools/logstream.cpp", "iotools/fileio.cpp", "math"], "asan": False}], [
    Sub("history", case, check, 4000, 60000, shards=8, rule="two generators or a seed file, and 10 draws"),
    Sub("arrays", arrays, check_arrays, 1500, 20000, shards=1, rule="an array is filled or the key is an array"),
    Sub("long", long, check_long, 350, 6000, shards=3, rule="a normal draw beyond three"),
], RULE, ["seed files with a negative number are not claimed"])
