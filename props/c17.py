"""C17: log messages reach exactly the logs that ask for them."""
import os, shutil, tempfile
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require

RULE = ("Histories of up to 16 operations (file logs of all three kinds, added and removed streams, screen log set and replaced, messages and formatted "
        "messages with and without phase, headers, prefixes, progress, buffering, closing) on the log kit; after every operation all log files, the text on standard "
        "output and the message counts are compared with a model. Non-trivial: at least one log and two messages.")
LV = [1, 2, 4, 8, 16, 32, 64]
OPS = ["file", "file_v", "file_p", "add", "remove", "screen", "screen_v", "msg", "msg", "msg", "msg_p", "msg_p", "fmt", "fmt_p", "header", "prefix", "buf", "endbuf", "progress", "end"]


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 16))):
        o = draw(st.sampled_from(OPS))
        ops.append({"op": o, "l": draw(st.sampled_from(LV)), "m": draw(st.one_of(st.sampled_from([1, 3, 7, 15, 31, 63, 127, 0]), st.integers(0, 127))), "p": draw(st.one_of(st.integers(0, 4), st.sampled_from([0, 999, 1000, 1500]))),
                    "v": draw(st.lists(st.integers(0, 127), max_size=4)), "f": draw(st.booleans()), "s": draw(st.text("ab %", max_size=5)), "k": draw(st.integers(0, 9)),
                    "long": draw(st.sampled_from([0, 0, 0, 0, 89, 90, 91, 997, 1000, 4998, 6000])), "x": draw(st.floats(-1e4, 1e4)), "q": draw(st.integers(0, 100)) / 100})
    return {"ops": ops}


class S:
    def __init__(self, levels, general):
        self.levels, self.general, self.text = levels, general, ""

    def wants(self, level, phase):
        if phase is None or phase >= len(self.levels):
            return bool(self.general & level)
        return bool(self.levels[phase] & level)


def vec(v, ign):
    g = 0
    for x in v:
        g |= x
    return S(v, 0 if ign else g)


def check(c):
    import vio
    d = tempfile.mkdtemp()
    sout = d + "/stdout"
    keep = os.dup(1)
    fd = os.open(sout, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    files, live, screen, prog, buf, prefix, out = {}, [], None, False, None, {}, ""
    n0 = {l: vio.log_n(l) for l in LV}
    count = dict.fromkeys(LV, 0)
    nlog = nmsg = 0
    labs = set()

    def dump(s):
        for l, p, t in buf or []:
            if s.wants(l, p):
                s.text += t

    def send(l, p, t):
        nonlocal out, prog
        count[l] += 1
        t = prefix.get(l, "") + t
        for x in live:
            if x is screen:
                if x.wants(l, p):
                    out += ("\n\n" if prog else "") + t
                    prog = False
            elif x.wants(l, p):
                x.text += t
        if buf is not None:
            buf.append((l, p, t))

    try:
        os.dup2(fd, 1)
        vio.log_end()
        for l in LV:
            vio.log_prefix("", l)
        for k, o in enumerate(c["ops"]):
            op, l = o["op"], o["l"]
            f = d + "/sub/%d.log" % k
            labs.add(op)
            text = o["s"] + "x" * o["long"] + "\n"
            if op in ("file", "file_v", "file_p", "add"):
                nlog += 1
                if op == "file":
                    vio.log_file(f, o["m"], o["f"])
                    s = S([], o["m"]) if o["f"] else vec([0, o["m"]], False)
                elif op == "file_v":
                    vio.log_file_v(f, o["v"], o["f"])
                    s = vec(o["v"], o["f"])
                elif op == "file_p":
                    p = min(o["p"], 999)
                    vio.log_file_p(f, o["m"], p, o["f"])
                    v = [0] * 1000
                    v[p] = o["m"]
                    s = vec(v, o["f"])
                else:
                    ident = vio.log_add(f, o["v"], o["f"])
                    s = vec(o["v"], o["f"])
                    s.ident = ident
                files[f] = s
                live.append(s)
                dump(s)
            elif op == "remove":
                cand = [x for x in live if hasattr(x, "ident")]
                if not cand:
                    continue
                x = cand[o["k"] % len(cand)]
                vio.log_remove(x.ident)
                live.remove(x)
            elif op in ("screen", "screen_v"):
                nlog += 1
                if op == "screen":
                    vio.log_screen(o["m"], o["f"])
                    s = S([], o["m"]) if o["f"] else vec([0, o["m"]], False)
                else:
                    vio.log_screen_v(o["v"], o["f"])
                    s = vec(o["v"], o["f"])
                if screen is None:
                    live.append(s)
                else:
                    live[live.index(screen)] = s
                screen, prog = s, False
            elif op == "msg":
                vio.log(l, text)
                send(l, None, text)
                nmsg += 1
            elif op == "msg_p":
                vio.log_p(l, o["p"], text)
                send(l, o["p"], text)
                nmsg += 1
            elif op == "fmt":
                vio.logf(l, text, o["k"], o["x"])
                send(l, None, "%s|%d|%7.3f\n" % (text, o["k"], o["x"]))
                nmsg += 1
            elif op == "fmt_p":
                vio.logf_p(l, o["p"], text, o["k"], o["x"])
                send(l, o["p"], "%s|%d|%7.3f\n" % (text, o["k"], o["x"]))
                nmsg += 1
            elif op == "header":
                t = o["s"] + "h" * min(o["long"], 120)
                vio.log_header(t, l)
                b = max(0, 90 - len(t))
                send(l, None, "\n" + "*" * 100 + "\n")
                send(l, None, "*****" + " " * (b // 2) + t + " " * (b - b // 2) + "*****\n")
                send(l, None, "*" * 100 + "\n")
                nmsg += 1
            elif op == "prefix":
                vio.log_prefix(o["s"], l)
                prefix[l] = o["s"]
            elif op == "buf":
                if buf is None:
                    vio.log_start_buf()
                    buf = []
            elif op == "endbuf":
                vio.log_end_buf()
                buf = None
            elif op == "progress":
                vio.log_progress(o["q"], o["s"])
                if screen is not None:
                    if not prog:
                        out += "  0%       20%       40%       60%       80%      100%\n  |    |    |    |    |    |    |    |    |    |    |\n"
                        prog = True
                    n = 1 + int(o["q"] * 50)
                    out += "\r  " + "^" * n + " " * (52 - n) + o["s"]
            elif op == "end":
                vio.log_end()
                live, screen, buf, prog = [], None, None, False
            for f, s in files.items():
                got = open(f).read()
                require(got == s.text, "after operation %d (%s) log %s holds %r, expected %r", k, op, os.path.basename(f), got[-200:], s.text[-200:])
            got = open(sout, newline="").read()
            require(got == out, "after operation %d (%s) the screen shows %r, expected %r", k, op, got[-200:], out[-200:])
            for x in LV:
                require(vio.log_n(x) - n0[x] == count[x], "%d messages of level %d counted, expected %d", vio.log_n(x) - n0[x], x, count[x])
    finally:
        try:
            vio.log_end()
            for l in LV:
                vio.log_prefix("", l)
        finally:
            os.dup2(keep, 1)
            os.close(keep)
            os.close(fd)
            shutil.rmtree(d)
    return nlog >= 1 and nmsg >= 2, sorted(labs)


PROP = Prop("C17", [{"shim": "vio", "mods": ["iotools"], "asan": False}], [
    Sub("log", case, check, 4000, 60000, shards=4, rule="at least one log and two messages"),
], RULE, ["one process, one thread"])
