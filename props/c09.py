"""C09: grid containers behave as n-dimensional arrays under every history."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.fw import Prop, Sub, require, require_close

RULE = ("Histories of up to 14 operations (set and get by subscripts and by index, resize, assign, extend in k, swap, copy, assignment, "
        "minimum/maximum with missing values, statistics, log transform) on two grids of a generated class (2D, 2D with global "
        "index bounds, 3D, 4D, 5D; int and double) against Fortran-ordered numpy arrays; after every operation all cells, all sizes "
        "and the mapping between index and subscripts are compared. Non-trivial: two extents larger than 1 and at least one write.")

KINDS = ["Grid2D", "Grid", "Grid4D", "Grid5D", "Grid2DGeneral"]
ND = {"Grid2D": 2, "Grid": 3, "Grid4D": 4, "Grid5D": 5, "Grid2DGeneral": 2}
OPS = ["set", "set", "seti", "resize", "swap", "copy", "assignfrom", "assign", "resizek", "minmax", "valid", "stats", "log", "setv"]


def shape(draw, kind):
    nd = ND[kind]
    cap = {2: 9, 3: 6, 4: 4, 5: 3}[nd]
    n = [draw(st.integers(1, cap)) for _ in range(nd)]
    if kind == "Grid2DGeneral":
        lo = [draw(st.one_of(st.integers(0, 5), st.just(1000000))) for _ in range(2)]
        return [lo[0], lo[0] + n[0] - 1, lo[1], lo[1] + n[1] - 1]
    return n


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    isint = draw(st.booleans())
    val = st.integers(-6, 6) if isint else st.one_of(st.integers(-6, 6).map(float), st.sampled_from([-999.0, -999.25, 1e30, -1e30, 1e-8, 0.5, 2.75]))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        o = {"op": draw(st.sampled_from(OPS)), "w": draw(st.integers(0, 1)), "p": draw(st.integers(0, 10**6)), "v": draw(val)}
        if o["op"] in ("resize", "assign"):
            o["n"] = shape(draw, kind)
        ops.append(o)
    return {"kind": kind, "int": isint, "n": [shape(draw, kind), shape(draw, kind)], "v": [draw(val), draw(val)], "ops": ops}


class Model:
    def __init__(self, kind, n, v):
        self.kind = kind
        self.reset(n, v)

    def reset(self, n, v):
        if self.kind == "Grid2DGeneral":
            self.lo = [n[0], n[2]]
            sh = [n[1] - n[0] + 1, n[3] - n[2] + 1]
        else:
            self.lo = [0] * len(n)
            sh = list(n)
        self.a = np.empty(sh, dtype=object, order="F")
        self.a[...] = v

    def sizes(self):
        sh = list(self.a.shape)
        if self.kind == "Grid2DGeneral":
            return [self.lo[0], self.lo[0] + sh[0] - 1, self.lo[1], self.lo[1] + sh[1] - 1] + sh + [self.a.size]
        return sh + [self.a.size]


def sync(g, md):
    require(list(g.sizes()) == md.sizes(), "sizes %s, expected %s", g.sizes(), md.sizes())
    flat = list(md.a.flatten(order="F"))
    got = list(g.all())
    require(got == flat, "cells %s, expected %s", got[:40], flat[:40])


def check(c):
    import vgrid
    kind = c["kind"]
    cls = getattr(vgrid, kind + ("_i" if c["int"] else "_d"))
    zero = 0 if c["int"] else 0.0
    gs = [cls(c["n"][k], c["v"][k]) for k in range(2)]
    ms = [Model(kind, c["n"][k], c["v"][k]) for k in range(2)]
    require(list(cls().sizes())[-1] == 0 and list(cls().all()) == [], "a default grid is not empty")
    wrote = False
    labs = {kind}
    for o in c["ops"]:
        w = o["w"]
        g, md = gs[w], ms[w]
        N = md.a.size
        k = o["p"] % N
        sub = [int(x) for x in np.unravel_index(k, md.a.shape, order="F")]
        gsub = [s + l for s, l in zip(sub, md.lo)]
        op = o["op"]
        if op == "set":
            g.set(gsub, o["v"])
            md.a[tuple(sub)] = o["v"]
            wrote = True
        elif op == "setv" and kind == "Grid":
            (g.setv if o["p"] % 2 else g.setref)(gsub, o["v"])
            md.a[tuple(sub)] = o["v"]
            require(g.getv(gsub) == o["v"], "GetValue after SetValue")
        elif op == "seti":
            g.seti(k, o["v"])
            md.a[tuple(sub)] = o["v"]
            wrote = True
        elif op == "resize":
            g.resize(o["n"], o["v"])
            md.reset(o["n"], o["v"])
        elif op == "assign" and kind in ("Grid2D", "Grid"):
            g.assign(o["n"], o["v"])
            md.reset(o["n"], o["v"])
        elif op == "resizek" and kind == "Grid":
            nk = 1 + o["p"] % 7
            g.resize_k(nk)
            b = np.empty(md.a.shape[:2] + (nk,), dtype=object, order="F")
            b[...] = zero
            q = min(nk, md.a.shape[2])
            b[:, :, :q] = md.a[:, :, :q]
            md.a = b
        elif op == "swap":
            gs[0].swap(gs[1])
            ms[0], ms[1] = ms[1], ms[0]
        elif op == "copy":
            gs[w] = g.copy()
        elif op == "assignfrom":
            gs[w].assign_from(gs[1 - w])
            ms[w] = Model(kind, [0, 0, 0, 0] if kind == "Grid2DGeneral" else [1] * ND[kind], zero)
            ms[w].a = ms[1 - w].a.copy(order="F")
            ms[w].lo = list(ms[1 - w].lo)
        elif op == "minmax" and kind.startswith("Grid2D"):
            vs = [x for x in md.a.flatten() if x != o["v"]]
            if vs:
                require(g.min(o["v"]) == min(vs), "minimum %s, expected %s", g.min(o["v"]), min(vs))
                require(g.max(o["v"]) == max(vs), "maximum %s, expected %s", g.max(o["v"]), max(vs))
        elif op == "valid" and kind.startswith("Grid2D"):
            i, j = gsub[0] + [-1, 0, 1, 7][o["p"] % 4], gsub[1] + [0, -1, 1, 12][o["p"] // 4 % 4]
            if kind == "Grid2DGeneral" and (i < 0 or j < 0):
                continue
            want = 0 <= i - md.lo[0] < md.a.shape[0] and 0 <= j - md.lo[1] < md.a.shape[1]
            require(g.valid(i, j) == want, "IsValidIndex(%d,%d) is %s", i, j, not want)
        elif op == "stats" and kind == "Grid" and not c["int"]:
            x = [float(t) for t in md.a.flatten()]
            tol = 1e-12 * sum(abs(t) for t in x)
            a, lo, hi = g.stats()
            require(lo == min(x) and hi == max(x), "minimum/maximum %s %s", lo, hi)
            require_close(a, math.fsum(x) / len(x), "average", 1e-9, tol)
            y = [t for t in x if t != o["v"]]
            if y:
                a, lo, hi = g.stats_missing(o["v"])
                require(lo == min(y) and hi == max(y), "minimum/maximum without missing %s %s", lo, hi)
                require_close(a, math.fsum(y) / len(y), "average without missing", 1e-9, 1e-12 * sum(abs(t) for t in y))
        elif op == "log" and kind == "Grid" and not c["int"]:
            before = [float(t) for t in md.a.flatten(order="F")]
            g.log(o["v"])
            after = g.all()
            for b, a in zip(before, after):
                require_close(a, 0.0 if b == o["v"] or b <= 0 else math.log(b), "log of %r" % b)
            md.a = np.array(list(after), dtype=object).reshape(md.a.shape, order="F")
        else:
            continue
        labs.add(op)
        sync(gs[0], ms[0])
        sync(gs[1], ms[1])
    for g, md in zip(gs, ms):
        if kind in ("Grid2D", "Grid"):
            require(list(g.storage()) == list(g.all()), "storage")
        require(list(g.allm()) == list(g.all()), "iteration")
        for k in range(md.a.size):
            sub = [int(x) + l for x, l in zip(np.unravel_index(k, md.a.shape, order="F"), md.lo)]
            require(g.index(sub) == k, "index of %s is %d, expected %d", sub, g.index(sub), k)
            require(list(g.ij(k)) == sub, "subscripts of %d are %s, expected %s", k, g.ij(k), sub)
            v = md.a[tuple(s - l for s, l in zip(sub, md.lo))]
            require(g.get(sub) == v and g.getm(sub) == v and g.geti(k) == v, "value at %s", sub)
    big = max(sum(1 for e in md.a.shape if e > 1) for md in ms)
    return wrote and big >= 2, sorted(labs)


PROP = Prop("C09", [{"shim": "vgrid", "mods": [], "asan": False}], [
    Sub("history", case, check, 8000, 120000, shards=8, rule="two extents larger than 1 and a write"),
], RULE, ["minimum and maximum are claimed when some cell is not missing"])
