"""C04: seeding and reproducibility over arbitrary call histories."""
import os, json, time
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require, Violation
from vlib.worker import run_forked

SPECS = [
    {"nd": 1, "type": "exponential", "main": 5.0, "n": [13], "d": [1.0], "pad": None, "seed": 1},
    {"nd": 1, "type": "gaussian", "main": 3.0, "n": [40], "d": [0.5], "pad": None, "seed": 1},
    {"nd": 1, "type": "spherical", "main": 4.0, "n": [7], "d": [2.0], "pad": [11], "seed": 1},
    {"nd": 2, "type": "spherical", "main": 6.0, "perp": 3.0, "azi": 30.0, "n": [6, 5], "d": [1.0, 2.0], "pad": None, "seed": 1},
    {"nd": 2, "type": "matern52", "main": 2.0, "perp": 3.0, "n": [9, 4], "d": [1.0, 1.0], "pad": [4, 0], "seed": 1},
    {"nd": 3, "type": "exponential", "main": 2.0, "n": [4, 3, 5], "d": [1.0, 1.0, 1.0], "pad": None, "seed": 1},
    {"nd": 3, "type": "matern32", "main": 1.5, "perp": 2.0, "depth": 1.0, "dip": 20.0, "n": [3, 5, 2], "d": [1.0, 0.5, 1.0],
     "pad": [2, 3, 1], "s": [0.5, 1.0, 1.0], "seed": 1},
    {"nd": 3, "type": "general_exponential", "power": 1.7, "main": 1.2, "n": [2, 2, 7], "d": [1.0, 1.0, 1.0],
     "pad": [0, 0, 0], "seed": 1},
]

RULE = ("Histories of seed(n), seed(), simulate / advanced.simulate (8 specifications in 1D, 2D, 3D), variogram creation, corr "
        "and simulation_size calls; a model of the random stream predicts every returned field and every seed(). "
        "Non-trivial: at least two simulations, one of them not directly after a seed call.")

seed_any = st.one_of(st.integers(0, 5), st.integers(0, 2**32 - 1), st.integers(2**32, 2**63), st.just(2**32), st.just(2**64 - 1))
op = st.one_of(
    st.tuples(st.just("sim"), st.integers(0, len(SPECS) - 1)),
    st.tuples(st.just("sim"), st.integers(0, len(SPECS) - 1)),
    st.tuples(st.just("seed"), seed_any),
    st.tuples(st.just("reseed"), st.just(0)),
    st.tuples(st.just("get"), st.just(0)),
    st.tuples(st.just("vario"), st.integers(0, len(SPECS) - 1)),
    st.tuples(st.just("corr"), st.integers(0, len(SPECS) - 1)),
    st.tuples(st.just("size"), st.integers(0, len(SPECS) - 1)),
    st.tuples(st.just("bad"), st.integers(0, 2)),
).map(list)
history = st.tuples(seed_any, st.lists(op, min_size=4, max_size=16)).map(lambda t: {"seed0": t[0], "ops": t[1]})

_cache = {}


def spec(i):
    if i not in _cache:
        c = SPECS[i]
        v, r = core.mk_vario(c)
        tot, amb = core.plan(c, r)
        assert not amb
        f, lmax = ref.embed_filter(r, tot, c["d"], c.get("s") or [1.0] * c["nd"])
        _cache[i] = (c, v, r, tot, f, lmax)
    return _cache[i]


def predict(i, rng):
    c, v, r, tot, f, lmax = spec(i)
    nz = core.noise(rng, tot)
    out = np.fft.ifftn(np.fft.fftn(nz) * f).real
    return out[tuple(slice(0, k) for k in c["n"])], lmax


def step(g, o, a, rng, seed, what):
    """Executes one operation on the package and on the model. Returns the new seed."""
    if o == "sim":
        c, v, r, tot, f, lmax = spec(a)
        z = core.call_sim(c, v)
        want, lmax = predict(a, rng)
        core.check_field(z, want, lmax, what)
    elif o == "seed":
        g.seed(a)
        rng.seed(a)
        seed = a
    elif o == "reseed":
        g.seed(g.seed())
        rng.seed(seed)
    elif o == "get":
        require(g.seed() == seed, "%s: seed() returned %r, expected %r", what, g.seed(), seed)
    elif o == "vario":
        core.mk_vario(SPECS[a])
    elif o == "corr":
        spec(a)[1].corr(1.0, 2.0, 0.5)
    elif o == "size":
        c = SPECS[a]
        args = []
        for k in range(c["nd"]):
            args += [c["n"][k], c["d"][k]]
        g.simulation_size(spec(a)[1], *args)
    elif o == "bad":
        # rejected calls leave the stream alone
        try:
            if a == 0:
                g.simulate(None, 10, 1.0)
            elif a == 1:
                g.seed("abc")
            else:
                g.simulate(spec(0)[1], -3, 1.0)
        except (TypeError, RuntimeError, ValueError, AttributeError):
            pass
        else:
            raise Violation("invalid call %d was accepted" % a)
    return seed


def check(c):
    g = core.g()
    rng = ref.Rng(c["seed0"])
    g.seed(c["seed0"])
    seed = c["seed0"]
    nsim, away, last = 0, False, "seed"
    for k, (o, a) in enumerate(c["ops"]):
        seed = step(g, o, a, rng, seed, "op %d (%s %s)" % (k, o, a))
        if o == "sim":
            nsim += 1
            away = away or last == "sim"
        if o in ("sim", "seed", "reseed"):
            last = o
    require(g.seed() == seed, "at the end seed() returned %r, expected %r", g.seed(), seed)
    return nsim >= 2 and away, ["long" if len(c["ops"]) > 7 else "short"]


fresh_case = st.tuples(st.booleans(), st.lists(op.filter(lambda o: o[0] not in ("seed",)), min_size=0, max_size=3),
                       st.integers(0, len(SPECS) - 1), st.booleans()).map(
    lambda t: {"ask_first": t[0], "pre": t[1], "sim": t[2], "explicit": t[3]})


def check_fresh(c):
    """In a process that has never seeded: seed() fails, the first simulation seeds from the clock and the reported seed
    reproduces it."""
    for i in range(len(SPECS)):
        spec(i)

    def body(c):
        g = core.g()
        if c["ask_first"]:
            try:
                s = g.seed()
            except RuntimeError:
                pass
            else:
                raise Violation("seed() before initialisation returned %r" % s)
        for o, a in c["pre"]:
            if o in ("vario", "corr", "size", "bad"):
                step(g, o, a, None, None, "")
        if c["explicit"]:
            g.seed(77)
            rng, s = ref.Rng(77), 77
            z = core.call_sim(SPECS[c["sim"]], spec(c["sim"])[1])
        else:
            t0 = int(time.time())
            z = core.call_sim(SPECS[c["sim"]], spec(c["sim"])[1])
            t1 = int(time.time())
            s = g.seed()
            require(s in [ref.Rng(t).u32() for t in range(t0 - 1, t1 + 2)],
                    "the automatic seed %r is not derived from the current time in seconds", s)
            rng = ref.Rng(s)
        want, lmax = predict(c["sim"], rng)
        core.check_field(z, want, lmax, "first simulation")
        require(g.seed() == s, "seed() changed")
        seed = s
        for o, a in c["pre"]:
            seed = step(g, o, a, rng, seed, "later op %s %s" % (o, a))
        g.seed(s)
        z2 = core.call_sim(SPECS[c["sim"]], spec(c["sim"])[1])
        require(bool(np.array_equal(z, z2)), "reseeding with the reported seed does not reproduce the field")
        return True
    return run_forked(body, c)[0]


PROP = Prop("C04", ["ref", "ext"], [
    Sub("history", lambda: history, check, 9000, 120000, shards=6),
    Sub("fresh", lambda: fresh_case, check_fresh, 240, 2000, shards=2, rule="every case runs in a fresh process image"),
], RULE, ["dSFMT-19937 and Marsaglia-Bray written independently in C are the model of the documented stream",
          "only the low 32 bits of a seed enter the stream (documented type is an unsigned integer)"])
