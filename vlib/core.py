"""Access to the package under test and the translation of cases into reference objects."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import ref, gen
from vlib.fw import require, Violation

_g = None


def g():
    global _g
    if _g is None:
        import scipy  # the extension must be loaded after scipy
        import gaussianfft, gaussianfft.advanced
        _g = gaussianfft
    return _g


def mk_vario(c):
    """c: {type, main, perp, depth, azi, dip, power} -> (package variogram, reference)"""
    kw = {}
    if c.get("perp") is not None:
        kw["perp_range"] = c["perp"]
    if c.get("depth") is not None:
        kw["depth_range"] = c["depth"]
    if c.get("azi"):
        kw["azimuth"] = c["azi"]
    if c.get("dip"):
        kw["dip"] = c["dip"]
    if c.get("power") is not None:
        kw["power"] = c["power"]
    name = c["type"]
    cs = c.get("casing", 0)
    if cs == 1:
        name = name.upper()
    elif cs == 2:
        name = name.capitalize()
    elif cs == 3:
        name = g().VariogramType[{"matern32": "MATERN_32", "matern52": "MATERN_52", "matern72": "MATERN_72"}.get(
            name, name.upper())]
    elif cs == 4:
        name = "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(name))
    v = g().variogram(name, c["main"], **kw)
    return v, mk_ref(c)


def mk_ref(c):
    m = c["main"]
    p = c.get("perp")
    d = c.get("depth")
    p = m if p is None or p <= 0 else p
    d = m if d is None or d <= 0 else d
    pw = c.get("power")
    return ref.Vario(c["type"], m, p, d, math.radians(c.get("azi") or 0.0), math.radians(c.get("dip") or 0.0),
                     1.5 if pw is None else pw)


@st.composite
def sim_case(draw, dims=(1, 2, 3), smooth=False, pads="mixed", budget=60000, types=None, power_min=0.3):
    nd = draw(st.sampled_from(list(dims)))
    t = draw(st.sampled_from(types or ref.TYPES))
    p = draw(gen.power()) if t == "general_exponential" else 1.5
    p = max(p, power_min)
    cap = {1: 3000, 2: 60, 3: 14}[nd]
    n = []
    for k in range(nd):
        lo = 1 if k == 0 else 2
        big = draw(st.integers(0, 3))
        n.append(draw(st.integers(lo, 12 if big else cap)))
    d = [draw(st.sampled_from([1.0, 0.5, 2.0, 10.0, 0.1, 3.7])) for _ in range(nd)]
    # ranges in units of cells: long ranges need much padding
    rat = max(ref.ratio(t, p), 1.0)
    rmax = {1: 400, 2: 30, 3: 6}[nd] / rat
    base = min(d)
    r = [float("%.5g" % (draw(gen.logfloat(0.2, max(rmax, 1.0))) * base)) for _ in range(3)]
    iso = draw(st.integers(0, 3)) == 0
    c = {"nd": nd, "type": t, "main": r[0], "n": n, "d": d, "seed": draw(gen.seed32())}
    if not iso:
        c["perp"], c["depth"] = r[1], r[2]
        if draw(st.booleans()):
            c["azi"] = draw(gen.angle())
            c["dip"] = draw(gen.angle()) if nd == 3 or draw(st.booleans()) else 0.0
    if t == "general_exponential":
        c["power"] = p
    if pads == "none":
        c["pad"] = None
    else:
        c["pad"] = None if draw(st.integers(0, 2)) == 0 else [
            draw(st.one_of(st.just(-1), st.just(0), st.integers(0, {1: 400, 2: 30, 3: 12}[nd]))) for _ in range(nd)]
    if smooth:
        c["s"] = [draw(st.sampled_from([1.0, 0.5, 0.1, 0.01, 0.9, 0.001, 1.5])) for _ in range(nd)]
    return c


def plan(c, v):
    """-> (total sizes, ambiguous) of the embedding grid for this case."""
    nd = c["nd"]
    rr = v.pad_ranges(nd)
    tot = []
    amb = False
    for k in range(nd):
        p = c["pad"][k] if c.get("pad") else -1
        if p < 0:
            amb = amb or v.pad_sensitive(c["n"][k], rr[k], c["d"][k])
            p = v.pad1(c["n"][k], rr[k], c["d"][k])
        tot.append(ref.smooth7(c["n"][k] + p, nd > 1 and k == 0))
    return tot, amb


def call_sim(c, v):
    n, d = c["n"], c["d"]
    args = []
    for k in range(c["nd"]):
        args += [n[k], d[k]]
    kw = {}
    if c.get("pad"):
        for k, nm in enumerate(("padx", "pady", "padz")[:c["nd"]]):
            if c["pad"][k] >= 0 or k == 0:
                kw[nm] = c["pad"][k]
    if c.get("s"):
        for k, nm in enumerate(("sx", "sy", "sz")[:c["nd"]]):
            kw[nm] = c["s"][k]
    if kw:
        return g().advanced.simulate(v, *args, **kw)
    if c["seed"] % 3 == 0:
        return g().advanced.simulate(v, *args)
    return g().simulate(v, *args)


def noise(rng, tot):
    """Consumes the stream like the library documents: 1D/2D seed a local stream, 3D draws directly."""
    m = int(np.prod(tot))
    if len(tot) < 3:
        return ref.Rng(rng.u32()).norms(m).reshape(tot)
    return rng.norms(m).reshape(tot)


def check_field(z, want, lmax, what, extra=0.0, n=None):
    require(isinstance(z, np.ndarray) and z.ndim == 1 and z.dtype == np.float64, "%s: not a 1-D float64 array" % what)
    w = want.flatten(order="F")
    require(z.shape == w.shape, "%s: %d values, expected %d" % (what, z.size, w.size))
    require(bool(np.all(np.isfinite(z))), "%s: non-finite values" % what)
    tol = 1e-9 + 20 * math.sqrt(2.3e-16 * max(lmax, 1.0)) + extra
    e = float(np.max(np.abs(z - w))) if z.size else 0.0
    require(e <= tol, "%s: field differs from the reference by %.3g (tolerance %.3g)" % (what, e, tol))
