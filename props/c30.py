"""C30: the Python package: its names, and the utilities that estimate variograms from simulated fields."""
import contextlib, io, math
import numpy as np
from hypothesis import strategies as st
from vlib import core, gen, ref
from vlib.fw import Prop, Sub, require

RULE = ("Grids of 1 to 3 dimensions, variogram types, paddings, resolutions, lists of reference points and numbers of "
        "simulations; every simulated field is recorded and the variogram estimated again from the fields by brute force. "
        "Non-trivial: at least two bins hold data and the fields are not constant.")


def util():
    core.g()
    import gaussianfft.util as u
    import gaussianfft.util.empirical_variogram as e1
    import gaussianfft.util.empirical_variogram2 as e2
    import gaussianfft.util.padding_analyzer as pa
    import gaussianfft.util.resource_extrapolator as rx
    return u, e1, e2, pa, rx


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a, **k)


def points(n, d):
    return [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))
    require(bool(np.all(ok)), "%s: got %s, expected %s", what, a, b)


def bins(n, d, res):
    """Width, number of bins: the diagonal of the grid is divided into bins about `res` wide."""
    diag = math.sqrt(sum(((m - 1) * s) ** 2 for m, s in zip(n, d)))
    return diag, int(diag / res)


def variogram_of(field, refs, n, d, diag, nb):
    """mean over the reference points of the mean over each bin of 1 - (difference squared)/2; and the count of means."""
    tot, cnt = np.zeros(nb), np.zeros(nb)
    idx = np.array(points(n, d))
    pos = idx * np.array(d)
    val = field[idx[:, 0], idx[:, 1], idx[:, 2]]
    for r in refs:
        h = np.sqrt(((pos - np.array(r) * np.array(d)) ** 2).sum(axis=1))
        b = np.minimum((h * nb / diag).astype(int), nb - 1)
        g2 = (val - field[r]) ** 2
        for k in range(nb):
            m = b == k
            if m.any():
                tot[k] += 1 - g2[m].mean() / 2
                cnt[k] += 1
    with np.errstate(all="ignore"):
        return tot / cnt, cnt


def ambiguous(refs, n, d, diag, nb):
    """bins next to an edge that a distance falls on (to rounding)"""
    out = set()
    idx = np.array(points(n, d)) * np.array(d)
    for r in refs:
        h = np.sqrt(((idx - np.array(r) * np.array(d)) ** 2).sum(axis=1)) * nb / diag
        for x in h[np.abs(h - np.round(h)) < 1e-9]:
            e = int(round(x))
            if 0 < e < nb:
                out |= {e - 1, e}
    return out


@st.composite
def case(draw):
    nd = draw(st.integers(1, 3))
    cap = {1: 40, 2: 9, 3: 4}[nd]
    n = [draw(st.integers(2, cap)) for _ in range(nd)] + [1] * (3 - nd)
    c = {"n": n, "d": [draw(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.7, 25.0])) if k < nd else 0.0 for k in range(3)],
         "type": draw(st.sampled_from(ref.TYPES)), "seed": draw(gen.seed32()),
         "pad": [draw(st.integers(0, 12)) for _ in range(3)], "nmax": draw(st.integers(1, 7)),
         "step": draw(st.sampled_from([0, 1, 2, 3, 10])), "res": draw(st.sampled_from([0.34, 0.5, 1.0, 1.21, 2.3])),
         "strategy": draw(st.sampled_from(["origo", "center", "random", "regular", "all", "list"])),
         "k": draw(st.integers(1, 6)), "offset": draw(st.integers(0, 3)), "rs": draw(st.integers(0, 1000))}
    c["main"] = draw(gen.nice(0.5, 8.0)) * c["d"][0]
    return c


def ref_points(ev, c, pts):
    s, n = c["strategy"], c["n"]
    k = min(c["k"], len(pts))
    if s == "origo":
        got, want = ev.pick_reference_points("origo"), [(0, 0, 0)]
    elif s == "center":
        got, want = ev.pick_reference_points("center"), [(n[0] // 2, n[1] // 2, n[2] // 2)]
    elif s == "all":
        got, want = ev.pick_reference_points("all"), pts
    elif s == "random":
        got = ev.pick_reference_points("random", k, seed=c["rs"])
        require(len(got) == k and len(set(map(tuple, got))) == k, "%d random points: %s", k, got)
        require(ev.pick_reference_points("random", k, seed=c["rs"]) == got, "the same seed gives other random points")
        want = got
    elif s == "regular":
        got = ev.pick_reference_points("regular", k, c["offset"])
        want = pts[c["offset"]::len(pts) // k]
    else:
        import random
        got = want = random.Random(c["rs"]).choices(pts, k=k)
    got = [tuple(int(x) for x in p) for p in got]
    require(set(got) <= set(pts), "points outside the grid: %s", got)
    require(got == [tuple(p) for p in want], "strategy %s: %s, expected %s", s, got, want)
    return got


def check_ev(c):
    u, e1 = util()[:2]
    g = core.g()
    n, d = c["n"], c["d"]
    res = c["res"] * d[0]
    diag, nb = bins(n, d, res)
    if nb < 1:
        return False
    v = g.variogram(c["type"], c["main"])
    ev = u.EmpiricalVariogram(v, n[0], d[0], n[1], d[1], n[2], d[2], *c["pad"])
    pts = points(n, d)
    close(ev.points, np.array(pts) * np.array(d), "points")
    require([tuple(p) for p in np.asarray(ev.indexes).tolist()] == pts, "indexes %s", ev.indexes)
    try:
        ev.pick_reference_points("nearest")
        require(False, "an unknown strategy is accepted")
    except ValueError:
        pass
    refs = ref_points(ev, c, pts)
    if c["strategy"] == "all" and len(pts) > 40:
        refs = refs[:40]
    if not refs:
        return False
    # one field is what advanced.simulate gives, in Fortran order
    g.seed(c["seed"])
    f = ev.simulate()
    g.seed(c["seed"])
    w = g.advanced.simulate(v, n[0], d[0], n[1], d[1], n[2], d[2], padx=c["pad"][0], pady=c["pad"][1], padz=c["pad"][2])
    require(bool(np.array_equal(f, np.asarray(w).reshape(n, order="F"))), "simulate() differs from advanced.simulate")
    log = []
    real = ev.simulate
    ev.simulate = lambda: log.append(real().copy()) or log[-1]
    r = quiet(ev.estimate_variogram, c["nmax"], res, refs, c["step"])
    require(len(r) == 5, "%d results", len(r))
    mid, est, ns, td, ca = r
    fields = log[-c["nmax"]:]
    require(len(log) >= c["nmax"], "%d fields were simulated", len(log))
    # only the fields of the estimate count: each must have been drawn once
    require(len(set(x.tobytes() for x in fields)) == c["nmax"] or c["type"] == "constant", "a field was used twice")
    want = [variogram_of(x, refs, n, d, diag, nb) for x in fields]
    wmid = (np.arange(nb) + 0.5) * diag / nb
    close(mid, wmid, "midpoints")
    keep = np.array([k not in ambiguous(refs, n, d, diag, nb) for k in range(nb)])
    mean = np.mean([a for a, _ in want], axis=0)
    require(np.shape(est) == (nb,), "shape %s", np.shape(est))
    close(np.asarray(est)[keep], mean[keep], "estimate")
    close(np.asarray(ns)[keep], sum(b for _, b in want)[keep], "number of samples")
    require(len(td["sim"]) == len(td["est"]) == c["nmax"] and min(td["sim"] + td["est"]) >= 0, "times %s", td)
    tm, tv = quiet(ev.true_variogram, res)
    close(tm, wmid, "midpoints of the true variogram")
    corr = np.array([v.corr(float(x)) for x in wmid])
    close(tv, corr, "true variogram")
    if c["step"] > 0:
        upto = [i + 1 for i in range(c["nmax"]) if i % c["step"] == 0]
        conv = np.array([np.mean([a for a, _ in want[:m]], axis=0) - corr for m in upto])
        close(np.asarray(ca.deltas)[:, keep], conv[:, keep], "convergence")
    else:
        require(len(ca.deltas) == 0, "convergence was analysed: %s", ca.deltas)
    return keep.sum() > 1 and c["type"] != "constant", [c["strategy"], "nd%d" % sum(m > 1 for m in n),
                                                        "conv" if c["step"] else "noconv",
                                                        "gaps" if np.isnan(mean).any() else "full"]


def check_dummy(c):
    """dummy_sim() has no variance: the estimate is the mean correlation of the bin."""
    u = util()[0]
    n, d = c["n"], c["d"]
    res = c["res"] * d[0]
    diag, nb = bins(n, d, res)
    if nb < 1:
        return False
    v = core.g().variogram(c["type"], c["main"])
    ev = u.EmpiricalVariogram(v, n[0], d[0], n[1], d[1], n[2], d[2], *c["pad"])
    ev.simulate = ev.dummy_sim
    mid, est, ns, _, _ = quiet(ev.estimate_variogram, c["nmax"], res, [(0, 0, 0)])
    pos = np.array(points(n, d)) * np.array(d)
    h = np.sqrt((pos ** 2).sum(axis=1))
    cor = np.array([v.corr(float(x)) for x in h])
    b = np.minimum((h * nb / diag).astype(int), nb - 1)
    amb = ambiguous([(0, 0, 0)], n, d, diag, nb)
    for k in range(nb):
        if k in amb:
            continue
        m = b == k
        if m.any():
            close(est[k], cor[m].mean(), "bin %d" % k)
            require(abs(h[m] - mid[k]).max() <= 0.5 * diag / nb * (1 + 1e-9), "bin %d at %.6g holds distances %s", k, mid[k], h[m])
            require(ns[k] == c["nmax"], "%s samples in bin %d", ns[k], k)
        else:
            require(bool(np.isnan(est[k])), "bin %d without data: %s", k, est[k])
    return nb > 2, ["nd%d" % sum(m > 1 for m in n)]


@st.composite
def case2(draw):
    nd = draw(st.integers(1, 3))
    big = draw(st.integers(0, 19)) == 7
    cap = ({1: 900, 2: 60, 3: 14} if big else {1: 40, 2: 9, 3: 4})[nd]
    return {"n": [draw(st.integers(cap * 2 // 3 if big else 2, cap)) for _ in range(nd)] + [1] * (3 - nd), "type": draw(st.sampled_from(ref.TYPES)),
            "seed": draw(gen.seed32()), "pad": [draw(st.integers(0, 12)) for _ in range(3)], "nmax": draw(st.integers(1, 2 if big else 5)),
            "close": draw(st.sampled_from([0.5, 1.5, 2.3, 4.9, 8.1])), "step": draw(st.integers(1, 1 if big else 5)),
            "main": draw(gen.nice(0.5, 8.0)), "smooth": draw(st.sampled_from([0.00001, 1.0, 0.5]))}


def check_ev2(c):
    e2 = util()[2]
    g = core.g()
    n = c["n"]
    v = g.variogram(c["type"], c["main"], c["main"], c["main"])
    old = e2.EmpiricalVariogram2.smoothing
    require(old == 0.00001, "default smoothing %s", old)
    try:
        e2.EmpiricalVariogram2.smoothing = c["smooth"]
        ev = e2.EmpiricalVariogram2(v, *n, *c["pad"], c["close"], c["step"])
        g.seed(c["seed"])
        got = ev.estimate_variogram(c["nmax"])
    finally:
        e2.EmpiricalVariogram2.smoothing = old
    g.seed(c["seed"])
    s = c["smooth"]
    fields = [np.asarray(g.advanced.simulate(v, n[0], 1.0, n[1], 1.0, n[2], 1.0, padx=c["pad"][0], pady=c["pad"][1],
                                             padz=c["pad"][2], sx=s, sy=s, sz=s)).reshape(n, order="F") for _ in range(c["nmax"])]
    for what, (x, y, e), keep in (("close", got[0], lambda p: math.sqrt(sum(a * a for a in p)) < c["close"]),
                                  ("sample", got[1], lambda p: all(a % c["step"] == 0 for a in p))):
        groups = {}
        for p in points(n, None):
            if keep(p):
                groups.setdefault(sum(a * a for a in p), []).append(p)
        ks = sorted(groups)
        o = np.argsort(x)
        close(np.asarray(x)[o], [math.sqrt(k) for k in ks], what + " distances")
        data = np.array([[np.mean([(f[p] - f[0, 0, 0]) ** 2 for p in groups[k]]) for k in ks] for f in fields])
        close(np.asarray(y)[o], data.mean(axis=0), what + " means")
        close(np.asarray(e)[o], data.std(axis=0), what + " deviations", 1e-7)
    return c["type"] != "constant" and len(groups) > 1, ["nd%d" % sum(m > 1 for m in n), "step%d" % c["step"]]


@st.composite
def case3(draw):
    nd = draw(st.sampled_from([1, 1, 2, 0]))
    return {"nd": nd, "n": draw(st.integers(4, 30 if nd != 2 else 7)), "L": draw(st.sampled_from([100.0, 1000.0, 7.0])),
            "drf": draw(st.sampled_from([1.0, 2.0, 1.5])), "nmax": draw(st.integers(1, 12)),
            "type": draw(st.sampled_from([t for t in ref.TYPES if t != "constant"])),
            "seed": draw(st.one_of(st.sampled_from([0, 1, 12313]), gen.seed32())),
            "ranges": draw(st.lists(st.sampled_from([0.05, 0.1, 0.3, 0.5]), min_size=1, max_size=3, unique=True)),
            "pads": draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 0.75]), min_size=1, max_size=3, unique=True))}


def check_padding(c):
    u, e1, _, pa, _ = util()
    g = core.g()
    calls = []
    seeds = []
    oldest, oldseed = u.EmpiricalVariogram.estimate_variogram, g.seed

    def spy(self, *a, **k):
        r = oldest(self, *a, **k)
        calls.append((self, a, k, r))
        return r

    def seedspy(*a):
        if a:
            seeds.append(a[0])
        return oldseed(*a)

    def run(seed):
        return quiet(pa.PaddingAnalyzer, list(c["ranges"]), list(c["pads"]), L=c["L"], n=c["n"], drf=c["drf"], nmax=c["nmax"],
                     vtype=c["type"], seed=seed, **({"ndims": c["nd"]} if c["nd"] else {}))
    u.EmpiricalVariogram.estimate_variogram = spy
    g.seed = seedspy
    try:
        r = run(c["seed"])
    finally:
        u.EmpiricalVariogram.estimate_variogram = oldest
        g.seed = oldseed
    require(seeds == [c["seed"]], "seeded with %s, expected %s", seeds, [c["seed"]])
    n, L = c["n"], c["L"]
    d = L / n
    nd = c["nd"] or 1
    pads = [int((p * L) / d) for p in c["pads"]]
    require(list(r.range) == c["ranges"], "ranges %s", r.range)
    close(r.padding_f, np.array(pads) / n, "padding fractions")
    diag, nb = bins([n, n if nd == 2 else 1, 1], [d, d, 0], c["drf"] * d)
    require(r.deltas.shape == (len(pads), len(c["ranges"]), nb), "deltas of shape %s", r.deltas.shape)
    mid = (np.arange(nb) + 0.5) * diag / nb
    close(r.grid, mid, "grid")
    require(len(calls) >= len(pads) * len(c["ranges"]), "%d estimates", len(calls))
    calls = calls[-len(pads) * len(c["ranges"]):]
    for m, (ev, a, k, res) in enumerate(calls):
        i, j = divmod(m, len(pads))
        require((ev.nx, ev.ny, ev.nz) == (n, n if nd == 2 else 1, 1) and abs(ev.dx - d) < 1e-12 * d and
                (nd == 1 or abs(ev.dy - d) < 1e-12 * d), "grid %s %s", (ev.nx, ev.ny, ev.nz), (ev.dx, ev.dy))
        require(ev.px == pads[j] and (nd == 1 or ev.py == pads[j]), "padding %d, expected %d", ev.px, pads[j])
        close(ev.v.corr(0.7 * d), g.variogram(c["type"], c["ranges"][i] * L).corr(0.7 * d), "variogram")
        if nd == 2:
            close(ev.v.corr(0.4 * d, 0.9 * d), g.variogram(c["type"], c["ranges"][i] * L).corr(0.4 * d, 0.9 * d), "variogram")
        close(r.deltas[j, i], res[4].deltas[-1], "deltas of padding %d range %d" % (j, i))
        close(res[0], mid, "distances")
        args = dict(zip(("nmax", "resolution", "reference_points", "analyze_convergence"), a), **k)
        require(args["nmax"] == c["nmax"] and abs(args["resolution"] - c["drf"] * d) < 1e-12 * d and
                [tuple(p) for p in args["reference_points"]] == [(0, 0, 0)], "estimated with %s", args)
    require(bool(np.array_equal(run(c["seed"]).deltas, r.deltas, equal_nan=True)), "the same seed gives another analysis")
    try:
        quiet(pa.PaddingAnalyzer, [0.1], [0.5], L=10, n=4, nmax=1, ndims=3)
        require(False, "three dimensions are accepted")
    except NotImplementedError:
        pass
    return nb > 1, ["nd%d" % nd, "seed0" if c["seed"] == 0 else "seed"]


@st.composite
def case4(draw):
    return {"nmin": draw(st.integers(2, 6)), "span": draw(st.integers(0, 9)), "nstep": draw(st.integers(1, 4)),
            "nd": draw(st.integers(1, 3)), "type": draw(st.sampled_from(ref.TYPES))}


def check_resource(c):
    rx = util()[4]
    g = core.g()
    seen = []
    old = g.advanced.simulate
    e = rx.ResourceExtrapolator(c["nmin"], c["nmin"] + c["span"], c["nstep"], c["nd"])

    def spy(v, *a, **k):
        z = old(v, *a, **k)
        seen.append((a, len(z)))
        return z
    g.advanced.simulate = spy
    try:
        x, y, sol = quiet(e.extrapolate, 100, c["type"])
        data = quiet(e.generate)
    finally:
        g.advanced.simulate = old
    ns = list(range(c["nmin"], c["nmin"] + c["span"] + 1, c["nstep"]))
    require([p[0] for p in data] == ns and all(p[1] > 0 for p in data), "timings %s", data)
    close(x, [float(m) ** c["nd"] for m in ns], "numbers of cells")
    require(np.shape(y) == (len(ns),) and bool(np.all(np.asarray(y) > 0)), "times %s", y)
    close(sol, float(np.dot(x, y) / np.dot(x, x)), "time per cell")
    require([m for _, m in seen] == [m ** c["nd"] for m in ns] * 2, "simulated sizes %s", [m for _, m in seen])
    for a, _ in seen:
        require(abs(a[1] * (a[0] - 1) - 1000.0) < 1e-9, "grid of length %s", a[1] * (a[0] - 1))
    return len(ns) > 1, ["nd%d" % c["nd"]]


@st.composite
def case5(draw):
    return {"order": draw(st.permutations(["gaussianfft", "gaussianfft.advanced", "gaussianfft.util"]))}


def check_names(c):
    """Every public name is there: a star import of the package and of its parts succeeds and brings the documented names."""
    util()
    import importlib
    doc = {"gaussianfft": ["variogram", "simulate", "seed", "advanced", "simulation_size", "quote", "Variogram", "VariogramType",
                           "util", "__version__"],
           "gaussianfft.advanced": ["simulate"],
           "gaussianfft.util": ["EmpiricalVariogram", "PaddingAnalyzer", "PaddingAnalyzerDefaults"]}
    for m in c["order"]:
        ns = {}
        try:
            exec("from %s import *" % m, ns)
        except AttributeError as ex:
            require(False, "star import of %s: %s", m, ex)
        mod = importlib.import_module(m)
        for nm in doc[m]:
            require(nm in ns and ns[nm] is getattr(mod, nm), "%s does not bring %s", m, nm)
        for nm in mod.__all__:
            require(nm in ns, "%s does not bring %s", m, nm)
    g = core.g()
    for t in g.VariogramType:
        a, b = g.variogram(t, 3.0), g.variogram(t.value, 3.0)
        require(isinstance(a, g.Variogram) and a.corr(1.0, 0.5, 0.2) == b.corr(1.0, 0.5, 0.2), "variogram type %s", t)
    require(sorted(t.value for t in g.VariogramType) == sorted(ref.TYPES), "types %s", list(g.VariogramType))
    return True


PROP = Prop("C30", ["ref", "ext"], [
    Sub("estimate", case, check_ev, 2000, 12000, shards=3),
    Sub("dummy", case, check_dummy, 2000, 12000, shards=1),
    Sub("estimate2", case2, check_ev2, 2000, 12000, shards=1),
    Sub("padding", case3, check_padding, 400, 2500, shards=1),
    Sub("resource", case4, check_resource, 200, 1000, shards=1),
    Sub("names", case5, check_names, 6, 6),
], RULE, ["a bin with a distance within rounding of its edge is not compared", "the timings are only checked for their number and sign"])
