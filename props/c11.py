"""C11: probability distributions and special functions."""
import math
import numpy as np
import scipy.stats as ss, scipy.special as sp
from hypothesis import strategies as st
from vlib import ref, gen
from vlib.fw import Prop, Sub, require, require_close, Violation

RULE = ("Generated parameters, points, probabilities and seeds for 13 distributions: density, distribution function and quantile against "
        "scipy (discretised Beta against its definition), SetParameters against construction, clones, and draws from the global and an "
        "own generator against the reference stream; truncated normal draws; Poisson draws for large means by chi-square (20000 draws, "
        "alarm below 1e-10); special functions against scipy. Non-trivial: the point lies inside the support.")


def V():
    import vrand
    return vrand


def raises(f, *a):
    try:
        r = f(*a)
    except Exception:
        return True
    raise Violation("%r returned %r instead of raising" % (a, r))


# ---- special functions
@st.composite
def fun_case(draw):
    f = draw(st.sampled_from(["erf", "erfc", "erf_inv", "erfc_inv", "gammln", "gammp", "invgammp", "bico", "q01"]))
    c = {"f": f}
    if f in ("erf", "erfc"):
        c["x"] = draw(st.one_of(gen.nice(-6, 6), gen.nice(-30, 30), st.sampled_from([0.0, 0.5, -0.5, 1.5, 2.5, 4.5, 14.0, 28.0, 1e-11, -1e-11, 1e-9]), gen.logfloat(1e-14, 26)))
    elif f == "erf_inv":
        c["x"] = draw(st.one_of(gen.nice(-1.2, 1.2), st.sampled_from([1.0, -1.0, 0.0, 2.0]), gen.logfloat(1e-16, 0.5).map(lambda e: 1 - e), gen.logfloat(1e-16, 0.5).map(lambda e: e - 1)))
    elif f == "erfc_inv":
        c["x"] = draw(st.one_of(gen.nice(-0.2, 2.2), st.sampled_from([0.0, 2.0, 1.0, -3.0]), gen.logfloat(1e-300, 1.0), gen.logfloat(1e-15, 1.0).map(lambda e: 2 - e)))
    elif f == "q01":
        c["x"] = draw(st.one_of(gen.nice(0.001, 0.999), gen.logfloat(1e-300, 0.5), gen.logfloat(1e-15, 0.5).map(lambda e: 1 - e)))
    elif f == "gammln":
        c["x"] = draw(st.one_of(gen.logfloat(1e-6, 1e7), st.integers(1, 200).map(float), st.sampled_from([0.0, -1.0, -0.5])))
    elif f == "gammp":
        a = draw(st.one_of(gen.logfloat(0.05, 99), gen.logfloat(100, 1e4), st.sampled_from([0.0, -1.0, 1.0, 100.0])))
        c["a"] = a
        c["x"] = draw(st.one_of(st.just(0.0), st.just(-0.1), gen.nice(-6, 6).map(lambda t: max(0.0, round(abs(a) + t * math.sqrt(abs(a)), 6))), gen.logfloat(1e-6, 50), gen.logfloat(1e-3, 1e5)))
    elif f == "invgammp":
        c["a"] = draw(gen.logfloat(0.2, 2000))
        c["x"] = draw(st.one_of(gen.nice(0.0001, 0.9999), st.just(0.0)))
    else:
        c["n"] = draw(st.one_of(st.integers(-1, 40), st.integers(0, 900)))
        c["k"] = draw(st.integers(-1, max(0, c["n"]) + 1))
    return c


def check_fun(c):
    v, f = V(), c["f"]
    if f == "bico":
        n, k = c["n"], c["k"]
        if n < 0 or k < 0 or k > n:
            raises(v.bico, n, k)
            return False, [f]
        require_close(v.bico(n, k), float(math.comb(n, k)), "bico(%d,%d)" % (n, k), 1e-10 if n > 40 else 1e-12)
        if n <= 40 and math.comb(n, k) < 1e9:
            require(v.bico(n, k) == math.comb(n, k), "bico(%d,%d)", n, k)
        return n > 1, [f]
    x = c["x"]
    if f in ("erf", "erfc"):
        require_close(getattr(v, f)(x), float(getattr(sp, f)(x)), "%s(%r)" % (f, x), 5e-13, 1e-307)
        return x != 0, [f]
    if f == "erf_inv":
        if abs(x) >= 1:
            raises(v.erf_inv, x)
            return False, [f, "domain"]
        require_close(v.erf_inv(x), float(sp.erfinv(x)), "erf_inv(%r)" % x, 1e-11, 1e-15)
        return True, [f]
    if f == "erfc_inv":
        if x <= 0 or x >= 2:
            raises(v.erfc_inv, x)
            return False, [f, "domain"]
        # relative error of the argument 1-x near 1
        require_close(v.erfc_inv(x), float(sp.erfcinv(x)), "erfc_inv(%r)" % x, 1e-11, 1e-15)
        return True, [f]
    if f == "q01":
        require_close(v.quantile01(x), float(sp.ndtri(x)), "standard normal quantile of %r" % x, 1e-11, 1e-14)
        return True, [f]
    if f == "gammln":
        if x <= 0:
            raises(v.gammln, x)
            return False, [f, "domain"]
        require_close(v.gammln(x), float(sp.gammaln(x)), "gammln(%r)" % x, 1e-12, 1e-12)
        return True, [f]
    if f == "gammp":
        a = c["a"]
        if a <= 0 or x < 0:
            raises(v.gammp, a, x)
            return False, [f, "domain"]
        require_close(v.gammp(a, x), float(sp.gammainc(a, x)), "gammp(%r,%r)" % (a, x), 1e-9 if a < 100 else 0, 1e-11)
        return x > 0, [f]
    a = c["a"]
    got = v.invgammp(x, a)
    if x == 0:
        require(got == 0, "invgammp(0)")
        return False, [f]
    want = float(sp.gammaincinv(a, x))
    require_close(got, want, "invgammp(%r,%r)" % (x, a), 1e-7)
    return True, [f]


# ---- distributions
class BetaRef:
    """nx equal bins, weighted by the density at their centre; linear quantiles between k/nx."""

    def __init__(self, lo, hi, a, b, nx):
        x = (np.arange(nx) + 0.5) / nx
        l = (a - 1) * np.log(x) + (b - 1) * np.log(1 - x)
        w = np.exp(l - l.max())
        w /= w.sum()
        self.lo, self.hi, self.nx, self.w = lo, hi, nx, w
        self.c = np.concatenate([[0], np.cumsum(w)])
        self.edges = lo + (hi - lo) * np.arange(nx + 1) / nx
        k = np.arange(nx + 1) / nx
        self.q = np.interp(k, self.c, self.edges)
        self.q[0] = lo

    def pdf(self, x):
        if x < self.lo or x > self.hi:
            return 0.0
        t = (x - self.lo) / (self.hi - self.lo) * self.nx
        if abs(t - round(t)) < 1e-6:
            return None
        return self.w[int(t)] / ((self.hi - self.lo) / self.nx)

    def cdf(self, x):
        return float(np.interp(x, self.edges, self.c)) if x < self.hi else 1.0

    def ppf(self, p):
        if p >= 1:
            return self.hi
        if p * self.nx > self.nx - 1 and self.w[-1] < 1e-9:
            return None     # the distribution function is 1 up to rounding before the last bin
        return float(np.interp(p, np.arange(self.nx + 1) / self.nx, self.q))


class F:
    """pdf, cdf, ppf as plain functions."""

    def __init__(self, pdf, cdf, ppf, lo=-math.inf, hi=math.inf):
        self.pdf, self.cdf, self.ppf, self.lo, self.hi = pdf, cdf, ppf, lo, hi


def sdist(d, lo, hi):
    return F(lambda x: float(d.pdf(x)), lambda x: float(d.cdf(x)), lambda p: float(d.ppf(p)), lo, hi)


def tri(a, m, b):
    def pdf(x):
        if x < a or x > b:
            return 0.0
        h = 2 / (b - a)
        if x == m:
            return h
        return h * (x - a) / (m - a) if x < m else h * (b - x) / (b - m)

    def cdf(x):
        if x <= a:
            return 0.0
        if x >= b:
            return 1.0
        return (x - a) ** 2 / ((b - a) * (m - a)) if x <= m and m > a else 1 - (b - x) ** 2 / ((b - a) * (b - m))

    def ppf(p):
        if p <= (m - a) / (b - a):
            return a + math.sqrt(p * (b - a) * (m - a))
        return b - math.sqrt((1 - p) * (b - a) * (b - m))
    return F(pdf, cdf, ppf, a, b)


def split(a, m, b):
    def pdf(x):
        if x < a or x > b:
            return 0.0
        l, r = 0.5 / (m - a), 0.5 / (b - m)
        return l if x < m else r if x > m else (l + r) / 2

    def cdf(x):
        return 0.0 if x <= a else 1.0 if x >= b else 0.5 * (x - a) / (m - a) if x <= m else 0.5 + 0.5 * (x - m) / (b - m)
    return F(pdf, cdf, lambda p: a + 2 * p * (m - a) if p <= 0.5 else m + (2 * p - 1) * (b - m), a, b)


def fractal(a, b, d):
    A, B = a ** -d, b ** -d
    return F(lambda x: d * x ** (-d - 1) / (A - B) if a < x < b else 0.0 if x not in (a, b) else None,
             lambda x: 0.0 if x <= a else 1.0 if x >= b else (A - x ** -d) / (A - B), lambda p: ((1 - p) * A + p * B) ** (-1 / d), a, b)


CONT = ["Normal", "LogNormal", "Beta", "BetaWithEndMass", "Triangular", "Uniform", "SplitUniform", "ChiSquared", "Delta", "Fractal"]
SETTABLE = {"Normal", "LogNormal", "Triangular", "Uniform", "SplitUniform", "Delta"}
DEFAULT = {"Normal": [0.0, 1.0], "LogNormal": [0.0, 1.0], "Triangular": [-1.0, 0.0, 1.0], "Uniform": [0.0, 1.0], "SplitUniform": [0.0, 0.5, 1.0], "Delta": [0.0]}


def params(draw, d):
    u = gen.nice(-50, 50, 3)
    if d == "Normal":
        return [draw(u), draw(gen.logfloat(1e-3, 1e3))]
    if d == "LogNormal":
        return [draw(gen.nice(-3, 3, 3)), draw(gen.nice(0.05, 2, 3))]
    if d in ("Beta", "BetaWithEndMass"):
        lo = draw(u)
        r = [lo, lo + draw(gen.nice(0.01, 50, 3))]
        if d == "BetaWithEndMass":
            p = draw(gen.nice(0, 0.6, 3))
            r += [p, draw(gen.nice(0, 0.95 - p, 3))]
        return r + [draw(gen.nice(0.3, 8, 3)), draw(gen.nice(0.3, 8, 3)), draw(st.one_of(st.integers(1, 12), st.just(200), st.integers(2, 400)))]
    if d in ("Triangular", "SplitUniform", "Uniform"):
        lo = draw(u)
        w = draw(gen.nice(0.01, 50, 3))
        if d == "Uniform":
            return [lo, lo + w]
        f = draw(st.one_of(st.sampled_from([0.0, 1.0] if d == "Triangular" else [0.5]), gen.nice(0.01, 0.99, 3)))
        return [lo, lo + w if f == 1 else lo + f * w, lo + w]
    if d == "ChiSquared":
        return [draw(st.one_of(st.integers(1, 40).map(float), gen.nice(0.5, 400, 2)))]
    if d == "Delta":
        return [draw(u)]
    lo = draw(gen.logfloat(1e-2, 1e2))
    return [lo, lo * draw(gen.nice(1.05, 1000, 3)), draw(gen.nice(0.3, 4, 3))]


def make_ref(d, p):
    if d == "Normal":
        return sdist(ss.norm(p[0], p[1]), -math.inf, math.inf)
    if d == "LogNormal":
        return sdist(ss.lognorm(p[1], scale=math.exp(p[0])), 0, math.inf)
    if d == "Beta":
        b = BetaRef(*p)
        return F(b.pdf, b.cdf, b.ppf, p[0], p[1])
    if d == "BetaWithEndMass":
        lo, hi, p0, p1 = p[:4]
        b = BetaRef(lo, hi, *p[4:])
        f = 1 - p0 - p1

        def ppf(q):
            if abs(q - p0) < 1e-9 or abs(q - (1 - p1)) < 1e-9:
                return None
            return lo if q <= p0 else hi if q >= 1 - p1 else b.ppf((q - p0) / f)

        def pdf(x):
            if x in (lo, hi):
                return math.inf
            r = b.pdf(x)
            return None if r is None else f * r
        return F(pdf, lambda x: 0.0 if x < lo else 1.0 if x >= hi else p0 + f * b.cdf(x), ppf, lo, hi)
    if d == "Uniform":
        return sdist(ss.uniform(p[0], p[1] - p[0]), p[0], p[1])
    if d == "ChiSquared":
        return sdist(ss.chi2(p[0]), 0, math.inf)
    if d == "Delta":
        return F(lambda x: math.inf if x == p[0] else 0.0, lambda x: 1.0 if x >= p[0] else 0.0, lambda q: p[0], p[0], p[0])
    return {"Triangular": tri, "SplitUniform": split, "Fractal": fractal}[d](*p)


@st.composite
def cont_case(draw):
    d = draw(st.sampled_from(CONT))
    c = {"d": d, "p": params(draw, d), "x": draw(gen.nice(-0.2, 1.2)), "edge": draw(st.sampled_from([None] * 6 + ["lo", "hi", "lo+", "hi-"])),
         "q": draw(st.one_of(gen.nice(0.0001, 0.9999), st.sampled_from([0.5, 0.25]), gen.logfloat(1e-9, 1e-3))), "seed": draw(gen.seed32()),
         "n": draw(st.integers(1, 6)), "how": draw(st.sampled_from(["new", "set", "default"]))}
    if d in SETTABLE:
        c["p2"] = params(draw, d)
    return c


def check_cont(c):
    v, d, p = V(), c["d"], c["p"]
    cls = getattr(v, d)
    how = c["how"] if d in SETTABLE else "new"
    if how == "default":
        o, p = cls(), DEFAULT[d]
    elif how == "set":
        o = cls(*c["p2"])
        o.set(*p)
    else:
        o = cls(*p)
    r = make_ref(d, p)
    q = c["q"]
    # a point: from the quantiles, a little outside, or at the ends of the support
    if c["edge"] and math.isfinite(r.lo) and math.isfinite(r.hi):
        x = {"lo": r.lo, "hi": r.hi, "lo+": np.nextafter(r.lo, math.inf), "hi-": np.nextafter(r.hi, -math.inf)}[c["edge"]]
    elif math.isfinite(r.hi):
        x = r.lo + c["x"] * ((r.hi - r.lo) or 1.0)
    elif math.isfinite(r.lo):
        t = c["x"]
        x = (t if t > 0 or d == "LogNormal" else t) * 1.0
        x = r.ppf(0.99) * t if t > 0 or d == "ChiSquared" else r.ppf(0.5)
        if x == 0:
            x = r.ppf(0.5)
    else:
        x = r.ppf(0.5) + (c["x"] - 0.5) * 12 * (r.ppf(0.8) - r.ppf(0.2))
    x = float(x)
    oc = o.clone()
    if how != "new":
        o2 = o.clone()
        o.set(*c.get("p2", p))       # the clone must not follow
        o, oc = o2, o2.clone()
    want = r.pdf(x)
    if want is not None:
        require_close(o.pdf(x), want, "%s%s density at %r" % (d, p, x), 1e-8, 1e-300)
    require_close(o.cdf(x), r.cdf(x), "%s%s distribution function at %r" % (d, p, x), 1e-8, 1e-11)
    want = r.ppf(q)
    if d == "ChiSquared":
        if 1e-4 <= q:
            require_close(o.quantile(q), want, "%s%s quantile of %r" % (d, p, q), 2e-7)
    elif want is not None:
        sc = abs(p[0]) + (p[-1] if d in ("Triangular",) else 0) if d != "LogNormal" else 0
        require_close(o.quantile(q), want, "%s%s quantile of %r" % (d, p, q), 1e-9, 1e-9 * (r.hi - r.lo) if math.isfinite(r.hi) else 1e-11 * sc)
    require(oc.pdf(x) == o.pdf(x) and oc.cdf(x) == o.cdf(x) and oc.quantile(q) == o.quantile(q), "%s clone differs", d)
    # draws
    v.init_seed(c["seed"])
    g = v.Gen(c["seed"])
    rng = ref.Rng(c["seed"])
    a = o.drawn(None, c["n"])
    b = o.drawn(g, c["n"])
    require(a == b, "%s draws from the global and an own generator differ: %s %s", d, a, b)
    for k in range(c["n"]):
        if d == "Normal":
            w = p[0] + p[1] * rng.norm()
        elif d == "LogNormal":
            w = math.exp(p[0] + p[1] * rng.norm())
        else:
            w = o.quantile(rng.unif())
        require_close(a[k], w, "%s%s draw %d with seed %d" % (d, p, k, c["seed"]), 1e-12, 1e-12)
    if d in ("Beta", "BetaWithEndMass"):
        require(o.clone().cdf(p[1]) == 1.0 and list(cls(*p).info()) == [p[0], p[1], p[1] - p[0]], "%s limits", d)
    return r.lo <= x <= r.hi, [d, how]


# ---- discrete
@st.composite
def disc_case(draw):
    d = draw(st.sampled_from(["Binomial", "Poisson", "GeneralDiscrete"]))
    if d == "Binomial":
        n = draw(st.one_of(st.integers(0, 30), st.integers(0, 3000)))
        p = [n, draw(st.one_of(gen.nice(0, 1), st.sampled_from([0.0, 1.0, 0.5])))]
        x = draw(st.one_of(st.integers(-1, n + 1), st.integers(-6, 6).map(lambda t: int(n * p[1] + t * math.sqrt(n * p[1] * (1 - p[1])) * 0.7))))
    elif d == "Poisson":
        p = [draw(st.one_of(gen.nice(0.05, 9.99, 3), gen.nice(10, 60, 2), gen.logfloat(10, 1500)))]
        x = draw(st.one_of(st.integers(-1, 25), st.integers(-6, 6).map(lambda t: max(-1, int(p[0] + t * math.sqrt(p[0]) * 0.7)))))
    else:
        w = draw(st.lists(st.one_of(st.integers(0, 6).map(float), gen.nice(0, 3)), min_size=1, max_size=12))
        if sum(w) <= 0:
            w[-1] = 1.0
        p = [w]
        x = draw(st.integers(0, len(w) - 1))
    return {"d": d, "p": p, "x": x, "q": draw(st.one_of(gen.nice(0, 1), gen.logfloat(1e-9, 1e-2).map(lambda e: 1 - e), st.just(1.0), st.just(0.0))),
            "seed": draw(gen.seed32()), "n": draw(st.integers(1, 8))}


def check_disc(c):
    v, d, p = V(), c["d"], c["p"]
    o = getattr(v, d)(*p)
    if d == "GeneralDiscrete":
        w = np.array(p[0]) / math.fsum(p[0])
        pdf, cdf, top = (lambda k: w[k]), (lambda k: float(w[:k + 1].sum())), len(w) - 1
        require(o.n() == len(w), "size")
    else:
        s = ss.binom(*p) if d == "Binomial" else ss.poisson(p[0])
        pdf, cdf, top = (lambda k: float(s.pmf(k))), (lambda k: float(s.cdf(k))), (p[0] if d == "Binomial" else None)
    x = c["x"]
    require_close(o.pdf(x), pdf(x), "%s%s density at %d" % (d, p, x), 1e-7, 1e-290)
    require_close(o.cdf(x), cdf(x), "%s%s distribution function at %d" % (d, p, x), 1e-8, 1e-9)

    def isq(k, q, eps=2e-9):
        return 0 <= k and (top is None or k <= top) and cdf(k) >= q - eps and (k == 0 or cdf(k - 1) <= q + eps)

    q = c["q"]
    if not (d == "Poisson" and q == 1.0):
        k = o.quantile(q)
        require(isq(k, q), "%s%s quantile of %r is %d (distribution function %r, below it %r)", d, p, q, k, cdf(k) if k >= 0 else None, cdf(k - 1))
    oc = o.clone()
    require(oc.pdf(x) == o.pdf(x) and oc.cdf(x) == o.cdf(x), "clone")
    v.init_seed(c["seed"])
    a = o.drawn(None, c["n"])
    b = oc.drawn(v.Gen(c["seed"]), c["n"])
    require(a == b, "%s%s draws from the global and an own generator differ: %s %s", d, p, a, b)
    if d != "Poisson" or p[0] < 10:
        rng = ref.Rng(c["seed"])
        for k in range(c["n"]):
            u = rng.unif()
            require(isq(a[k], u), "%s%s draw %d is not the quantile of %r", d, p, a[k], u)
    else:
        require(min(a) >= 0, "negative Poisson draw")
    return 0 <= x and (top is None or x <= top), [d]


@st.composite
def pois_case(draw):
    return {"lam": draw(st.one_of(gen.nice(10, 14, 3), gen.nice(10, 60, 2), gen.logfloat(10, 3000))), "seed": draw(gen.seed32()), "g": draw(st.booleans())}


def check_pois(c):
    v = V()
    o = v.Poisson(c["lam"])
    n = 20000
    a = o.drawn(v.Gen(c["seed"]), n)
    v.init_seed(c["seed"])
    b = o.drawn(None, n)
    if a != b:
        q = next(i for i in range(n) if a[i] != b[i])
        require(False, "Poisson(%g) draw %d: %d from an own generator, %d from the global one", c["lam"], q, a[q], b[q])
    a = np.array(a)
    s = ss.poisson(c["lam"])
    k = np.arange(0, int(c["lam"] + 12 * math.sqrt(c["lam"])) + 20)
    e = n * s.pmf(k)
    step = max(1, int(math.sqrt(c["lam"]) / 6))
    obs = np.bincount(np.clip(a, 0, len(k) - 1), minlength=len(k)).astype(float)
    # neighbouring values joined until 40 are expected in each class
    O, E, so, se = [], [], 0.0, 0.0
    for i in range(len(k)):
        so += obs[i]
        se += e[i]
        if se >= 40 and (i + 1) % step == 0:
            O.append(so)
            E.append(se)
            so = se = 0.0
    O[-1] += so
    E[-1] += n - sum(E)
    O, E = np.array(O), np.array(E)
    chi = float(((O - E) ** 2 / E).sum())
    pv = float(ss.chi2.sf(chi, len(E) - 1))
    require(pv > 1e-10, "20000 Poisson(%g) draws: chi-square %g on %d classes (p = %g)", c["lam"], chi, len(E), pv)
    return True


# ---- truncated normal
@st.composite
def trunc_case(draw):
    m = draw(gen.nice(-50, 50, 3))
    s = draw(st.one_of(gen.logfloat(1e-3, 1e3), gen.logfloat(1e-3, 1e3), gen.logfloat(1e-3, 1e3), st.just(0.0)))
    a, b = draw(gen.nice(-7, 3.6)), draw(gen.nice(-3.6, 7))
    return {"m": m, "s": s, "a": a, "b": b, "k": draw(st.sampled_from(["lower", "upper", "two"])), "seed": draw(gen.seed32()), "g": draw(st.booleans()),
            "y": draw(st.one_of(gen.nice(0.001, 0.999), gen.logfloat(1e-14, 0.1), gen.logfloat(1e-12, 0.1).map(lambda e: 1 - e), st.sampled_from([0.5, -0.1, 1.1]))),
            "x": draw(gen.nice(-4, 4))}


def check_trunc(c):
    v = V()
    m, s = c["m"], c["s"]
    o = v.Normal(m, s)
    sc = s or 1.0
    lo, hi = m + c["a"] * sc, m + c["b"] * sc
    k = c["k"]
    rng = ref.Rng(c["seed"])
    v.init_seed(c["seed"])
    g = v.Gen(c["seed"]) if c["g"] else None
    call = {"lower": lambda: o.lower(lo, g), "upper": lambda: o.upper(hi, g), "two": lambda: o.two(lo, hi, g)}[k]
    if k == "two" and lo > hi:
        raises(call)
        return False, ["empty"]
    if s == 0:
        ok = {"lower": m >= lo, "upper": m <= hi, "two": lo <= m <= hi}[k]
        if ok:
            require(call() == m, "degenerate")
        else:
            raises(call)
        return False, ["degenerate"]
    a, b = (lo - m) / s, (hi - m) / s
    pl, pu = (sp.ndtr(a) if k != "upper" else 0.0), (sp.ndtr(b) if k != "lower" else 1.0)
    ok = pu - pl > 1e-4
    if ok:
        for _ in range(3):
            x = call()
            u = rng.unif_open()
            t = pl + u * (pu - pl) if k != "upper" else pu - u * pu
            z = (x - m) / s
            require((k == "upper" or x >= lo) and (k == "lower" or x <= hi + 1e-9 * s), "truncated draw %r outside [%r, %r]", x, lo, hi)
            zr = sp.ndtri(t) if t < 0.5 or k != "upper" else sp.ndtri(t)
            if min(abs(zr - a), abs(zr - b)) < 1e-6:
                return False, ["at a bound"]
            require(abs(sp.ndtr(z) - t) < 1e-11 or abs(z - zr) < 1e-7, "truncated draw %r (%s), expected %r", z, k, zr)
    y = c["y"]
    if y < 0 or y > 1:
        raises(o.phiinv, y)
    else:
        z = (o.phiinv(y) - m) / s
        tol = 1e-9 + 1e-9 / s + 1e-13 * abs(m) / s + 4e-16 / max(ss.norm.pdf(sp.ndtri(y)), 1e-300)
        require(abs(z - sp.ndtri(y)) <= tol, "PhiInverse(%r) = mean + %r sd, expected %r", y, z, float(sp.ndtri(y)))
    x = m + c["x"] * s
    pot = 0.5 * c["x"] ** 2 + math.log(s) + 0.5 * math.log(2 * math.pi)
    require_close(o.pot(x), pot, "potential", 1e-8, 1e-6 * (abs(m) / s) * 1e-6 + 1e-8)
    scale = sp.ndtr((hi - m) / s) - sp.ndtr((lo - m) / s)
    if hi > lo and scale > 1e-4:
        require_close(o.pot2(x, lo, hi) - o.pot(x), math.log(scale), "potential of the truncated distribution", 1e-7, 1e-8)
    if x > 0:
        if sp.ndtr(-(lo - m) / s) > 1e-4:
            require_close(o.potl(x, lo) - o.pot(x), math.log(sp.ndtr(-(lo - m) / s)), "potential above a bound", 1e-7, 1e-8)
        if sp.ndtr(m / s) > 1e-4:
            require_close(o.pot0(x) - o.pot(x), math.log(sp.ndtr(m / s)), "potential above zero", 1e-7, 1e-8)
    return bool(ok), [k]


@st.composite
def frac_case(draw):
    a = draw(gen.nice(0, 0.98))
    return {"p": params(draw, "Fractal"), "k": draw(st.sampled_from(["upper", "lower", "middle"])), "q": [a, draw(gen.nice(a + 0.01, 1.0))], "seed": draw(gen.seed32()),
            "lim": draw(st.one_of(st.none(), gen.nice(0.2, 1.5)))}


def check_frac(c):
    v = V()
    lo, hi, dim = c["p"]
    o = v.Fractal(*c["p"])
    require(o.min() == lo, "minimum")
    v.init_seed(c["seed"])
    u = ref.Rng(c["seed"]).unif()
    q = c["q"]
    A, B = lo ** -dim, hi ** -dim
    if c["k"] == "lower":
        x = o.lower(q[1])
        z = A - u * q[1] * (A - B)
    elif c["k"] == "middle":
        x = o.middle(*q)
        z = A + (q[0] + u * (q[1] - q[0])) * (B - A)
    else:
        lim = None if c["lim"] is None else lo * c["lim"] if c["lim"] < 1 else lo + (c["lim"] - 1) * (hi - lo)
        x = o.upper(q[0], lim is not None, lim or 0.0)
        if lim is not None and lim >= lo:
            A = lim ** -dim
        z = B + u * (A - B) * (1 - q[0])
    require_close(x, z ** (-1 / dim), "%s draw of Fractal%s" % (c["k"], c["p"]), 1e-9)
    require(lo * (1 - 1e-9) <= x <= hi * (1 + 1e-9), "draw outside the support")
    return True, [c["k"]]


PROP = Prop("C11", ["ref", {"shim": "vrand", "mods": ["random", "iotools/stringtools.cpp", "iotools/logkit.cpp", "iotools/logstream.cpp", "iotools/fileio.cpp", "math"], "asan": False}], [
    Sub("continuous", cont_case, check_cont, 6000, 100000, shards=3, rule="the point lies in the support"),
    Sub("discrete", disc_case, check_disc, 4000, 60000, shards=2, rule="the point lies in the support"),
    Sub("functions", fun_case, check_fun, 6000, 100000, shards=1, rule="the argument lies in the domain"),
    Sub("truncated", trunc_case, check_trunc, 3000, 60000, shards=1, rule="the interval has probability above 1e-4"),
    Sub("fractal", frac_case, check_frac, 800, 10000, shards=1, rule="all"),
    Sub("poisson", pois_case, check_pois, 400, 6000, shards=1, rule="all"),
], RULE, ["quantiles are claimed for probabilities strictly between 0 and 1 for unbounded distributions",
          "truncated draws are claimed where the interval has probability above 1e-4 (below 1e-6 the code returns a fixed point by design)"])
