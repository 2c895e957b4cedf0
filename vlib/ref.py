"""Reference models for the core: variogram, random stream, padding, circulant embedding."""
import ctypes, math, os
import numpy as np

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "_build/ref/librefrng.so"))
        _lib.ref_new.restype = ctypes.c_void_p
        _lib.ref_free.argtypes = [ctypes.c_void_p]
        _lib.ref_seed.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
        _lib.ref_u32.argtypes = [ctypes.c_void_p]
        _lib.ref_u32.restype = ctypes.c_uint32
        for n in ("ref_unif", "ref_unif_open", "ref_norm"):
            getattr(_lib, n).argtypes = [ctypes.c_void_p]
            getattr(_lib, n).restype = ctypes.c_double
        for n in ("ref_fill_norm", "ref_fill_unif"):
            getattr(_lib, n).argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
        _lib.ref_fill_kind.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_long]
        _lib.ref_seed_array.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    return _lib


class Rng:
    def __init__(self, seed=None):
        self.p = lib().ref_new()
        if seed is not None:
            self.seed(seed)

    def __del__(self):
        lib().ref_free(self.p)

    def seed(self, s):
        lib().ref_seed(self.p, s & 0xFFFFFFFF)

    def seed_array(self, key):
        a = np.array(key, np.uint32)
        lib().ref_seed_array(self.p, a.ctypes.data, len(a))

    def kind(self, k, n):
        """n values in [1,2), [0,1), (0,1] or (0,1)"""
        a = np.empty(n)
        lib().ref_fill_kind(self.p, k, a.ctypes.data, n)
        return a

    def u32(self):
        return lib().ref_u32(self.p)

    def unif(self):
        return lib().ref_unif(self.p)

    def unif_open(self):
        return lib().ref_unif_open(self.p)

    def norm(self):
        return lib().ref_norm(self.p)

    def norms(self, n):
        a = np.empty(n)
        lib().ref_fill_norm(self.p, a.ctypes.data, n)
        return a

    def unifs(self, n):
        a = np.empty(n)
        lib().ref_fill_unif(self.p, a.ctypes.data, n)
        return a


TYPES = ["gaussian", "exponential", "general_exponential", "spherical", "matern32", "matern52", "matern72", "constant"]
RATIO = {"constant": 1.0, "exponential": 2.33, "spherical": 1.92, "gaussian": 6.67, "matern32": 4.0, "matern52": 4.76,
         "matern72": 5.26}


def corr1(t, d, power=1.5):
    d = np.asarray(d, float)
    if t == "constant":
        return np.ones_like(d)
    if t == "exponential":
        return np.exp(-3 * d)
    if t == "gaussian":
        return np.exp(-3 * d ** 2)
    if t == "general_exponential":
        return np.exp(-3 * d ** power)
    if t == "spherical":
        return np.where(d < 1, 1 - 1.5 * d + 0.5 * d ** 3, 0.0)
    if t == "matern32":
        s = 4.744 * d
        return np.exp(-s) * (1 + s)
    if t == "matern52":
        s = 5.918 * d
        return np.exp(-s) * (1 + s + s * s / 3)
    if t == "matern72":
        s = 6.877 * d
        return np.exp(-s) * (1 + s + 0.4 * s ** 2 + s ** 3 / 15)
    raise KeyError(t)


def ratio(t, power):
    return 4.0 + (power - 1.5) * 5.34 if t == "general_exponential" else RATIO[t]


class Vario:
    """Angles in radians."""

    def __init__(self, t, rx, ry, rz, azi=0.0, dip=0.0, power=1.5, sd=1.0):
        self.t, self.r, self.azi, self.dip, self.power, self.sd = t, [rx, ry, rz], azi, dip, power, sd

    def axes(self):
        ca, sa, cd, sd = math.cos(self.azi), math.sin(self.azi), math.cos(self.dip), math.sin(self.dip)
        return np.array([[cd * ca, cd * sa, sd], [-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]])

    def dist2(self, h):
        """h: (..., 3)"""
        u = np.asarray(h, float) @ self.axes().T
        return np.sum((u / np.array(self.r)) ** 2, axis=-1)

    def corr(self, h):
        return corr1(self.t, np.sqrt(self.dist2(h)), self.power)

    def corr_bounds(self, h):
        """Interval the correlation must lie in when the squared distance carries relative rounding errors."""
        h = np.asarray(h, float)
        d2 = self.dist2(h)
        e = 2e-14 * np.sum(h * h, axis=-1) / min(self.r) ** 2 + 1e-14 * d2
        lo = corr1(self.t, np.sqrt(d2 + e), self.power)
        hi = corr1(self.t, np.sqrt(np.maximum(d2 - e, 0)), self.power)
        return lo - 1e-12, hi + 1e-12

    def pad1(self, n, rng, step):
        x = ratio(self.t, self.power) * rng / step - n
        y = rng / step
        return max(int(x), int(y)) + 1

    def pad_sensitive(self, n, rng, step):
        """True if a rounding error could change the integer result (an exact quotient cannot)."""
        from fractions import Fraction
        x = ratio(self.t, self.power) * rng / step - n
        y = rng / step
        q = Fraction(rng) / Fraction(step)
        ex = 1e-9 * max(1.0, abs(x), n)
        ey = 0.0 if q.denominator == 1 else 1e-9 * max(1.0, y)
        if ratio(self.t, self.power) == 1.0 and q.denominator == 1:
            ex = 0.0
        return max(int(x - ex), int(y - ey)) != max(int(x + ex), int(y + ey))

    def pad_ranges(self, nd):
        if nd == 1:
            return [self.r[0]]
        rx = max(self.r[0], self.r[1])
        ry = self.r[1] if self.azi == 0.0 else rx
        return [rx, ry, self.r[2]][:nd]

    def smooth_ranges(self):
        a = self.axes()
        return [max(abs(a[k][i]) * self.r[k] for k in range(3)) for i in range(3)]


_smooth = None


def smooth7(n, even=False):
    """Smallest product of powers of 2,3,5,7 (even if asked) that is >= n."""
    global _smooth
    import bisect
    if _smooth is None:
        lim = 1 << 36
        s = [1]
        for p in (2, 3, 5, 7):
            t = []
            for v in s:
                while v <= lim:
                    t.append(v)
                    v *= p
            s = t
        s = sorted(s)
        _smooth = (s, [v for v in s if v % 2 == 0])
    l = _smooth[1 if even else 0]
    return l[bisect.bisect_left(l, n)]


def lags(n, d):
    m = (n + 1) // 2
    i = np.arange(n)
    return np.where(i < m, i, i - n) * d


def embed_filter(v, tot, d, s):
    """sqrt of the (clipped) spectrum of the periodised covariance; also its largest eigenvalue.

    tot: total grid sizes, d: steps, s: smoothing parameter per axis (>= 0.99999: none)."""
    nd = len(tot)
    g = np.meshgrid(*[lags(n, dd) for n, dd in zip(tot, d)], indexing="ij")
    h = np.zeros(g[0].shape + (3,))
    for k in range(nd):
        h[..., k] = g[k]
    if nd == 1:
        h[..., 0] = np.abs(h[..., 0])
    c = v.sd ** 2 * v.corr(h)
    sr = v.smooth_ranges()
    for k in range(nd):
        if s[k] < 0.99999:
            c = c * s[k] ** ((g[k] / sr[k]) ** 2)
    lam = np.fft.fftn(c).real
    lmax = float(np.max(np.abs(lam)))
    return np.sqrt(np.maximum(lam, 0.0)), lmax


def field(v, noise, n, d, s):
    """The documented construction: noise filtered by the square root of the covariance spectrum, cropped."""
    f, lmax = embed_filter(v, noise.shape, d, s)
    out = np.fft.ifftn(np.fft.fftn(noise) * f).real
    return out[tuple(slice(0, k) for k in n)], lmax
