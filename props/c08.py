"""C08: Fourier transforms, padded grids, convolution and FFT sizes of nrlib."""
import numpy as np
from hypothesis import strategies as st
from vlib import ref
from vlib.fw import Prop, Sub, require

RULE = ("sizes: every requested size up to 2^30, biased to powers, smooth numbers and their neighbours, against a sorted table of "
        "7-smooth numbers. 1D: vectors of 1-80 values, both scalings, every padding mode, against numpy on the padded vector, and the "
        "round trip. 2D/3D: histories of up to 10 operations (initialise, set a cell, transform both ways, convolve three ways, "
        "edit the spectrum, crop) on float and double grids of generated size, padding and scaling, against a numpy model. "
        "Non-trivial: the grid has more than one cell and a transform or convolution occurs.")


def m():
    import vfft
    return vfft


# ---- sizes
@st.composite
def size_case(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        n = draw(st.integers(1, 3000))
    elif k == 1:
        n = draw(st.integers(1, 1 << 30))
    elif k == 2:
        n = 2 ** draw(st.integers(0, 29)) + draw(st.integers(-2, 2))
    else:
        a = draw(st.integers(0, 20)), draw(st.integers(0, 12)), draw(st.integers(0, 8)), draw(st.integers(0, 6))
        n = 2 ** a[0] * 3 ** a[1] * 5 ** a[2] * 7 ** a[3]
        while n > 1 << 30:
            n //= 2
        n += draw(st.integers(-1, 1))
    return {"n": max(1, n), "even": draw(st.booleans())}


def check_size(c):
    got = m().newsize(c["n"], c["even"])
    want = ref.smooth7(c["n"], c["even"])
    require(got == want, "size %d for %d (even=%s), expected %d", got, c["n"], c["even"], want)
    if not c["even"]:
        require(m().newsize1(c["n"]) == want, "default differs")
    return c["n"] > 1, ["even" if c["even"] else "any", "exact" if want == c["n"] else "padded"]


# ---- 1D
vals = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 4)))


@st.composite
def fft1_case(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 80)))
    return {"v": draw(st.lists(vals, min_size=n, max_size=n)), "pad": draw(st.one_of(st.sampled_from([0, -1, 1, 2]), st.integers(-3, 60))),
            "scale": draw(st.booleans()), "list": draw(st.booleans()), "out": draw(st.integers(0, 3))}


def padded(v, pad):
    n = len(v)
    p = n if pad < 0 else pad
    if p:
        p = ref.smooth7(n + p) - n
    x = np.empty(n + p)
    x[:n] = v
    if p == 1:
        x[n] = v[0]
    elif p > 1:
        t = np.arange(p) / (p - 1.0)
        x[n:] = v[0] * t + (1 - t) * v[-1]
    return x


def check_fft1(c):
    v = c["v"]
    x = padded(v, c["pad"])
    n = len(x)
    got = np.array(m().fft1(v, c["scale"], c["pad"], c["list"]))
    require(len(got) == n, "length %d, expected %d", len(got), n)
    want = np.fft.rfft(x) / (np.sqrt(n) if c["scale"] else 1.0)
    h = n // 2 + 1
    tol = 1e-11 * (np.abs(x).sum() + 1e-300) * (1 / np.sqrt(n) if c["scale"] else 1)
    require(bool(np.all(np.abs(got[:h] - want) <= tol)), "spectrum differs by %g", np.max(np.abs(got[:h] - want)))
    k = [n, len(v), min(n, len(v) + 1), 1][c["out"]]
    back = np.array(m().inv1(list(got), k, c["scale"], c["list"]))
    require(bool(np.all(np.abs(back - x[:k]) <= 1e-11 * (np.abs(x).sum() + 1e-300))), "the inverse transform does not return the input")
    return n > 1, ["pad" if n > len(v) else "nopad", "scale" if c["scale"] else "noscale"]


# ---- grids
OPS = ["init", "set", "fft", "ifft", "conv", "convcov", "setc", "grid", "roundtrip", "cyc", "initpad", "initconst", "convno", "get"]


@st.composite
def grid_case(draw):
    nd = draw(st.sampled_from([2, 3]))
    cap = 12 if nd == 2 else 6
    n = [draw(st.integers(1, cap)) for _ in range(nd)]
    pad = [draw(st.one_of(st.just(0), st.integers(0, cap))) for _ in range(nd)]
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**31)), min_size=1, max_size=10))
    return {"nd": nd, "n": n, "pad": pad, "float": draw(st.booleans()), "scale": draw(st.booleans()), "fscale": draw(st.booleans()),
            "ops": [list(o) for o in ops]}


def check_grid(c):
    nd, n, pad = c["nd"], c["n"], c["pad"]
    cls = getattr(m(), "G%d%s" % (nd, "f" if c["float"] else "d"))
    eps = 3e-5 if c["float"] else 1e-11
    a3, p3 = (n + [1])[:3], (pad + [0])[:3]
    g = cls(*a3, *p3, c["scale"])
    tot = [ref.smooth7(n[k] + pad[k], k == 0) for k in range(nd)]
    cs = [tot[0] // 2 + 1] + tot[1:]
    require(g.sizes() == n + tot + cs, "sizes %s, expected %s", g.sizes(), n + tot + cs)
    N = int(np.prod(tot))
    fs = 1 / np.sqrt(N) if c["scale"] else 1.0
    inv = np.sqrt(N) if c["scale"] else 1.0  # inverse of a 1/N-normalised ifft
    ffs = 1 / np.sqrt(N) if c["fscale"] else 1.0
    axes = list(range(nd))[::-1]

    def fwd(x):  # real fft along the first axis
        return np.fft.fftn(x)[:cs[0]]

    def bwd(z):
        return np.fft.irfftn(np.moveaxis(z, 0, -1), s=tot[1:] + tot[:1], axes=list(range(nd)))

    def irf(z):
        return np.moveaxis(bwd(z), -1, 0)

    R = np.zeros(tot)  # None: unspecified
    Z = np.zeros(cs, complex)
    did = False
    lab = set()
    scaleR = scaleZ = 1.0
    for op, s in c["ops"]:
        rs = np.random.RandomState(s % (2**31))
        new = np.round(rs.uniform(-5, 5, size=tot), 3)
        idx = [int(s // (k * 7 + 1)) % n[k] for k in range(nd)]
        if op == "init":
            g.init(new)
            R = new.copy()
        elif op == "initpad" and nd == 3:
            v = new[:n[0], :n[1], :n[2]]
            g.init_pad(v)
            R = np.zeros(tot)
            R[:n[0], :n[1], :n[2]] = v
        elif op == "initconst" and nd == 3:
            g.init_const(2.5)
            R = np.full(tot, 2.5)
        elif op == "set":
            g.set_real(idx, 1.5)
            if R is not None:
                R[tuple(idx)] = 1.5
        elif op == "cyc" and nd == 3:
            q = [int(s // (k * 5 + 3)) % (2 * tot[k] - 1) - (tot[k] - 1) for k in range(nd)]
            g.set_cyc(q, -3.25)
            if R is not None:
                R[tuple(q)] = -3.25
                z = [(q[k] + 1) % tot[k] - (tot[k] if s & (1 << k) and (q[k] + 1) % tot[k] else 0) for k in range(nd)]
                require(abs(g.cyc(z) - R[tuple(z)]) <= eps * (1 + np.abs(R).max()), "cyclic access at %s", z)
        elif op == "get":
            if R is not None:
                require(abs(g.real(idx) - R[tuple(idx)]) <= eps * (1 + np.abs(R).sum()), "value at %s", idx)
            if Z is not None:
                q = [int(s // (k * 3 + 2)) % cs[k] for k in range(nd)]
                require(abs(g.cplx(q) - Z[tuple(q)]) <= eps * (1 + np.abs(Z).sum()), "coefficient at %s", q)
        elif op == "fft":
            if R is None:
                continue
            g.fft()
            did = True
            Z = fwd(R) * fs
            scale = np.abs(R).sum() * fs + 1e-30
            require(bool(np.all(np.abs(g.spectrum() - Z) <= eps * scale)), "forward transform differs by %g of %g",
                    np.max(np.abs(g.spectrum() - Z)), scale)
            R = None  # scaled in place or left: not specified
        elif op == "setc":
            if Z is None:
                continue
            # keep the spectrum Hermitian: a coefficient with distinct mirror image inside the stored half is avoided
            q = [cs[0] // 2 if 0 < cs[0] // 2 < tot[0] / 2 else 0] + [int(s // (k + 2)) % cs[k] for k in range(1, nd)]
            if q[0] == 0:
                continue
            w = complex(1.25, -0.5)
            g.set_complex(q, w)
            Z = Z.copy()
            Z[tuple(q)] = w
        elif op == "ifft":
            if Z is None:
                continue
            g.ifft()
            did = True
            R = irf(Z) * inv
            sc = np.abs(Z).sum() * inv / N * 4 + 1e-30
            require(bool(np.all(np.abs(g.full() - R) <= eps * sc)), "inverse transform differs by %g of %g", np.max(np.abs(g.full() - R)), sc)
            R = g.full().astype(float)
            Z = None
        elif op == "grid":
            if R is None:
                continue
            got = g.grid()
            want = R[tuple(slice(0, k) for k in n)]
            require(list(got.shape) == n, "cropped shape %s", got.shape)
            require(bool(np.all(np.abs(got - want) <= eps * (1 + np.abs(R).max()))), "the cropped grid differs")
        elif op == "roundtrip":
            if R is None:
                continue
            g.fft()
            g.ifft()
            did = True
            require(bool(np.all(np.abs(g.full() - R) <= eps * (np.abs(R).sum() + 1e-30))), "forward and inverse transform do not cancel: %g",
                    np.max(np.abs(g.full() - R)))
            R = g.full().astype(float)
            Z = None
        elif op in ("conv", "convcov"):
            if R is None:
                continue
            f = cls(*a3, *p3, c["fscale"])
            if op == "convcov":
                # a covariance: symmetric with a positive spectrum
                spec = 0.5 + np.abs(np.fft.fftn(new)) ** 2 / N
                k = np.fft.ifftn(spec).real
            else:
                k = new
            if c["float"]:
                k = k.astype(np.float32).astype(float)
            f.init(k)
            FZ = fwd(k) * ffs
            if op == "convcov":
                g.convcov(f)
                FZ = np.sqrt(np.maximum(FZ.real, 0))
            else:
                g.conv(f)
            did = True
            lab.add(op)
            want = irf(fwd(R) * fs * FZ) * inv
            sc = (np.abs(fwd(R)).max() * fs * np.abs(FZ).max()) * inv * 4 + 1e-30
            require(bool(np.all(np.abs(g.full() - want) <= eps * sc)), "%s differs by %g of %g", op, np.max(np.abs(g.full() - want)), sc)
            R = g.full().astype(float)
            Z = None
        elif op == "convno" and nd == 3:
            if Z is None:
                continue
            f = cls(*a3, *p3, c["fscale"])
            f.init(new)
            f.fft()
            g.convno(f)
            FZ = fwd(new) * ffs
            if c["float"]:
                FZ = f.spectrum().astype(complex)
                Zg = Z.astype(np.complex64)
                Z = (Zg * FZ.astype(np.complex64)).astype(complex)
            else:
                Z = Z * FZ
            sc = np.abs(Z).max() + np.abs(FZ).max() + 1e-30
            require(bool(np.all(np.abs(g.spectrum() - Z) <= 10 * eps * sc * (1 + np.sqrt(N)))), "product of spectra differs")
            Z = g.spectrum().astype(complex)
            lab.add(op)
    return did and N > 2, ["%dD%s" % (nd, "f" if c["float"] else "d")] + sorted(lab)


PROP = Prop("C08", [{"shim": "vfft", "mods": ["fft"], "asan": False}], [
    Sub("size", size_case, check_size, 3000, 40000, shards=2, rule="n > 1"),
    Sub("fft1", fft1_case, check_fft1, 3000, 40000, shards=2, rule="more than one value"),
    Sub("grid", grid_case, check_grid, 3000, 40000, shards=4, rule="a transform or convolution on more than two cells"),
], RULE, ["spectra edited directly keep Hermitian symmetry", "FFTW is used here, MKL's FFTW interface in the extension (C02)"])
