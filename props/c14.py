"""C14: dense linear algebra of nrlib (FLENS/LAPACK wrappers) and matrix files."""
import math, os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import gen
from vlib.fw import Prop, Sub, require, require_close

RULE = ("solve: generated symmetric positive definite (and indefinite, singular) matrices of dimension 1-7, all solvers, inverses and factorisations "
        "against numpy by residual and by value. eigen: symmetric, diagonalisable real and complex matrices checked by the defining equation, "
        "normalisation and the sorted spectrum; Sort3x3. files: matrices, symmetric matrices and vectors written and read back in both formats, and "
        "read with wrong sizes. Non-trivial: dimension at least 2 with a non-zero element off the diagonal.")


def m():
    import scipy.linalg, vstat
    return vstat


val = st.integers(-12, 12).map(lambda q: q / 4)


def square(draw, n, el=val):
    return np.array([[draw(el) for _ in range(n)] for _ in range(n)])


@st.composite
def solve_case(draw):
    n = draw(st.integers(1, 7))
    a = square(draw, n)
    kind = draw(st.sampled_from(["spd", "spd", "spd", "indef", "singular"]))
    s = 10.0 ** draw(st.sampled_from([0, 0, -6, 6]))
    return {"n": n, "a": a.tolist(), "b": square(draw, n).tolist(), "im": square(draw, n).tolist(), "kind": kind, "s": s, "d": draw(st.sampled_from([0.25, 1.0, 4.0])),
            "k": draw(st.integers(1, 4)), "z": draw(st.integers(0, n - 1))}


def fails(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def near(x, y, tol, what):
    x, y = np.array(x), np.array(y)
    require(x.shape == y.shape and np.all(np.abs(x - y) <= tol), "%s: %s, expected %s", what, x.tolist(), y.tolist())


def check_solve(c):
    v = m()
    n, s = c["n"], c["s"]
    F = np.array(c["a"])
    A = (F @ F.T + c["d"] * np.eye(n)) * s
    B = np.array(c["b"])[:, :c["k"]]
    b = B[:, 0]
    # triangular: the upper half
    U = np.triu(np.array(c["a"]))
    np.fill_diagonal(U, [x if abs(x) >= 0.5 else 1.0 for x in np.diag(U)])
    x = np.linalg.solve(U, b)
    full = (U + np.triu(U, 1).T).tolist()
    near(v.tri_solve(full, b.tolist()), x, 1e-12 * np.linalg.cond(U) * (1 + np.abs(x).max()), "triangular solution")
    U[c["z"], c["z"]] = 0
    require(fails(v.tri_solve, (U + np.triu(U, 1).T).tolist(), b.tolist()), "a singular triangular matrix was accepted")
    if c["kind"] == "spd":
        cond = np.linalg.cond(A)
        x = np.linalg.solve(A, B)
        tol = 1e-13 * cond * (1e-300 + np.abs(x).max()) * 10
        got, A2 = v.chol_solve(A.tolist(), b.tolist())
        near(got, x[:, 0], tol, "Cholesky solution")
        near(A2, A, 0, "matrix after solving")
        near(v.chol_solve_m(A.tolist(), B.tolist()), x, tol, "Cholesky solution (matrix)")
        inv = np.linalg.inv(A)
        near(v.chol_invert(A.tolist()), inv, 1e-13 * cond * np.abs(inv).max() * 10, "Cholesky inverse")
        f, back = v.chol(A.tolist())
        L = np.linalg.cholesky(A)
        near(np.triu(f), L.T, 1e-13 * cond * np.abs(L).max() * 10, "Cholesky factor")
        near(back, A, 1e-13 * n * np.abs(A).max() * 10, "Cholesky factor multiplied out")
        G = np.array(c["a"]) + 1j * np.array(c["im"])
        H = (G @ G.conj().T + c["d"] * np.eye(n)) * s
        X = np.linalg.solve(H, B + 1j * B[::-1])
        near(v.chol_solve_c(H.tolist(), (B + 1j * B[::-1]).tolist()), X, 1e-13 * np.linalg.cond(H) * (1e-300 + np.abs(X).max()) * 10, "complex Cholesky solution")
    else:
        if c["kind"] == "indef":
            A = A.copy()
            A[c["z"], c["z"]] *= -1
        else:
            A = A.copy()
            A[c["z"], :] = 0
            A[:, c["z"]] = 0
        for f, a in ((v.chol_solve, (A.tolist(), b.tolist())), (v.chol_solve_m, (A.tolist(), B.tolist())), (v.chol_invert, (A.tolist(),)), (v.chol, (A.tolist(),)),
                     (v.chol_solve_c, (A.astype(complex).tolist(), B.astype(complex).tolist()))):
            require(fails(f, *a), "%s accepted a matrix that is not positive definite", f.__name__)
    G = np.array(c["b"]) * s
    cond = np.linalg.cond(G)
    if cond < 1e6:
        inv = np.linalg.inv(G)
        near(v.invert(G.tolist()), inv, 1e-13 * cond * np.abs(inv).max() * 10, "inverse")
        near(v.invert2(G.tolist()), inv, 1e-13 * cond * np.abs(inv).max() * 10, "inverse by LU factors")
    G[:, c["z"]] = 0
    require(fails(v.invert, G.tolist()) and fails(v.invert2, G.tolist()), "a singular matrix was inverted")
    # small things
    q = c["d"] * s
    z0, Z, S, I, Q, T, Y = v.special(n, q)
    require(z0 == [0] * n, "zero vector")
    near(Z, np.zeros((n, n)), 0, "zero matrix")
    near(S, np.zeros((n, n)), 0, "symmetric zero matrix")
    near(I, np.eye(n), 0, "identity")
    near(Q, np.full((n, n + 1), q), 0, "initialised matrix")
    near(T, np.full((n, n), q), 0, "initialised symmetric matrix")
    near(Y, np.full((n, n), q - 1j * q), 0, "initialised complex matrix")
    require(v.largest(b.tolist()) == b.max(), "largest element")
    R = (np.array(c["a"]) + 1j * np.array(c["im"]))[:, :c["k"]]
    near(v.adjoint(R.tolist()), R.conj().T, 0, "adjoint")
    near(v.arr2d(B.tolist()), B.astype(np.float32), 0, "2D array")
    return n >= 2 and bool(np.any(np.triu(A, 1) != 0)), [c["kind"]]


@st.composite
def eig_case(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "a": square(draw, n).tolist(), "b": square(draw, n).tolist(), "w": draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n, unique=True)),
            "e3": [draw(st.one_of(gen.nice(-5, 5, 2), st.sampled_from([0.0, 1e6, -1e6, -2e5, 1e-9]))) for _ in range(3)], "v3": square(draw, 3).tolist()}


def check_eig(c):
    v = m()
    n = c["n"]
    F = np.array(c["a"])
    S = F + F.T
    w, V = map(np.array, v.eig_s(S.tolist()))
    sc = 1e-12 * (1 + np.abs(S).max()) * n * 10
    near(w, np.linalg.eigvalsh(S), sc, "eigenvalues of a symmetric matrix")
    near(S @ V, V * w, sc, "eigenvectors of a symmetric matrix")
    near(V.T @ V, np.eye(n), 1e-11, "orthonormality")
    # real, diagonalisable with real eigenvalues
    P = np.eye(n) + 0.3 * np.tril(np.array(c["b"]), -1) / 3
    A = P @ np.diag([q / 4 for q in c["w"]]) @ np.linalg.inv(P)
    w, V = map(np.array, v.eig(A.tolist()))
    near(np.sort(w), np.sort(np.array(c["w"]) / 4), 1e-8 * (1 + np.abs(A).max()), "eigenvalues")
    near(A @ V, V * w, 1e-8 * (1 + np.abs(A).max()), "eigenvectors")
    near(np.sum(V * V, axis=0), np.ones(n), 1e-10, "length of eigenvectors")
    Z = F + 1j * np.array(c["b"])
    w, V = map(np.array, v.eig_c(Z.tolist()))
    near(Z @ V, V * w, 1e-10 * (1 + np.abs(Z).max()) * n, "complex eigenvectors")
    near(np.sum(np.abs(V) ** 2, axis=0), np.ones(n), 1e-10, "length of complex eigenvectors")
    near([w.sum()], [np.trace(Z)], 1e-9 * (1 + np.abs(Z).max()) * n, "sum of the eigenvalues")
    near([np.sum(w * w)], [np.trace(Z @ Z)], 1e-8 * (1 + np.abs(Z).max()) ** 2 * n * n, "sum of squares of the eigenvalues")
    e, V = v.sort3(c["e3"], c["v3"])
    require(e == sorted(c["e3"], reverse=True), "sorted eigenvalues %s of %s", e, c["e3"])
    V = np.array(V)
    cols = sorted(((e[k], tuple(V[:, k])) for k in range(3)))
    V3 = np.array(c["v3"])
    require(cols == sorted((c["e3"][k], tuple(V3[:, k])) for k in range(3)), "eigenvectors do not follow their eigenvalues")
    return n >= 2 and bool(np.any(np.triu(S, 1)))


@st.composite
def file_case(draw):
    fl = st.one_of(val, gen.nice(-1e3, 1e3, 4), st.floats(allow_nan=False, allow_infinity=False, width=64).filter(lambda x: x == 0 or 1e-300 < abs(x) < 1e300))
    r, k = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {"a": [[draw(fl) for _ in range(k)] for _ in range(r)], "bin": draw(st.booleans()), "dr": draw(st.integers(-1, 1)), "dk": draw(st.integers(-1, 1)), "old": draw(st.booleans())}


def check_file(c):
    v = m()
    a = np.array(c["a"])
    r, k = a.shape
    d = tempfile.mkdtemp()

    def same(x, y, what):
        x, y = np.array(x), np.array(y)
        if c["bin"]:
            require(x.shape == y.shape and np.array_equal(x, y), "%s: %s, expected %s", what, x.tolist(), y.tolist())
        else:
            require(x.shape == y.shape and np.all(np.abs(x - y) <= 6e-9 * np.abs(y)), "%s: %s, expected %s", what, x.tolist(), y.tolist())

    try:
        f = d + "/x"
        if c["old"]:
            open(f, "w").write("1 2 3 4\n" * 50)
        v.write_matrix(f, c["a"], c["bin"])
        same(v.read_matrix(f, r, k, c["bin"]), a, "matrix file")
        R, K = r + c["dr"], k + c["dk"]
        if R > 0 and K > 0 and R * K != r * k:
            require(fails(v.read_matrix, f, R, K, c["bin"]), "a %dx%d matrix file was read as %dx%d", r, k, R, K)
        v.write_vector(f, a.ravel().tolist(), c["bin"])
        same(v.read_vector(f, r * k, c["bin"]), a.ravel(), "vector file")
        for q in (1, -1):
            if r * k + q > 0:
                require(fails(v.read_vector, f, r * k + q, c["bin"]), "a vector file of %d was read as %d", r * k, r * k + q)
        n = min(r, k)
        S = np.triu(a[:n, :n]) + np.triu(a[:n, :n], 1).T
        v.write_sym(f, S.tolist(), c["bin"])
        same(v.read_matrix(f, n, n, c["bin"]), S, "symmetric matrix file")
        require(fails(v.read_matrix, d + "/none", r, k, c["bin"]), "a missing file was read")
    finally:
        shutil.rmtree(d)
    return r * k >= 4, ["binary" if c["bin"] else "ascii"]


PROP = Prop("C14", [{"shim": "vstat", "mods": ["statistics", "flens", "+flens", "iotools", "random", "variogram", "fft", "geometry", "surface", "math"], "asan": False}], [
    Sub("solve", solve_case, check_solve, 1500, 25000, shards=2, rule="dimension at least 2, not diagonal"),
    Sub("eigen", eig_case, check_eig, 1500, 25000, shards=2, rule="dimension at least 2, not diagonal"),
    Sub("files", file_case, check_file, 1500, 20000, shards=1, rule="at least 4 elements"),
], RULE, ["well-conditioned matrices; ASCII files carry 9 digits"])
