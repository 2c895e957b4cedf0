#include "common.hpp"
#include "nrlib/statistics/statistics.hpp"
#include "nrlib/statistics/multinormal.hpp"
#include "nrlib/statistics/posteriormultinormal.hpp"
#include "nrlib/statistics/kriging.hpp"
#include "nrlib/math/mathutility.hpp"
#include "nrlib/math/constants.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/flens/nrlib_flens.hpp"
#include "nrlib/iotools/fileio.hpp"
using namespace NRLib;
typedef std::vector<double> V;
typedef std::vector<V> VV;
typedef std::complex<double> C;
typedef std::vector<std::vector<C> > CC;

static Vector vec(const V& v) { Vector r(int(v.size())); for (size_t i = 0; i < v.size(); ++i) r(int(i)) = v[i]; return r; }
static V out(const Vector& v) { V r(v.length()); for (int i = 0; i < v.length(); ++i) r[i] = v(i); return r; }
static SymmetricMatrix sym(const VV& a) {
  int n = int(a.size());
  SymmetricMatrix s(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) s(j, i) = a[j][i];
  return s;
}
static VV out(const SymmetricMatrix& s) {
  int n = s.dim();
  VV r(n, V(n));
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) r[i][j] = r[j][i] = s(j, i);
  return r;
}
static Matrix mat(const VV& a) {
  Matrix s(int(a.size()), a.empty() ? 0 : int(a[0].size()));
  for (int i = 0; i < s.numRows(); ++i) for (int j = 0; j < s.numCols(); ++j) s(i, j) = a[i][j];
  return s;
}
static VV out(const Matrix& s) {
  VV r(s.numRows(), V(s.numCols()));
  for (int i = 0; i < s.numRows(); ++i) for (int j = 0; j < s.numCols(); ++j) r[i][j] = s(i, j);
  return r;
}
static ComplexMatrix cmat(const CC& a) {
  ComplexMatrix s(int(a.size()), a.empty() ? 0 : int(a[0].size()));
  for (int i = 0; i < s.numRows(); ++i) for (int j = 0; j < s.numCols(); ++j) s(i, j) = a[i][j];
  return s;
}
static CC out(const ComplexMatrix& s) {
  CC r(s.numRows(), std::vector<C>(s.numCols()));
  for (int i = 0; i < s.numRows(); ++i) for (int j = 0; j < s.numCols(); ++j) r[i][j] = s(i, j);
  return r;
}
static LinalgFileFormat ff(bool b) { return b ? MatrixBinary : MatrixAscii; }
struct Miss { double m; bool operator()(double x) const { return x == m; } };

PYBIND11_MODULE(vstat, m) {
  m.def("seed", [](unsigned long s) { Random::Initialize(s); });
  m.def("stats", [](V a, bool thr) {
    return py::make_tuple(Count(a.begin(), a.end()), MinElement(a.begin(), a.end()) - a.begin(), MaxElement(a.begin(), a.end()) - a.begin(),
                          Sum(a.begin(), a.end()), Mean(a.begin(), a.end(), thr), Var(a.begin(), a.end(), thr), Mean(a, thr), Var(a, thr)); });
  m.def("mean", [](V a, bool thr) { return Mean(a, thr); });
  m.def("var", [](V a, bool thr) { return Var(a, thr); });
  m.def("statsm", [](V a, double miss) {
    Miss q = {miss};
    return py::make_tuple(Count(a.begin(), a.end(), q), MinElement(a.begin(), a.end(), q) - a.begin(), MaxElement(a.begin(), a.end(), q) - a.begin(),
                          Sum(a.begin(), a.end(), q)); });
  m.def("meanm", [](V a, double miss, bool thr) { Miss q = {miss}; return V{Mean(a.begin(), a.end(), q, thr), Mean(a, q, thr)}; });
  m.def("varm", [](V a, double miss, bool thr) { Miss q = {miss}; return V{Var(a.begin(), a.end(), q, thr), Var(a, q, thr)}; });
  m.def("cov", [](V a, V b, bool thr) { return V{Cov(a.begin(), a.end(), b.begin(), b.end(), thr), Cov(a, b, thr)}; });
  m.def("statsi", [](std::vector<int> a) { return V{Sum(a.begin(), a.end()), Mean(a), Var(a)}; });
  // math
  m.def("is_equal", [](double a, double b, double t) { return IsEqual(a, b, t); });
  m.def("is_equal0", [](double a, double b) { return IsEqual(a, b); });
  m.def("signs", [](double a, double t) { return std::vector<bool>{IsZero(a, t), IsPositive(a, t), IsNegative(a, t)}; });
  m.def("in_interval", [](double x, double a, double b, double t) { return InInterval(x, a, b, t); });
  m.def("same_sign", [](double a, double b) { return IsSameSign(a, b); });
  m.def("zero_compared", [](double a, double b) { return ZeroComparedTo(a, b); });
  m.def("angles", [](double a) { return V{DegToRad(a), RadToDeg(a), UnwindRad(a)}; });
  m.def("ricker", [](double t, double f) { return Ricker(t, f); });
  m.def("expcorr", [](double t, double r) { return ExponentialCorr(t, r); });
  m.def("constants", []() { return V{NRLib::Pi, NRLib::PiHalf, NRLib::Sqrt2, NRLib::Sqrt1_2, NRLib::Degree, NRLib::Radian, NRLib::NaturalE, NRLib::Log2Pi}; });
  // multinormal
  py::class_<MultiNormal>(m, "MultiNormal").def(py::init([](V e, VV c) { return new MultiNormal(vec(e), sym(c)); }))
    .def("set", [](MultiNormal& n, V e, VV c) { n.SetParameters(vec(e), sym(c)); })
    .def("draw", [](MultiNormal& n) { return out(n.Draw()); })
    .def("draw_g", [](MultiNormal& n, RandomGenerator& g) { return out(n.Draw(g)); })
    .def("potential", [](MultiNormal& n, V x) { return n.Potential(vec(x)); });
  py::class_<RandomGenerator>(m, "Gen").def(py::init<unsigned long>());
  py::class_<Variogram>(m, "Vario");
  m.def("create", [](int t, double p, double rx, double ry, double rz, double a, double d, double s) {
    return Variogram::Create(Variogram::Type(t), p, rx, ry, rz, a, d, s); });
  m.def("type", [](std::string s) {
    return int(s == "exponential" ? Variogram::EXPONENTIAL : s == "spherical" ? Variogram::SPHERICAL : s == "matern32" ? Variogram::MATERN32 : Variogram::MATERN52); });
  m.def("cond", [](V xk, V v, V xu, V ek, V eu, V sk, V su, const Variogram& vario) {
    Vector e; SymmetricMatrix c;
    CondDistrMultiNormal(xk, v, xu, ek, eu, sk, su, vario, e, c);
    return py::make_tuple(out(e), out(c)); });
  m.def("cond2", [](VV pk, V v, V lc, VV pu, V ek, V eu, V sk, V su, const Variogram& vario) {
    Vector e; SymmetricMatrix c;
    std::vector<Point> k, u;
    for (auto& p : pk) k.push_back(Point(p[0], p[1], 0.0));
    for (auto& p : pu) u.push_back(Point(p[0], p[1], 0.0));
    SecondayCondDistrMultiNormal2D(k, v, lc, u, ek, eu, sk, su, vario, e, c);
    return py::make_tuple(out(e), out(c)); });
  m.def("post1", [](double a, double b, double c, double d, double r, double o) { double e, f; Posterior1DNormal(a, b, c, d, r, o, e, f); return V{e, f}; });
  // kriging
  m.def("krig1", [](V field, std::vector<bool> known, V obs, double dx, const Variogram& v) { Kriging::Krig1D(field, known, obs, dx, v); return field; });
  m.def("nodal", [](std::vector<std::vector<int> > ij, V z) {
    NodalKrigingData2D d;
    for (size_t k = 0; k < z.size(); ++k) d.AddData(ij[k][0], ij[k][1], float(z[k]));
    d.FindMeanValues();
    return py::make_tuple(d.GetIndexI(), d.GetIndexJ(), d.GetData()); });
  m.def("krig2n", [](darr trend, std::vector<std::vector<int> > ij, V z, const Variogram& v, double dx, double dy, bool res, bool all, double P) {
    auto t = trend.unchecked<2>();
    size_t nx = t.shape(0), ny = t.shape(1);
    Grid2D<double> g(nx, ny);
    for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) g(i, j) = t(i, j);
    NodalKrigingData2D d(int(z.size()));
    for (size_t k = 0; k < z.size(); ++k) d.AddData(ij[k][0], ij[k][1], float(z[k]));
    d.FindMeanValues();
    CovGrid2D cov(v, int(nx), int(ny), dx, dy);
    Kriging::Krig2D(g, d, cov, res, all, P);
    darr o({nx, ny});
    auto r = o.mutable_unchecked<2>();
    for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) r(i, j) = g(i, j);
    return o; });
  m.def("krig2s", [](darr trend, double x0, double y0, double lx, double ly, VV pts, const Variogram& v, bool res, bool index, bool all, double P) {
    auto t = trend.unchecked<2>();
    size_t nx = t.shape(0), ny = t.shape(1);
    RegularSurface<double> g(x0, y0, lx, ly, nx, ny);
    for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) g(i, j) = t(i, j);
    std::vector<Point> p;
    for (auto& q : pts) p.push_back(Point(q[0], q[1], q[2]));
    std::vector<Point*> pp;
    for (auto& q : p) pp.push_back(&q);
    Kriging::Krig2D(g, pp, v, res, index, all, P);
    darr o({nx, ny});
    auto r = o.mutable_unchecked<2>();
    for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) r(i, j) = g(i, j);
    return o; });
  // linear algebra
  m.def("tri_solve", [](VV a, V b) { Vector x; TriangularSolve(sym(a), vec(b), x); return out(x); });
  m.def("chol_solve", [](VV a, V b) { SymmetricMatrix s = sym(a); Vector x; CholeskySolve(s, vec(b), x); return py::make_tuple(out(x), out(s)); });
  m.def("chol_solve_m", [](VV a, VV b) { Matrix B = mat(b); CholeskySolve(sym(a), B); return out(B); });
  m.def("chol_solve_c", [](CC a, CC b) { ComplexMatrix A = cmat(a), B = cmat(b); CholeskySolveComplex(A, B); return out(B); });
  m.def("chol_invert", [](VV a) { SymmetricMatrix s = sym(a); CholeskyInvert(s); return out(s); });
  m.def("chol", [](VV a) { SymmetricMatrix s = sym(a); CholeskyFactorize(s); VV f = out(s); CholeskyDeFactorize(s); return py::make_tuple(f, out(s)); });
  m.def("eig", [](VV a) { Matrix A = mat(a); int n = A.numRows(); Vector w(n); Matrix v(n, n); ComputeEigenVectors(A, w, v); return py::make_tuple(out(w), out(v)); });
  m.def("eig_c", [](CC a) { ComplexMatrix A = cmat(a); int n = A.numRows(); ComplexVector w(n); ComplexMatrix v(n, n); ComputeEigenVectorsComplex(A, w, v);
    std::vector<C> o(n); for (int i = 0; i < n; ++i) o[i] = w(i); return py::make_tuple(o, out(v)); });
  m.def("eig_s", [](VV a) { Vector w(int(a.size())); Matrix v; ComputeEigenVectorsSymmetric(sym(a), w, v); return py::make_tuple(out(w), out(v)); });
  m.def("sort3", [](V w, VV v) { Vector W = vec(w); Matrix M = mat(v); Sort3x3(W, M); return py::make_tuple(out(W), out(M)); });
  m.def("largest", [](V v) { return FindLargestElement(vec(v)); });
  m.def("special", [](int n, double x) { Matrix A(n, n + 1); InitializeMatrix(A, x); SymmetricMatrix S(n); InitializeSymmetricMatrix(S, x);
    ComplexMatrix Z(n, n); InitializeComplexMatrix(Z, C(x, -x));
    return py::make_tuple(out(ZeroVector(n)), out(ZeroMatrix(n)), out(SymmetricZeroMatrix(n)), out(IdentityMatrix(n)), out(A), out(S), out(Z)); });
  m.def("adjoint", [](CC a) { ComplexMatrix A = cmat(a), B(A.numCols(), A.numRows()); Adjoint(A, B); return out(B); });
  m.def("invert", [](VV a) { Matrix A = mat(a); Invert(A); return out(A); });
  m.def("invert2", [](VV a) { Matrix A = mat(a); IntegerVector p(A.numRows()); TriangleFactorize(A, p); TriangleInvert(A, p); return out(A); });
  m.def("arr2d", [](VV a) {   // matrix <-> 2D array
    std::vector<std::vector<float> > f(a.size()); std::vector<float*> fp; std::vector<V> g(a.size()); std::vector<double*> gp;
    for (size_t i = 0; i < a.size(); ++i) { f[i].assign(a[i].begin(), a[i].end()); g[i].resize(a[i].size()); fp.push_back(f[i].data()); gp.push_back(g[i].data()); }
    Matrix A(int(a.size()), int(a[0].size())); SetMatrixFrom2DArray(A, fp.data()); Set2DArrayFromMatrix(A, gp.data()); return g; });
  m.def("write_matrix", [](std::string f, VV a, bool b) { WriteMatrixToFile(f, mat(a), ff(b)); });
  m.def("write_sym", [](std::string f, VV a, bool b) { WriteMatrixToFile(f, sym(a), ff(b)); });
  m.def("write_vector", [](std::string f, V a, bool b) { WriteVectorToFile(f, vec(a), ff(b)); });
  m.def("read_matrix", [](std::string f, int r, int c, bool b) { return out(ReadMatrixFromFile(f, r, c, ff(b))); });
  m.def("read_vector", [](std::string f, int n, bool b) { return out(ReadVectorFromFile(f, n, ff(b))); });
}
