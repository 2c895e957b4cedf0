#include "common.hpp"
#include <memory>
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
using namespace NRLib;

static py::array arr(const Grid2D<double>& g) {
  darr a({g.GetNI(), g.GetNJ()});
  auto r = a.mutable_unchecked<2>();
  for (size_t i = 0; i < g.GetNI(); ++i) for (size_t j = 0; j < g.GetNJ(); ++j) r(i, j) = g(i, j);
  return a;
}
static py::array arr(const Grid<double>& g) {
  darr a({g.GetNI(), g.GetNJ(), g.GetNK()});
  auto r = a.mutable_unchecked<3>();
  for (size_t i = 0; i < g.GetNI(); ++i) for (size_t j = 0; j < g.GetNJ(); ++j) for (size_t k = 0; k < g.GetNK(); ++k) r(i, j, k) = g(i, j, k);
  return a;
}
static py::array arr(const std::vector<double>& v) { return darr(v.size(), v.data()); }
template <class T> py::list lst(const std::vector<T>& v) { py::list l; for (auto& g : v) l.append(arr(g)); return l; }
typedef std::vector<double> V;
typedef std::vector<size_t> N;

template <class T> Variogram* mk(const V& a) {
  switch (a.size()) {
  case 1: return new T(a[0]);
  case 2: return new T(a[0], a[1]);
  case 3: return new T(a[0], a[1], a[2]);
  case 4: return new T(a[0], a[1], a[2], a[3]);
  case 5: return new T(a[0], a[1], a[2], a[3], a[4]);
  }
  return new T(a[0], a[1], a[2], a[3], a[4], a[5]);
}

PYBIND11_MODULE(vvario, m) {
  py::class_<RandomGenerator>(m, "Gen").def(py::init<unsigned long>()).def("norm", [](RandomGenerator& g) { return g.Norm01(); });
  m.def("seed", [](unsigned long s) { Random::Initialize(s); });
  m.def("unif", []() { return Random::Unif01(); });
  py::class_<Variogram>(m, "Vario")
    .def("clone", [](const Variogram& v) { return v.Clone(); })
    .def("name", [](const Variogram& v) { return v.GetName(); })
    .def("ratio", [](const Variogram& v) { return v.GetMinimumRangeToGridRatio(); })
    .def("state", [](const Variogram& v) { return V{v.GetRangeX(), v.GetRangeY(), v.GetRangeZ(), v.GetAzimuthAngle(), v.GetDipAngle(), v.GetStdDev()}; })
    .def("rotate", [](Variogram& v, double a, double d) { v.RotateAngles(a, d); })
    .def("rotate1", [](Variogram& v, double a) { v.RotateAngles(a); })
    .def("angles", [](Variogram& v, double a, double d) { v.SetAngles(a, d); })
    .def("angles1", [](Variogram& v, double a) { v.SetAngles(a); })
    .def("set", [](Variogram& v, int k, double r) { k == 0 ? v.SetRangeX(r) : k == 1 ? v.SetRangeY(r) : v.SetRangeZ(r); })
    .def("limit", [](Variogram& v, int k, double r) { k == 0 ? v.LimitRangeX(r) : k == 1 ? v.LimitRangeY(r) : v.LimitRangeZ(r); })
    .def("ranges", [](Variogram& v, double a, double b, double c) { v.SetRanges(a, b, c); })
    .def("sd", [](Variogram& v, double s) { v.SetStdDev(s); })
    .def("corr", [](const Variogram& v, V h) { return h.size() == 1 ? v.GetCorr(h[0]) : h.size() == 2 ? v.GetCorr(h[0], h[1]) : v.GetCorr(h[0], h[1], h[2]); })
    .def("cov", [](const Variogram& v, V h) { return h.size() == 1 ? v.GetCov(h[0]) : h.size() == 2 ? v.GetCov(h[0], h[1]) : v.GetCov(h[0], h[1], h[2]); })
    .def("vario", [](const Variogram& v, V h) { return h.size() == 1 ? v.GetVariogram(h[0]) : h.size() == 2 ? v.GetVariogram(h[0], h[1]) : v.GetVariogram(h[0], h[1], h[2]); })
    .def("corrp", [](const Variogram& v, V a, V b) { return a.size() == 1 ? v.GetCorrpoint(a[0], b[0]) : a.size() == 2 ? v.GetCorrpoint(a[0], a[1], b[0], b[1]) : v.GetCorrpoint(a[0], a[1], a[2], b[0], b[1], b[2]); })
    .def("covp", [](const Variogram& v, V a, V b) { return a.size() == 1 ? v.GetCovpoint(a[0], b[0]) : a.size() == 2 ? v.GetCovpoint(a[0], a[1], b[0], b[1]) : v.GetCovpoint(a[0], a[1], a[2], b[0], b[1], b[2]); });
  m.def("create", [](int t, double p, double rx, double ry, double rz, double a, double d, double s) {
    return Variogram::Create(Variogram::Type(t), p, rx, ry, rz, a, d, s); });
  m.def("type", [](std::string s) {
    if (s == "constant") return int(Variogram::CONSTANT);
    if (s == "exponential") return int(Variogram::EXPONENTIAL);
    if (s == "spherical") return int(Variogram::SPHERICAL);
    if (s == "gaussian") return int(Variogram::GAUSSIAN);
    if (s == "general_exponential") return int(Variogram::GENERAL_EXPONENTIAL);
    if (s == "matern32") return int(Variogram::MATERN32);
    if (s == "matern52") return int(Variogram::MATERN52);
    if (s == "matern72") return int(Variogram::MATERN72);
    return int(Variogram::N_TYPES); });
  m.def("fresh", [](std::string s) -> Variogram* {   // default constructors
    if (s == "constant") return new ConstVario();
    if (s == "exponential") return new ExpVario();
    if (s == "spherical") return new SphVario();
    if (s == "gaussian") return new GauVario();
    if (s == "general_exponential") return new GenExpVario();
    if (s == "matern32") return new Matern32Vario();
    if (s == "matern52") return new Matern52Vario();
    return new Matern72Vario(); });
  m.def("create_n", [](int t, V a) {   // the last arguments are left out
    Variogram::Type k = Variogram::Type(t);
    switch (a.size()) {
    case 0: return Variogram::Create(k);
    case 1: return Variogram::Create(k, a[0]);
    case 2: return Variogram::Create(k, a[0], a[1]);
    case 3: return Variogram::Create(k, a[0], a[1], a[2]);
    case 4: return Variogram::Create(k, a[0], a[1], a[2], a[3]);
    case 5: return Variogram::Create(k, a[0], a[1], a[2], a[3], a[4]);
    case 6: return Variogram::Create(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    return Variogram::Create(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); });
  m.def("make_n", [](std::string s, double p, V a) -> Variogram* {
    if (s == "exponential") return mk<ExpVario>(a);
    if (s == "spherical") return mk<SphVario>(a);
    if (s == "gaussian") return mk<GauVario>(a);
    if (s == "matern32") return mk<Matern32Vario>(a);
    if (s == "matern52") return mk<Matern52Vario>(a);
    if (s == "matern72") return mk<Matern72Vario>(a);
    if (s == "general_exponential") {
      switch (a.size()) {
      case 1: return new GenExpVario(p, a[0]);
      case 2: return new GenExpVario(p, a[0], a[1]);
      case 3: return new GenExpVario(p, a[0], a[1], a[2]);
      case 4: return new GenExpVario(p, a[0], a[1], a[2], a[3]);
      case 5: return new GenExpVario(p, a[0], a[1], a[2], a[3], a[4]);
      }
      return new GenExpVario(p, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    return nullptr; });
  m.def("covfile", [](const Variogram& v, int nx, int ny, double dx, double dy, std::string f) { CovGrid2D(v, nx, ny, dx, dy).WriteToFile(f); });
  m.def("covgrid2d", [](const Variogram& v, int nx, int ny, double dx, double dy) {
    CovGrid2D c(v, nx, ny, dx, dy);
    darr a({2 * nx - 1, 2 * ny - 1});
    auto r = a.mutable_unchecked<2>();
    for (int i = -nx + 1; i < nx; ++i) for (int j = -ny + 1; j < ny; ++j) r(i + nx - 1, j + ny - 1) = c.GetCov(i, j);
    return py::make_tuple(a, c.GetRangeX(), c.GetRangeY(), c.GetDX(), c.GetDY()); });
  m.def("fftcov", [](const Variogram& v, N n, V d, V s) -> py::array {
    if (s == V(n.size(), 1.0)) {   // defaults
      if (n.size() == 1) return arr(FFTCovGrid1D(v, n[0], d[0]).GetCov());
      if (n.size() == 2) return arr(FFTCovGrid2D(v, n[0], d[0], n[1], d[1]).GetCov());
      return arr(FFTCovGrid3D(v, n[0], d[0], n[1], d[1], n[2], d[2]).GetCov());
    }
    if (n.size() == 1) return arr(FFTCovGrid1D(v, n[0], d[0], s[0]).GetCov());
    if (n.size() == 2) return arr(FFTCovGrid2D(v, n[0], d[0], n[1], d[1], s[0], s[1]).GetCov());
    return arr(FFTCovGrid3D(v, n[0], d[0], n[1], d[1], n[2], d[2], s[0], s[1], s[2]).GetCov()); });
  m.def("padding", [](const Variogram& v, N n, V d) {
    return n.size() == 1 ? FindNDimPadding(v, n[0], d[0]) : n.size() == 2 ? FindNDimPadding(v, n[0], d[0], n[1], d[1]) : FindNDimPadding(v, n[0], d[0], n[1], d[1], n[2], d[2]); });
  m.def("sim1", [](const Variogram& v, size_t nx, double dx, RandomGenerator* g, int pad, double s, size_t nout) {
    V out(nout);
    if (s != 1.0) Simulate1DGaussianField(v, nx, dx, out, g, pad, s);
    else if (pad >= 0) Simulate1DGaussianField(v, nx, dx, out, g, pad);
    else if (g) Simulate1DGaussianField(v, nx, dx, out, g);
    else Simulate1DGaussianField(v, nx, dx, out);
    return arr(out); });
  m.def("sim2", [](const Variogram& v, N n, V d, int nf, RandomGenerator* g, std::vector<int> p, V s) {
    std::vector<Grid2D<double> > out;
    if (s[1] != 1.0) Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out, g, p[0], p[1], s[0], s[1]);
    else if (s[0] != 1.0) Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out, g, p[0], p[1], s[0]);
    else if (p[1] >= 0) Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out, g, p[0], p[1]);
    else if (p[0] >= 0) Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out, g, p[0]);
    else if (g) Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out, g);
    else Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], nf, out);
    return lst(out); });
  m.def("sim2one", [](const Variogram& v, N n, V d) {
    Grid2D<double> out;
    Simulate2DGaussianField(v, n[0], d[0], n[1], d[1], out);
    return arr(out); });
  m.def("sim3", [](const Variogram& v, N n, V d, int nf, std::vector<int> p, V s) {
    std::vector<Grid<double> > out;
    if (s != V(3, 1.0)) Simulate3DGaussianField(v, n[0], d[0], n[1], d[1], n[2], d[2], nf, out, p[0], p[1], p[2], s[0], s[1], s[2]);
    else if (p[2] >= 0) Simulate3DGaussianField(v, n[0], d[0], n[1], d[1], n[2], d[2], nf, out, p[0], p[1], p[2]);
    else if (p[1] >= 0) Simulate3DGaussianField(v, n[0], d[0], n[1], d[1], n[2], d[2], nf, out, p[0], p[1]);
    else if (p[0] >= 0) Simulate3DGaussianField(v, n[0], d[0], n[1], d[1], n[2], d[2], nf, out, p[0]);
    else Simulate3DGaussianField(v, n[0], d[0], n[1], d[1], n[2], d[2], nf, out);
    return lst(out); });
}
