#include "common.hpp"
#include <memory>
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/lognormal.hpp"
#include "nrlib/random/beta.hpp"
#include "nrlib/random/betawithendmass.hpp"
#include "nrlib/random/triangular.hpp"
#include "nrlib/random/uniform.hpp"
#include "nrlib/random/splituniform.hpp"
#include "nrlib/random/chisquared.hpp"
#include "nrlib/random/binomial.hpp"
#include "nrlib/random/poisson.hpp"
#include "nrlib/random/delta.hpp"
#include "nrlib/random/fractal.hpp"
#include "nrlib/random/generaldiscrete.hpp"
#include "nrlib/random/functions.hpp"
#include "nrlib/random/gamma.hpp"
using namespace NRLib;

template <class A> void reg(py::module_& m, const char* n) {
  typedef Distribution<A> D;
  py::class_<D>(m, n)
    .def("pdf", [](const D& d, A x) { return d.Pdf(x); })
    .def("cdf", [](const D& d, A x) { return d.Cdf(x); })
    .def("quantile", [](const D& d, double q) { return d.Quantile(q); })
    .def("draw", [](const D& d) { return d.Draw(); })
    .def("drawg", [](const D& d, RandomGenerator& g) { return d.Draw(g); })
    .def("drawn", [](const D& d, RandomGenerator* g, int n) {
      std::vector<A> r(n);
      for (int i = 0; i < n; ++i) r[i] = g ? d.Draw(*g) : d.Draw();
      return r; })
    .def("clone", [](const D& d) { return d.Clone(); });
}

struct Raw { // the generator behind, with its array functions
  dsfmt_t s;
  void seed(uint32_t x) { dsfmt_init_gen_rand(&s, x); }
  void key(std::vector<uint32_t> k) { dsfmt_init_by_array(&s, k.data(), (int)k.size()); }
  std::vector<double> fill(int kind, int n) {
    void* p = nullptr;
    if (posix_memalign(&p, 16, n * sizeof(double))) throw std::bad_alloc();
    double* a = (double*)p;
    if (kind == 0) dsfmt_fill_array_close1_open2(&s, a, n);
    if (kind == 1) dsfmt_fill_array_close_open(&s, a, n);
    if (kind == 2) dsfmt_fill_array_open_close(&s, a, n);
    if (kind == 3) dsfmt_fill_array_open_open(&s, a, n);
    std::vector<double> r(a, a + n);
    free(p);
    return r;
  }
  std::vector<double> draw(int kind, int n) {
    std::vector<double> r(n);
    for (double& x : r) x = kind == 0 ? dsfmt_genrand_close1_open2(&s) : kind == 1 ? dsfmt_genrand_close_open(&s) : kind == 2 ? dsfmt_genrand_open_close(&s) : dsfmt_genrand_open_open(&s);
    return r;
  }
};

template <class F>
static py::bytes bulk(int n, F f) {
  std::string s(n * sizeof(double), 0);
  double* d = reinterpret_cast<double*>(&s[0]);
  for (int i = 0; i < n; ++i)
    d[i] = f();
  return py::bytes(s);
}

PYBIND11_MODULE(vrand, m) {
  py::class_<Raw>(m, "Raw").def(py::init<>()).def("seed", &Raw::seed).def("key", &Raw::key).def("fill", &Raw::fill).def("draw", &Raw::draw);
  m.def("min_array", []() { return dsfmt_get_min_array_size(); });
  py::class_<RandomGenerator>(m, "Gen")
    .def(py::init<>()).def(py::init<unsigned long>())
    .def("init", [](RandomGenerator& g) { g.Initialize(); })
    .def("init_seed", [](RandomGenerator& g, unsigned long s) { g.Initialize(s); })
    .def("u32", [](RandomGenerator& g) { return g.DrawUint32(); })
    .def("unif", [](RandomGenerator& g) { return g.Unif01(); })
    .def("unif_open", [](RandomGenerator& g) { return g.Unif01Open(); })
    .def("norm", [](RandomGenerator& g) { return g.Norm01(); })
    .def("norms", [](RandomGenerator& g, int n) { return bulk(n, [&]() { return g.Norm01(); }); })
    .def("unifs", [](RandomGenerator& g, int n) { return bulk(n, [&]() { return g.Unif01(); }); })
    .def("start_seed", [](RandomGenerator& g) { return g.GetStartSeed(); })
    .def("copy", [](const RandomGenerator& g) { return new RandomGenerator(g); })
    .def("assign", [](RandomGenerator& g, const RandomGenerator& o) { g = o; });
  m.def("init", []() { Random::Initialize(); });
  m.def("init_seed", [](unsigned long s) { Random::Initialize(s); });
  m.def("init_file", [](std::string f) { Random::Initialize(f); });
  m.def("u32", []() { return Random::DrawUint32(); });
  m.def("unif", []() { return Random::Unif01(); });
  m.def("unif_open", []() { return Random::Unif01Open(); });
  m.def("norm", []() { return Random::Norm01(); });
  m.def("norms", [](int n) { return bulk(n, []() { return Random::Norm01(); }); });
  m.def("unifs", [](int n) { return bulk(n, []() { return Random::Unif01(); }); });
  m.def("start_seed", []() { return Random::GetStartSeed(); });
  m.def("write_seed", []() { Random::WriteSeedToFile(); });
  m.def("erf", [](double x) { return NRLib::erf(x); });
  m.def("erfc", [](double x) { return NRLib::erfc(x); });
  m.def("erf_inv", [](double x) { return NRLib::erf_inv(x); });
  m.def("erfc_inv", [](double x) { return NRLib::erfc_inv(x); });
  m.def("gammln", [](double x) { return NRLib::gammln(x); });
  m.def("gammp", [](double a, double x) { return NRLib::gammp(a, x); });
  m.def("invgammp", [](double p, double a) { return NRLib::invgammp(p, a); });
  m.def("bico", [](int n, int k) { return NRLib::bico(n, k); });
  m.def("quantile01", [](double p) { return Normal::Quantile01(p); });

  reg<double>(m, "Dd");
  reg<int>(m, "Di");
  typedef Distribution<double> DD;
  typedef Distribution<int> DI;
  py::class_<Normal, DD>(m, "Normal").def(py::init<>()).def(py::init<double, double>())
    .def("set", [](Normal& n, double a, double b) { n.SetParameters(a, b); })
    .def("lower", [](const Normal& n, double l, RandomGenerator* g) { return g ? n.DrawLowerTruncated(l, *g) : n.DrawLowerTruncated(l); })
    .def("upper", [](const Normal& n, double l, RandomGenerator* g) { return g ? n.DrawUpperTruncated(l, *g) : n.DrawUpperTruncated(l); })
    .def("two", [](const Normal& n, double a, double b, RandomGenerator* g) { return g ? n.DrawTwoSidedTruncated(a, b, *g) : n.DrawTwoSidedTruncated(a, b); })
    .def("phiinv", [](const Normal& n, double y) { return n.PhiInverse(y); })
    .def("pot", [](const Normal& n, double x) { return n.Potential(x); })
    .def("pot2", [](const Normal& n, double x, double a, double b) { return n.PotentialTwoSidedTruncated(x, a, b); })
    .def("pot0", [](const Normal& n, double x) { return n.PotentialZeroTruncated(x); })
    .def("potl", [](const Normal& n, double x, double a) { return n.PotentialLowerTruncated(x, a); });
  py::class_<LogNormal, DD>(m, "LogNormal").def(py::init<>()).def(py::init<double, double>())
    .def("set", [](LogNormal& n, double a, double b) { n.SetParameters(a, b); });
  py::class_<Beta, DD>(m, "Beta").def(py::init<double, double, double, double, int>())
    .def("info", [](const Beta& b) { return std::vector<double>{b.GetMinVal(), b.GetMaxVal(), b.GetInterval()}; });
  py::class_<BetaWithEndMass, DD>(m, "BetaWithEndMass").def(py::init<double, double, double, double, double, double, int>())
    .def("info", [](const BetaWithEndMass& b) { return std::vector<double>{b.GetMinVal(), b.GetMaxVal(), b.GetInterval()}; });
  py::class_<Triangular, DD>(m, "Triangular").def(py::init<>()).def(py::init<double, double, double>())
    .def("set", [](Triangular& n, double a, double b, double c) { n.SetParameters(a, b, c); });
  py::class_<Uniform, DD>(m, "Uniform").def(py::init<>()).def(py::init<double, double>())
    .def("set", [](Uniform& n, double a, double b) { n.SetParameters(a, b); });
  py::class_<SplitUniform, DD>(m, "SplitUniform").def(py::init<>()).def(py::init<double, double, double>())
    .def("set", [](SplitUniform& n, double a, double b, double c) { n.SetParameters(a, b, c); });
  py::class_<ChiSquared, DD>(m, "ChiSquared").def(py::init<double>());
  py::class_<Delta, DD>(m, "Delta").def(py::init<>()).def(py::init<double>())
    .def("set", [](Delta& n, double a) { n.SetParameters(a); });
  py::class_<Fractal, DD>(m, "Fractal").def(py::init<double, double, double>())
    .def("upper", [](const Fractal& f, double q, bool h, double l) { return f.DrawFromUpperQuantile(q, h, l); })
    .def("lower", [](const Fractal& f, double q) { return f.DrawFromLowerQuantile(q); })
    .def("middle", [](const Fractal& f, double a, double b) { return f.DrawFromMiddleQuantile(a, b); })
    .def("min", [](const Fractal& f) { return f.GetMin(); });
  py::class_<Binomial, DI>(m, "Binomial").def(py::init<int, double>());
  py::class_<Poisson, DI>(m, "Poisson").def(py::init<double>());
  py::class_<GeneralDiscrete, DI>(m, "GeneralDiscrete").def(py::init<std::vector<double>>())
    .def("n", [](const GeneralDiscrete& g) { return g.GetN(); });
}
