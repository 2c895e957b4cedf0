#include "common.hpp"
#include <list>
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
using namespace NRLib;

template <typename T> struct G2 {
  typedef py::array_t<T, py::array::f_style | py::array::forcecast> arr;
  typedef py::array_t<std::complex<T>, py::array::f_style | py::array::forcecast> carr;
  FFTGrid2D<T> g;
  G2(size_t a, size_t b, size_t, size_t pa, size_t pb, size_t, bool s) : g(a, b, pa, pb, s) {}
  std::vector<size_t> sizes() { return {g.GetRealNI(), g.GetRealNJ(), g.GetNItot(), g.GetNJtot(), g.GetComplexNI(), g.GetComplexNJ()}; }
  void init(arr a) { Grid2D<T> v(a.shape(0), a.shape(1));
    for (py::ssize_t i = 0; i < a.shape(0); ++i) for (py::ssize_t j = 0; j < a.shape(1); ++j) v(i, j) = a.at(i, j);
    g.Initialize(v); }
  void set_real(std::vector<int> p, T v) { g.Real(p[0], p[1]) = v; }
  T real(std::vector<int> p) { const FFTGrid2D<T>& c = g; return c.Real(p[0], p[1]); }
  void set_complex(std::vector<int> p, std::complex<T> v) { g.Complex(p[0], p[1]) = v; }
  std::complex<T> cplx(std::vector<int> p) { const FFTGrid2D<T>& c = g; return c.Complex(p[0], p[1]); }
  arr full() { arr a({g.GetNItot(), g.GetNJtot()}); const FFTGrid2D<T>& c = g;
    for (size_t k = 0; k < g.GetNItot() * g.GetNJtot(); ++k) a.mutable_data()[k] = c.RealData()[k]; return a; }
  carr spectrum() { carr a({g.GetComplexNI(), g.GetComplexNJ()}); const FFTGrid2D<T>& c = g;
    for (size_t i = 0; i < g.GetComplexNI(); ++i) for (size_t j = 0; j < g.GetComplexNJ(); ++j) a.mutable_at(i, j) = c.Complex(i, j); return a; }
  arr grid() { Grid2D<T> o = g.GetRealGrid(); arr a({o.GetNI(), o.GetNJ()});
    for (size_t i = 0; i < o.GetNI(); ++i) for (size_t j = 0; j < o.GetNJ(); ++j) a.mutable_at(i, j) = o(i, j); return a; }
  void fft() { g.DoFFT(); }
  void ifft() { g.DoInverseFFT(); }
  void conv(G2& o) { g.Convolve(o.g); }
  void convcov(G2& o) { g.ConvolveCovariance(o.g); }
};

template <typename T> struct G3 {
  typedef py::array_t<T, py::array::f_style | py::array::forcecast> arr;
  typedef py::array_t<std::complex<T>, py::array::f_style | py::array::forcecast> carr;
  FFTGrid3D<T> g;
  G3(size_t a, size_t b, size_t c, size_t pa, size_t pb, size_t pc, bool s) : g(a, b, c, pa, pb, pc, s) {}
  std::vector<size_t> sizes() { return {g.GetRealNI(), g.GetRealNJ(), g.GetRealNK(), g.GetNItot(), g.GetNJtot(), g.GetNKtot(),
                                        g.GetComplexNI(), g.GetComplexNJ(), g.GetComplexNK()}; }
  Grid<T> mk(arr a) { Grid<T> v(a.shape(0), a.shape(1), a.shape(2));
    for (py::ssize_t i = 0; i < a.shape(0); ++i) for (py::ssize_t j = 0; j < a.shape(1); ++j) for (py::ssize_t k = 0; k < a.shape(2); ++k)
      v(i, j, k) = a.at(i, j, k);
    return v; }
  void init(arr a) { g.Initialize(mk(a)); }
  void init_pad(arr a) { g.InitializePadZero(mk(a)); }
  void init_const(T v) { g.InitializeConstant(v); }
  void set_real(std::vector<int> p, T v) { g.Real(p[0], p[1], p[2]) = v; }
  T real(std::vector<int> p) { const FFTGrid3D<T>& c = g; return c.Real(p[0], p[1], p[2]); }
  void set_cyc(std::vector<int> p, T v) { g.RealCyclic(p[0], p[1], p[2]) = v; }
  T cyc(std::vector<int> p) { const FFTGrid3D<T>& c = g; return c.RealCyclic(p[0], p[1], p[2]); }
  void set_complex(std::vector<int> p, std::complex<T> v) { g.Complex(p[0], p[1], p[2]) = v; }
  std::complex<T> cplx(std::vector<int> p) { const FFTGrid3D<T>& c = g; return c.Complex(p[0], p[1], p[2]); }
  arr full() { arr a({g.GetNItot(), g.GetNJtot(), g.GetNKtot()}); const FFTGrid3D<T>& c = g;
    for (size_t k = 0; k < g.GetNItot() * g.GetNJtot() * g.GetNKtot(); ++k) a.mutable_data()[k] = c.RealData()[k]; return a; }
  carr spectrum() { carr a({g.GetComplexNI(), g.GetComplexNJ(), g.GetComplexNK()}); const FFTGrid3D<T>& c = g;
    for (size_t i = 0; i < g.GetComplexNI(); ++i) for (size_t j = 0; j < g.GetComplexNJ(); ++j) for (size_t k = 0; k < g.GetComplexNK(); ++k)
      a.mutable_at(i, j, k) = c.Complex(i, j, k); return a; }
  arr grid() { Grid<T> o = g.GetRealGrid(); arr a({o.GetNI(), o.GetNJ(), o.GetNK()});
    for (size_t i = 0; i < o.GetNI(); ++i) for (size_t j = 0; j < o.GetNJ(); ++j) for (size_t k = 0; k < o.GetNK(); ++k)
      a.mutable_at(i, j, k) = o(i, j, k); return a; }
  void fft() { g.DoFFT(); }
  void ifft() { g.DoInverseFFT(); }
  void conv(G3& o) { g.Convolve(o.g); }
  void convcov(G3& o) { g.ConvolveCovariance(o.g); }
  void convno(G3& o) { g.ConvolveNoFFT(o.g); }
};

template <class C, class T> py::class_<C> reg(py::module_& m, const char* n) {
  py::class_<C> c(m, n);
  c.def(py::init<size_t, size_t, size_t, size_t, size_t, size_t, bool>())
    .def("sizes", &C::sizes).def("init", &C::init).def("set_real", &C::set_real).def("real", &C::real)
    .def("set_complex", &C::set_complex).def("cplx", &C::cplx)
    .def("full", &C::full).def("spectrum", &C::spectrum).def("grid", &C::grid)
    .def("fft", &C::fft).def("ifft", &C::ifft).def("conv", &C::conv).def("convcov", &C::convcov);
  return c;
}

template <class C> void reg3(py::class_<C> c) {
  c.def("init_pad", &C::init_pad).def("init_const", &C::init_const).def("set_cyc", &C::set_cyc).def("cyc", &C::cyc).def("convno", &C::convno);
}

PYBIND11_MODULE(vfft, m) {
  m.def("newsize", [](size_t n, bool e) { return FindNewSizeWithPadding(n, e); });
  m.def("newsize1", [](size_t n) { return FindNewSizeWithPadding(n); });
  m.def("fft1", [](std::vector<double> v, bool s, int pad, bool lst) {
    std::vector<std::complex<double> > o;
    if (lst) { std::list<double> l(v.begin(), v.end()); ComputeFFT1D(l, o, s, pad); }
    else ComputeFFT1D(v, o, s, pad);
    return o; });
  m.def("inv1", [](std::vector<std::complex<double> > v, size_t n, bool s, bool lst) {
    std::vector<double> o(n, -7.25);
    if (lst) { std::list<double> l(n, -7.25); ComputeFFTInv1D(v, l, s); std::copy(l.begin(), l.end(), o.begin()); }
    else ComputeFFTInv1D(v, o, s);
    return o; });
  reg<G2<double>, double>(m, "G2d");
  reg<G2<float>, float>(m, "G2f");
  reg3(reg<G3<double>, double>(m, "G3d"));
  reg3(reg<G3<float>, float>(m, "G3f"));
}
