#include "common.hpp"
#include <cmath>
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/grid/grid2dgeneral.hpp"
#include "nrlib/grid/grid4d.hpp"
#include "nrlib/grid/grid5d.hpp"
using namespace NRLib;
typedef std::vector<size_t> V;

template <class G> struct Acc;
template <class A> struct Acc<Grid2D<A> > {
  typedef Grid2D<A> G;
  static G* mk(V n, A v) { return new G(n[0], n[1], v); }
  static void resize(G& g, V n, A v) { g.Resize(n[0], n[1], v); }
  static A& at(G& g, V p) { return g(p[0], p[1]); }
  static A cat(const G& g, V p) { return g(p[0], p[1]); }
  static size_t index(const G& g, V p) { return g.GetIndex(p[0], p[1]); }
  static V ij(const G& g, size_t k) { V r(2); g.GetIJ(k, r[0], r[1]); return r; }
  static V sizes(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetN()}; }
};
template <class A> struct Acc<Grid<A> > {
  typedef Grid<A> G;
  static G* mk(V n, A v) { return new G(n[0], n[1], n[2], v); }
  static void resize(G& g, V n, A v) { g.Resize(n[0], n[1], n[2], v); }
  static A& at(G& g, V p) { return g(p[0], p[1], p[2]); }
  static A cat(const G& g, V p) { return g(p[0], p[1], p[2]); }
  static size_t index(const G& g, V p) { return g.GetIndex(p[0], p[1], p[2]); }
  static V ij(const G& g, size_t k) { V r(3); g.GetIJK(k, r[0], r[1], r[2]); return r; }
  static V sizes(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetN()}; }
};
template <class A> struct Acc<Grid4D<A> > {
  typedef Grid4D<A> G;
  static G* mk(V n, A v) { return new G(n[0], n[1], n[2], n[3], v); }
  static void resize(G& g, V n, A v) { g.Resize(n[0], n[1], n[2], n[3], v); }
  static A& at(G& g, V p) { return g(p[0], p[1], p[2], p[3]); }
  static A cat(const G& g, V p) { return g(p[0], p[1], p[2], p[3]); }
  static size_t index(const G& g, V p) { return g.GetIndex(p[0], p[1], p[2], p[3]); }
  static V ij(const G& g, size_t k) { V r(4); g.GetIJKL(k, r[0], r[1], r[2], r[3]); return r; }
  static V sizes(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL(), g.GetN()}; }
};
template <class A> struct Acc<Grid5D<A> > {
  typedef Grid5D<A> G;
  static G* mk(V n, A v) { return new G(n[0], n[1], n[2], n[3], n[4], v); }
  static void resize(G& g, V n, A v) { g.Resize(n[0], n[1], n[2], n[3], n[4], v); }
  static A& at(G& g, V p) { return g(p[0], p[1], p[2], p[3], p[4]); }
  static A cat(const G& g, V p) { return g(p[0], p[1], p[2], p[3], p[4]); }
  static size_t index(const G& g, V p) { return g.GetIndex(p[0], p[1], p[2], p[3], p[4]); }
  static V ij(const G& g, size_t k) { V r(5); g.GetIJKLM(k, r[0], r[1], r[2], r[3], r[4]); return r; }
  static V sizes(const G& g) { return {g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL(), g.GetNM(), g.GetN()}; }
};
// n = i_min, i_max, j_min, j_max
template <class A> struct Acc<Grid2DGeneral<A> > {
  typedef Grid2DGeneral<A> G;
  static G* mk(V n, A v) { return new G(n[0], n[1], n[2], n[3], v); }
  static void resize(G& g, V n, A v) { g.Resize(n[0], n[1], n[2], n[3], v); }
  static A& at(G& g, V p) { return g(p[0], p[1]); }
  static A cat(const G& g, V p) { return g(p[0], p[1]); }
  static size_t index(const G& g, V p) { return g.GetIndex(p[0], p[1]); }
  static V ij(const G& g, size_t k) { V r(2); g.GetIJ(k, r[0], r[1]); return r; }
  static V sizes(const G& g) { return {g.GetIMin(), g.GetIMax(), g.GetJMin(), g.GetJMax(), g.GetNI(), g.GetNJ(), g.GetN()}; }
};

template <class G, class A> py::class_<G> reg(py::module_& m, const char* n) {
  typedef Acc<G> C;
  py::class_<G> c(m, n);
  c.def(py::init<>())
    .def(py::init([](V n, A v) { return C::mk(n, v); }))
    .def("resize", [](G& g, V n, A v) { C::resize(g, n, v); })
    .def("set", [](G& g, V p, A v) { C::at(g, p) = v; })
    .def("get", [](const G& g, V p) { return C::cat(g, p); })
    .def("getm", [](G& g, V p) { return C::at(g, p); })
    .def("seti", [](G& g, size_t k, A v) { g(k) = v; })
    .def("geti", [](const G& g, size_t k) { return g(k); })
    .def("index", [](const G& g, V p) { return C::index(g, p); })
    .def("ij", [](const G& g, size_t k) { return C::ij(g, k); })
    .def("sizes", [](const G& g) { return C::sizes(g); })
    .def("swap", [](G& g, G& o) { g.Swap(o); })
    .def("copy", [](const G& g) { return new G(g); })
    .def("assign_from", [](G& g, const G& o) { g = o; })
    .def("all", [](const G& g) { return std::vector<A>(g.begin(), g.end()); })
    .def("allm", [](G& g) { return std::vector<A>(g.begin(), g.end()); });
  return c;
}
template <class G, class A> void minmax(py::class_<G>& c) {
  c.def("min", [](const G& g, A m) { return g.FindMin(m); }).def("max", [](const G& g, A m) { return g.FindMax(m); });
}
template <class A> void g2(py::module_& m, const char* n) {
  typedef Grid2D<A> G;
  py::class_<G> c = reg<G, A>(m, n);
  minmax<G, A>(c);
  c.def("assign", [](G& g, V n, A v) { g.Assign(n[0], n[1], v); }).def("valid", [](const G& g, int i, int j) { return g.IsValidIndex(i, j); })
   .def("storage", [](const G& g) { return g.GetStorage(); });
}
template <class A> py::class_<Grid<A> > g3(py::module_& m, const char* n) {
  typedef Grid<A> G;
  py::class_<G> c = reg<G, A>(m, n);
  c.def("assign", [](G& g, V n, A v) { g.Assign(n[0], n[1], n[2], v); }).def("resize_k", [](G& g, size_t k) { g.ResizeK(k); })
   .def("setv", [](G& g, V p, A v) { g.SetValue(p[0], p[1], p[2], v); })
   .def("getv", [](const G& g, V p) { return g.GetValue(p[0], p[1], p[2]); })
   .def("setref", [](G& g, V p, A v) { g.GetValue(p[0], p[1], p[2]) = v; })
   .def("storage", [](const G& g) { return g.GetStorage(); });
  return c;
}
PYBIND11_MODULE(vgrid, m) {
  g2<double>(m, "Grid2D_d"); g2<int>(m, "Grid2D_i");
  g3<int>(m, "Grid_i");
  py::class_<Grid<double> > c = g3<double>(m, "Grid_d");
  c.def("stats", [](const Grid<double>& g) { double a, b, c; g.GetAvgMinMax(a, b, c); return std::vector<double>{a, b, c}; })
   .def("stats_missing", [](const Grid<double>& g, double m) { double a, b, c; g.GetAvgMinMaxWithMissing(a, b, c, m); return std::vector<double>{a, b, c}; })
   .def("log", [](Grid<double>& g, double m) { g.LogTransform(m); });
  reg<Grid4D<double>, double>(m, "Grid4D_d"); reg<Grid4D<int>, int>(m, "Grid4D_i");
  reg<Grid5D<double>, double>(m, "Grid5D_d"); reg<Grid5D<int>, int>(m, "Grid5D_i");
  py::class_<Grid2DGeneral<double> > gg = reg<Grid2DGeneral<double>, double>(m, "Grid2DGeneral_d");
  minmax<Grid2DGeneral<double>, double>(gg);
  gg.def("valid", [](const Grid2DGeneral<double>& g, size_t i, size_t j) { return g.IsValidIndex(i, j); });
  py::class_<Grid2DGeneral<int> > gi = reg<Grid2DGeneral<int>, int>(m, "Grid2DGeneral_i");
  minmax<Grid2DGeneral<int>, int>(gi);
  gi.def("valid", [](const Grid2DGeneral<int>& g, size_t i, size_t j) { return g.IsValidIndex(i, j); });
}
