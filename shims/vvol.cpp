#include "common.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/volume/volume.hpp"
#include "nrlib/stormgrid/stormcontgrid.hpp"
#include "nrlib/stormgrid/stormfaciesgrid.hpp"
#include "nrlib/exception/exception.hpp"
#include <memory>
using namespace NRLib;
typedef Surface<double> B;
typedef std::vector<double> D;
typedef std::unique_ptr<B> P;
// A surface is (z) or (x0, y0, lx, ly, ni, nj, angle, v...).
static P mk(const D& s) {
  if (s.size() == 1) return P(new ConstantSurface<double>(s[0]));
  size_t ni = size_t(s[4]), nj = size_t(s[5]);
  Grid2D<double> g(ni, nj, 0.0);
  if (s.size() != 7 + ni * nj) throw std::runtime_error("SHIM size");
  std::copy(s.begin() + 7, s.end(), g.begin());
  if (std::isnan(s[6])) return P(new RegularSurface<double>(s[0], s[1], s[2], s[3], g));
  RegularSurfaceRotated<double>* r = new RegularSurfaceRotated<double>(s[0], s[1], s[2], s[3], ni, nj, s[6], 0.0);
  std::copy(s.begin() + 7, s.end(), r->begin());
  return P(r);
}
static Endianess en(bool little) { return little ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; }
template <class G> py::object find(const G& g, double x, double y, double z) { size_t i, j, k; g.FindIndex(x, y, z, i, j, k); return py::make_tuple(i, j, k, g.FindIndex(x, y, z)); }
template <class G> py::object cent(const G& g, size_t i, size_t j, size_t k) { double x, y, z; g.FindCenterOfCell(i, j, k, x, y, z); return py::make_tuple(x, y, z); }
template <class G, class T> void set(G& g, std::vector<T> v) { if (v.size() != g.GetN()) throw std::runtime_error("SHIM size"); std::copy(v.begin(), v.end(), g.begin()); }
typedef StormContGrid CG;
typedef StormFaciesGrid FG;
#define GRID(G, T) \
    .def("vals", [](const G& g) { return std::vector<T>(g.begin(), g.end()); }).def("setv", &set<G, T>).def("n", [](const G& g) { return py::make_tuple(g.GetNI(), g.GetNJ(), g.GetNK(), g.GetN()); }) \
    .def("mc", &G::GetMissingCode).def("set_mc", &G::SetMissingCode).def("is_missing", &G::IsMissing).def("ascii", [](const G& g) { return g.GetFormat() == G::STORM_ASCII; }) \
    .def("set_ascii", [](G& g, bool a) { g.SetFormat(a ? G::STORM_ASCII : G::STORM_BINARY); }).def("model", &G::GetModelFileName).def("set_model", &G::SetModelFileName) \
    .def("zone", &G::GetZoneNumber).def("set_zone", &G::SetZoneNumber).def("find", &find<G>).def("cent", &cent<G>).def("d", [](const G& g) { return py::make_tuple(g.GetDX(), g.GetDY()); }) \
    .def("copy", [](const G& g) { return G(g); }).def("assign", [](G& g, const G& o) { g = o; })

PYBIND11_MODULE(vvol, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  m.def("surf", [](D s, double x, double y) { P p = mk(s); double z = p->GetZ(x, y); return py::make_tuple(z, p->IsMissing(z)); });
  py::class_<Volume>(m, "V", py::multiple_inheritance()).def(py::init<>()).def(py::init<double, double, double, double, double, double, double>())
    .def_static("surf", [](double x, double y, double lx, double ly, D t, D b, double a) { P p = mk(t), q = mk(b); return Volume(x, y, lx, ly, *p, *q, a); })
    .def("vcopy", [](const Volume& v) { return Volume(v); }).def("vassign", [](Volume& v, const Volume& o) { v = o; })
    .def("dims", &Volume::SetDimensions).def("set_angle", &Volume::SetAngle).def("set_tol", &Volume::SetTolerance).def("tol", &Volume::GetTolerance)
    .def("geo", [](const Volume& v) { return py::make_tuple(v.GetXMin(), v.GetYMin(), v.GetLX(), v.GetLY(), v.GetAngle(), v.GetLZ()); })
    .def("ext", [](const Volume& v, size_t nx, size_t ny) { return py::make_tuple(v.GetTopZMin(nx, ny), v.GetTopZMax(nx, ny), v.GetBotZMin(nx, ny), v.GetBotZMax(nx, ny), v.GetZMin(nx, ny), v.GetZMax(nx, ny)); })
    .def("set2", [](Volume& v, D t, D b, int check) { P p = mk(t), q = mk(b); if (check < 0) v.SetSurfaces(*p, *q); else v.SetSurfaces(*p, *q, check == 0); })
    .def("set4", [](Volume& v, D t, D b, D et, D eb) { P p = mk(t), q = mk(b), r = mk(et), s = mk(eb); v.SetSurfaces(*p, *q, *r, *s); })
    .def("own2", [](Volume& v, int a, int b) { const Volume& c = v; v.SetSurfaces(a ? c.GetBotSurface() : c.GetTopSurface(), b ? c.GetBotSurface() : c.GetTopSurface()); })
    .def("own4", [](Volume& v, int a, int b) { const Volume& c = v; v.SetSurfaces(c.GetTopSurface(), c.GetBotSurface(), a ? c.GetErosionBot() : c.GetErosionTop(), b ? c.GetErosionBot() : c.GetErosionTop()); })
    .def("top", [](const Volume& v, double x, double y) { double z = v.GetTopSurface().GetZ(x, y); return py::make_tuple(z, v.GetTopSurface().IsMissing(z)); })
    .def("bot", [](const Volume& v, double x, double y) { double z = v.GetBotSurface().GetZ(x, y); return py::make_tuple(z, v.GetBotSurface().IsMissing(z)); })
    .def("top_nc", [](Volume& v, double x, double y) { return v.GetTopSurface().GetZ(x, y); }).def("bot_nc", [](Volume& v, double x, double y) { return v.GetBotSurface().GetZ(x, y); })
    .def("etop", [](const Volume& v, double x, double y) { return v.GetErosionTop().GetZ(x, y); }).def("ebot", [](const Volume& v, double x, double y) { return v.GetErosionBot().GetZ(x, y); })
    .def("thick", [](const Volume& v, size_t n) {   // largest, and smallest, thickness on an n x n lattice including the edges, and the largest step between neighbours
      const B &t = v.GetTopSurface(), &b = v.GetBotSurface(); D h(n * n); double lo = 1e300, hi = -1e300, st = 0; bool miss = false;
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        double u = v.GetLX() * i / (n - 1), w = v.GetLY() * j / (n - 1), c = std::cos(v.GetAngle()), s = std::sin(v.GetAngle());
        double x = v.GetXMin() + c * u - s * w, y = v.GetYMin() + s * u + c * w, zt = t.GetZ(x, y), zb = b.GetZ(x, y);
        if (t.IsMissing(zt) || b.IsMissing(zb)) { miss = true; h[i * n + j] = 0; continue; }
        h[i * n + j] = zb - zt; lo = std::min(lo, zb - zt); hi = std::max(hi, zb - zt);
        if (i) st = std::max(st, std::fabs(h[i * n + j] - h[(i - 1) * n + j]));
        if (j) st = std::max(st, std::fabs(h[i * n + j] - h[i * n + j - 1]));
      }
      return py::make_tuple(lo, hi, st, miss); })
    .def("is_in", [](const Volume& v, double x, double y) { return v.IsInside(x, y) != 0; }).def("is_in3", [](const Volume& v, double x, double y, double z) { return v.IsInside(x, y, z); })
    .def("is_tol", [](const Volume& v, double x, double y) { return v.IsInsideTolerance(x, y) != 0; }).def("is_ztol", &Volume::IsInsideZTolerance)
    .def("center", [](const Volume& v) { double x, y, z; v.FindCenter(x, y, z); return py::make_tuple(x, y, z); })
    .def("rel", [](const Volume& v, double a, double b) { double x, y; v.GetXYFromRelative(a, b, x, y); return py::make_tuple(x, y); })
    .def("check", [](const Volume& v, D s) { P p = mk(s); return v.CheckSurface(*p); });

  py::class_<CG, Volume>(m, "CG", py::multiple_inheritance()).def(py::init<>()).def(py::init<size_t, size_t, size_t, float>()).def(py::init([](const Volume& v, size_t a, size_t b, size_t c) { return CG(v, a, b, c); }))
    .def_static("filled", [](const Volume& v, size_t a, size_t b, size_t c, float f) { return CG(v, a, b, c, f); })
    .def_static("grid", [](const Volume& v, size_t a, size_t b, size_t c, std::vector<float> f) { Grid<float> g(a, b, c); set(g, f); return CG(v, g); })
    .def_static("file", [](std::string f, bool le) { return CG(f, en(le)); })
    GRID(CG, float)
    .def("var", &CG::GetVariableName).def("set_var", &CG::SetVariableName)
    .def("write", [](const CG& g, std::string f, std::string h, bool plain, bool le, bool rp) { g.WriteToFile(f, h, plain, en(le), rp); }).def("write1", [](const CG& g, std::string f) { g.WriteToFile(f); })
    .def("sgri", [](const CG& g, std::string f, std::string h, std::string l, double dz, bool le) { g.WriteToSgriFile(f, h, l, dz, en(le)); })
    .def("read", [](CG& g, std::string f, bool cp, bool le) { g.ReadFromFile(f, cp, en(le)); })
    .def("findxy", [](const CG& g, double x, double y) { size_t i, j; g.FindXYIndex(x, y, i, j); return py::make_tuple(i, j); })
    .def("zidx", [](const CG& g, double x, double y, double z) { size_t a, b; double t; g.FindZInterpolatedIndex(x, y, z, a, b, t); return py::make_tuple(g.GetValueZInterpolatedFromIndex(a, b, t), g.GetValueZInterpolatedFromIndexNoMissing(a, b, t)); })
    .def("interp", [](const CG& g, int i, int j, float k) { return g.GetValueInterpolated(i, j, k); }).def("avgrel", &CG::GetAvgRelThick)
    .def("zinterp", &CG::GetValueZInterpolated).def("closest", &CG::GetValueClosestInZ).def("zmin", [](const CG& g) { return g.GetZMin(); }).def("zmax", [](const CG& g) { return g.GetZMax(); })
    .def("crava", &CG::WriteCravaFile);

  py::class_<FG, Volume>(m, "FG", py::multiple_inheritance()).def(py::init<>()).def(py::init<size_t, size_t, size_t>()).def(py::init<const Volume&, size_t, size_t, size_t>())
    .def_static("file", [](std::string f, bool le) { return FG(f, en(le)); })
    GRID(FG, int)
    .def("code", &FG::GetFaciesCode).def("cell", [](const FG& g, size_t i) { return g.GetFaciesFromCell(i); }).def("cell3", [](const FG& g, size_t i, size_t j, size_t k) { return g.GetFaciesFromCell(i, j, k); })
    .def("fname", &FG::GetFaciesName).def("set_body", &FG::SetBodyFacies).def("set_names", &FG::SetFaciesNames).def("consistent", &FG::CheckConsistency)
    .def("write", [](const FG& g, std::string f, bool le) { g.WriteToFile(f, en(le)); }).def("read", [](FG& g, std::string f, bool cp, bool le) { g.ReadFromFile(f, cp, en(le)); });
}
