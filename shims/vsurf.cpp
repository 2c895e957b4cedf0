#include "common.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/surface/surfaceio.hpp"
#include "nrlib/exception/exception.hpp"
using namespace NRLib;
typedef Surface<double> B;
typedef RegularSurface<double> S;
typedef RegularSurfaceRotated<double> R;
typedef RegularSurfaceRotated<float> RF;
typedef ConstantSurface<double> C;
typedef std::vector<double> V;
static SurfaceFileFormat fmt(std::string f) { return f == "irap" ? SURF_IRAP_CLASSIC_ASCII : f == "storm" ? SURF_STORM_BINARY : f == "sgri" ? SURF_SGRI : f == "rms" ? SURF_RMS_POINTS_ASCII : SURF_UNKNOWN; }
template <class G> V vals(const G& g) { return V(g.begin(), g.end()); }
template <class G> void set(G& g, V v) { if (v.size() != g.GetN()) throw std::runtime_error("SHIM size"); std::copy(v.begin(), v.end(), g.begin()); }
template <class G> py::object xy(const G& g, size_t i, size_t j) { double x, y; g.GetXY(i, j, x, y); return py::make_tuple(x, y); }
template <class G> py::object xyn(const G& g, size_t n) { double x, y; g.GetXY(n, x, y); return py::make_tuple(x, y); }

#define COMMON(G) \
    .def("vals", &vals<G>).def("setv", [](G& g, V v) { set(g, v); }).def("get", [](const G& g, size_t i, size_t j) { return g(i, j); }) \
    .def("put", [](G& g, size_t i, size_t j, double v) { g(i, j) = v; }).def("getn", [](const G& g, size_t n) { return g(n); }) \
    .def("z_in", &G::GetZInside).def("assign", &G::Assign).def("sub", &G::Subtract) \
    .def("nc", [](G& g, int op, B* s) { return op == 0 ? g.AddNonConform(s) : op == 1 ? g.SubtractNonConform(s) : op == 2 ? g.MultiplyNonConform(s) : g.DivideNonConform(s); }) \
    .def("avg", [](const G& g) { int n; double a = g.Avg(n); return py::make_tuple(a, n, g.Avg()); }) \
    .def("xy", &xy<G>).def("xyn", &xyn<G>).def("d", [](const G& g) { return py::make_tuple(g.GetDX(), g.GetDY()); }).def("l", [](const G& g) { return py::make_tuple(g.GetLengthX(), g.GetLengthY()); }) \
    .def("n", [](const G& g) { return py::make_tuple(g.GetNI(), g.GetNJ(), g.GetN()); }).def("dims", &G::SetDimensions).def("resize", &G::Resize) \
    .def("missing_at", &G::IsMissingAt).def("set_missing", &G::SetMissing).def("mv", &G::GetMissingValue).def("set_mv", &G::SetMissingValue).def("name", &G::GetName).def("set_name", &G::SetName) \
    .def("read", [](G& g, std::string f, std::string t) { if (t == "default") g.ReadFromFile(f); else g.ReadFromFile(f, fmt(t)); }) \
    .def("write", [](const G& g, std::string f, std::string t) { if (t == "default") g.WriteToFile(f); else g.WriteToFile(f, fmt(t)); })

PYBIND11_MODULE(vsurf, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<B>(m, "B").def("z", &B::GetZ).def("encl", &B::EnclosesRectangle).def("is_missing", &B::IsMissing).def("inside", &B::IsInsideSurface).def("add", &B::Add).def("mul", &B::Multiply)
    .def("minmax", [](B& b) { return py::make_tuple(b.Min(), b.Max()); }).def("ext", [](B& b) { return py::make_tuple(b.GetXMin(), b.GetXMax(), b.GetYMin(), b.GetYMax()); }).def("clone", &B::Clone);
  py::class_<C, B>(m, "C").def(py::init<double>()).def("z0", [](C& c) { return c.GetZ(); });
  py::class_<S, B>(m, "S", py::multiple_inheritance()).def(py::init<>()).def(py::init<double, double, double, double, size_t, size_t, double>())
    .def_static("grid", [](double x, double y, double lx, double ly, size_t ni, size_t nj, V v) { Grid2D<double> g(ni, nj); set(g, v); return S(x, y, lx, ly, g); })
    .def_static("file", [](std::string f, std::string t) { return t == "default" ? S(f) : S(f, fmt(t)); })
    COMMON(S)
    .def("minnode", [](S& s) { size_t i, j; double v = s.MinNode(i, j); return py::make_tuple(v, i, j); }).def("maxnode", [](S& s) { size_t i, j; double v = s.MaxNode(i, j); return py::make_tuple(v, i, j); })
    .def("corners", [](S& s, double x, double y) { double c[4]; s.GetCorners(x, y, c); return V(c, c + 4); }).def("neigh", &S::CreateNeighbourAvg)
    .def("find", [](S& s, double x, double y) { size_t i, j; double a, b; s.FindIndex(x, y, i, j); s.FindContIndex(x, y, a, b); return py::make_tuple(i, j, s.FindI(x), s.FindJ(y), a, b); })
    .def("general", [](S& s, double x, double y) { int i, j; s.FindGeneralIndex(x, y, i, j); return py::make_tuple(i, j); })
    .def("nearest", [](S& s, double x, double y) { size_t i, j; s.FindNearestNodeIndex(x, y, i, j); return py::make_tuple(i, j); })
    .def("gx", &S::GetX).def("gy", &S::GetY)
    .def("node", [](S& s, size_t i, size_t j) { double x, y, z, a, b, c; s.GetNode(i, j, x, y, z); s.GetNode(i + j * s.GetNI(), a, b, c); return py::make_tuple(x, y, z, a, b, c); })
    .def("swap", &S::Swap).def("copy", [](S& s) { return S(s); });
  py::class_<R, B>(m, "R", py::multiple_inheritance()).def(py::init<>()).def(py::init<double, double, double, double, size_t, size_t, double, double>()).def(py::init<const S&, double>())
    .def_static("grid", [](double x, double y, double lx, double ly, size_t ni, size_t nj, V v, double a) { Grid2D<double> g(ni, nj); set(g, v); return R(x, y, lx, ly, g, a); })
    .def_static("file", [](std::string f, std::string t) { return t == "default" ? R(f) : R(f, fmt(t)); })
    COMMON(R)
    .def("ref", [](R& r) { return py::make_tuple(r.GetXRef(), r.GetYRef()); }).def("angle", &R::GetAngle).def("set_angle", &R::SetAngle).def("resample", &R::ResampleSurface);
  py::class_<RF>(m, "RF").def("vals", &vals<RF>).def("n", [](RF& g) { return py::make_tuple(g.GetNI(), g.GetNJ(), g.GetN()); }).def("mv", &RF::GetMissingValue).def("angle", &RF::GetAngle)
    .def("ref", [](RF& r) { return py::make_tuple(r.GetXRef(), r.GetYRef()); }).def("d", [](RF& g) { return py::make_tuple(g.GetDX(), g.GetDY()); });
  m.def("multi", &ReadMultipleSgriSurf);
  m.def("type", [](std::string f) { return GetSurfFormatString(FindSurfaceFileType(f)); });
  m.def("hufsa", &FindHufsaTrends);
}
