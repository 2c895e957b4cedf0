#include "common.hpp"
#include "nrlib/eclipsegrid/eclipsegrid.hpp"
#include "nrlib/eclipsegrid/eclipsegeometry.hpp"
#include "nrlib/eclipsegrid/eclipsecarfin.hpp"
#include "nrlib/eclipsegrid/eclipsecarfingroup.hpp"
#include "nrlib/eclipsegrid/eclipsefault.hpp"
#include "nrlib/eclipsegrid/eclipsefaceindexer.hpp"
#include "nrlib/eclipsegrid/eclipsetransmult.hpp"
#include "nrlib/eclipsegrid/eclipseeditnnc.hpp"
#include "nrlib/exception/exception.hpp"
#include <list>
#include <memory>
using namespace NRLib;
typedef EclipseGrid G;
typedef std::vector<double> D;
typedef EclipseFault::Segment Sg;
struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(0)) {} ~Quiet() { std::cout.rdbuf(b); } };
static py::tuple pt(const Point& p) { return py::make_tuple(p.x, p.y, p.z); }
static py::list pts(const std::vector<Point>& v) { py::list l; for (size_t i = 0; i < v.size(); ++i) l.append(pt(v[i])); return l; }
static Sg seg(const std::vector<int>& v) { Sg s; s.i_from = v[0]; s.i_to = v[1]; s.j_from = v[2]; s.j_to = v[3]; s.k_from = v[4]; s.k_to = v[5]; s.face = Face(v[6]); return s; }
static std::vector<int> unseg(const Sg& s) { return {s.i_from, s.i_to, s.j_from, s.j_to, s.k_from, s.k_to, int(s.face)}; }
static EclipseFault fault(const std::string& name, const std::vector<std::vector<int>>& v) { EclipseFault f(name); for (auto& s : v) f.AddSegment(seg(s)); return f; }
static py::dict faults(const G& g) {
  py::dict d;
  for (auto it = g.FaultsBegin(); it != g.FaultsEnd(); ++it) {
    py::list l; for (auto s = it->second.SegmentsBegin(); s != it->second.SegmentsEnd(); ++s) l.append(unseg(*s));
    d[py::str(it->first)] = py::make_tuple(it->second.GetName(), l, it->second.IsStairStepped());
  }
  return d;
}
static py::dict params(const G& g) { py::dict d; for (auto it = g.ParametersBegin(); it != g.ParametersEnd(); ++it) d[py::str(it->first)] = D(it->second.begin(), it->second.end()); return d; }
static void geom(G& g, const D& coord, const D& zc, const std::vector<int>& act) {
  size_t ni = g.GetNI(), nj = g.GetNJ(), nk = g.GetNK();
  if (coord.size() != 6 * (ni + 1) * (nj + 1) || zc.size() != 8 * ni * nj * nk || act.size() != ni * nj * nk) throw std::runtime_error("SHIM size");
  EclipseGeometry e(ni, nj, nk);
  e.SetCoord(coord);
  size_t n = 0;
  for (size_t k = 0; k < nk; ++k) for (size_t c = 0; c < 2; ++c) for (size_t j = 0; j < nj; ++j) for (size_t b = 0; b < 2; ++b) for (size_t i = 0; i < ni; ++i) for (size_t a = 0; a < 2; ++a)
    e.SetZCorner(i, j, k, a, b, c, zc[n++]);
  n = 0;
  for (size_t k = 0; k < nk; ++k) for (size_t j = 0; j < nj; ++j) for (size_t i = 0; i < ni; ++i) e.SetActive(i, j, k, act[n++] != 0);
  e.InitializeActivePillars();
  e.FindMinAndMaxZValueAndSetPolygons();
  g.SetGeometry(e);
}
static py::object dump(const G& g) {
  size_t ni = g.GetNI(), nj = g.GetNJ(), nk = g.GetNK();
  D co, z; std::vector<int> a;
  if (ni * nj * nk) for (size_t j = 0; j <= nj; ++j) for (size_t i = 0; i <= ni; ++i) { Point p = g.GetPillar(i, j).GetPt1(), q = g.GetPillar(i, j).GetPt2(); for (double x : {p.x, p.y, p.z, q.x, q.y, q.z}) co.push_back(x); }
  for (size_t k = 0; k < nk; ++k) for (size_t c = 0; c < 2; ++c) for (size_t j = 0; j < nj; ++j) for (size_t b = 0; b < 2; ++b) for (size_t i = 0; i < ni; ++i) for (size_t aa = 0; aa < 2; ++aa) z.push_back(g.GetZCorner(i, j, k, aa, b, c));
  for (size_t k = 0; k < nk; ++k) for (size_t j = 0; j < nj; ++j) for (size_t i = 0; i < ni; ++i) a.push_back(g.IsActive(i, j, k));
  return py::make_tuple(py::make_tuple(ni, nj, nk), co, z, a);
}
static py::tuple carfin(const EclipseCarFin& c) { size_t a, b, d, e, f, h; c.GetLocation(a, b, d, e, f, h); const G& g = c.GetGrid(); return py::make_tuple(c.GetName(), py::make_tuple(a, b, d, e, f, h), py::make_tuple(g.GetNI(), g.GetNJ(), g.GetNK()), params(g)); }
// A refinement is (name, location, cells, most wells, {parameter: values}).
static std::unique_ptr<EclipseCarFin> mkcf(const G& g, py::tuple t) {
  std::vector<size_t> l = t[1].cast<std::vector<size_t>>(), n = t[2].cast<std::vector<size_t>>();
  G loc(n[0], n[1], n[2]);
  for (size_t i = 0; i < loc.GetN(); ++i) loc.SetActive(i, true);
  std::map<std::string, D> ps = t[4].cast<std::map<std::string, D>>();
  for (auto& kv : ps) { Grid<double> p(n[0], n[1], n[2]); std::copy(kv.second.begin(), kv.second.end(), p.begin()); loc.AddParameter(kv.first, p); }
  return std::unique_ptr<EclipseCarFin>(new EclipseCarFin(t[0].cast<std::string>(), loc, g, l[0], l[1], l[2], l[3], l[4], l[5], t[3].cast<int>()));
}
PYBIND11_MODULE(vecl, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<EndOfFile> eof(m, "Eof");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const EndOfFile& e) { eof(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<G>(m, "G").def(py::init<>()).def(py::init<size_t, size_t, size_t>()).def(py::init([](const std::string& f) { Quiet q; return new G(f); })).def(py::init([](const std::vector<std::string>& f) { Quiet q; return new G(f); }))
    .def("geom", &geom).def("dump", &dump).def("params", &params).def("faults", &faults).def("resize", &G::Resize)
    .def("set_param", [](G& g, const std::string& n, const D& v) { Grid<double> p(g.GetNI(), g.GetNJ(), g.GetNK()); if (v.size() != p.GetN()) throw std::runtime_error("SHIM size"); std::copy(v.begin(), v.end(), p.begin()); g.AddParameter(n, p); })
    .def("const_param", [](G& g, const std::string& n, double v) { g.AddParameter(n, v); }).def("has", &G::HasParameter).def("names", &G::GetParameterNames)
    .def("param_at", [](const G& g, const std::string& n, size_t i, size_t j, size_t k) { return g.GetParameter(n)(i, j, k); })
    .def("add_fault", [](G& g, const std::string& n, std::vector<std::vector<int>> v) { g.AddFault(fault(n, v)); })
    .def("stair", &G::HasStairSteppedFaults)
    .def("add_cf", [](G& g, py::tuple t) { auto c = mkcf(g, t); g.AddGridRefinement(*c); })
    .def("cfs", [](const G& g) { py::list l; for (auto it = g.RefinementsBegin(); it != g.RefinementsEnd(); ++it) l.append(carfin(**it)); return l; })
    .def("group", [](G& g, std::vector<size_t> w) { EclipseCarFinGroup gr("GR"); size_t n = 0; for (auto it = g.RefinementsBegin(); it != g.RefinementsEnd(); ++it, ++n) for (size_t x : w) if (x == n) gr.AddCarFin(*it);
        size_t a, b, c, d, e, f; gr.GetLocation(a, b, c, d, e, f); G out; gr.ConvertToEclipseGrid(g, out); return py::make_tuple(py::make_tuple(a, b, c, d, e, f), dump(out), params(out)); })
    .def("connected", [](G& g, size_t p, size_t q) { auto it = g.RefinementsBegin(); return (*(it + p))->IsConnected(**(it + q)); })
    .def("add_group", [](G& g, std::vector<size_t> w) { EclipseCarFinGroup gr("GR"); size_t n = 0; for (auto it = g.RefinementsBegin(); it != g.RefinementsEnd(); ++it, ++n) for (size_t x : w) if (x == n) gr.AddCarFin(*it); g.AddRefinementGroup(gr); })
    .def("refs", [](G& g, size_t p) { size_t a, b, c; (*(g.RefinementsBegin() + p))->GetRefinements(a, b, c); return py::make_tuple(a, b, c); })
    .def("add_mult", [](G& g, std::vector<int> v, double x, int f) { Face fa = Face(f); g.AddTransMult(EclipseTransMult(v[0], v[0], v[1], v[1], v[2], v[2], x, fa)); })
    .def("add_nnc", [](G& g, std::vector<int> v, double x) { g.AddEditNNC(EclipseEditNNC(v[0], v[1], v[2], v[3], v[4], v[5], x)); })
    .def("write", [](const G& g, const std::string& f, bool p) { g.WriteToFile(f, p); }).def("write_many", [](const G& g, std::vector<std::string> f, std::vector<std::list<std::string>> k) { g.WriteToFiles(f, k); })
    .def("read", [](G& g, const std::string& f) { Quiet q; g.ReadFromFile(f); }).def("read_many", [](G& g, const std::vector<std::string>& f) { Quiet q; g.ReadFromFiles(f); })
    .def("sub", [](const G& g, size_t a, size_t b, size_t c, size_t d, size_t e, size_t f) { G s = g.ExtractSubGrid(a, b, c, d, e, f); return py::make_tuple(py::make_tuple(s.GetNI(), s.GetNJ(), s.GetNK()), params(s)); })
    .def("index", &G::GetIndex).def("ijk", [](const G& g, size_t n) { size_t i, j, k; g.GetIJK(n, i, j, k); return py::make_tuple(i, j, k); })
    .def("pillar_active", &G::IsPillarActive).def("top_cell", &G::FindTopCell).def("bottom_cell", &G::FindBottomCell)
    .def("at_pillar", [](const G& g, size_t i, size_t j, double z) { return pt(g.FindPointAtPillar(i, j, z)); })
    .def("at_pillar_in", [](const G& g, size_t i, size_t j, double z) { bool f = false; Point p = g.FindPointAtPillarInsideGrid(i, j, z, f); return py::make_tuple(f, pt(p)); })
    .def("face_area", [](const G& g, int i, int j, int k, int f, int k2) { CellFace c; c.i_ = i; c.j_ = j; c.k_ = k; c.face_ = Face(f); double x = -1, y = -1, z = -1; g.FindIntersectionAreaFaceXY(c, k2, x, y, z); return py::make_tuple(x, y, z); })
    .def("neigh", [](const G& g, int i, int j, int f) { int a = -9, b = -9; g.GetNeighbourColumn(i, j, Face(f), a, b); return py::make_tuple(a, b); }).def("neigh_k", [](const G& g, int i, int j, int k, int f) { return g.GetNeighbourK(i, j, k, Face(f)); })
    .def("face", [](const G& g, size_t i, size_t j, size_t k, int f) { return pts(g.GetFaceCornerPoints(i, j, k, Face(f))); }).def("corners", [](const G& g, size_t i, size_t j, size_t k) { return pts(g.GetAllCornerPoints(i, j, k)); })
    .def("find", [](const G& g, double x, double y, double z) -> py::object { size_t i = 0, j = 0, k = 0; if (!g.FindIndex(x, y, z, i, j, k)) return py::none(); return py::make_tuple(i, j, k); })
    .def("corner", [](const G& g, size_t i, size_t j, size_t k, size_t a, size_t b, size_t c) { return pt(g.GetGeometry().FindCornerPoint(i, j, k, a, b, c)); })
    .def("centre", [](const G& g, size_t i, size_t j, size_t k) { const EclipseGeometry& e = g.GetGeometry(); return py::make_tuple(pt(e.FindCellCenterPoint(i, j, k)), pt(e.FindCellCenterPointTopBot(i, j, k, true)), pt(e.FindCellCenterPointTopBot(i, j, k, false))); })
    .def("in_cell", [](const G& g, size_t i, size_t j, size_t k, double u, double v, double w) { EclipseGeometry e(g.GetGeometry()); return pt(e.FindPointInCell(i, j, k, u, v, w)); })
    .def("mean_dist", [](const G& g, double z) { return g.GetGeometry().FindMeanPillarDistance(z); }).def("layers", [](const G& g) { return py::make_tuple(g.GetGeometry().FindTopLayer(), g.GetGeometry().FindBottomLayer()); })
    .def("dz", [](const G& g, size_t i, size_t j, size_t k) { return g.GetGeometry().GetDZ(i, j, k); }).def("column", [](const G& g, size_t i, size_t j) { return g.GetGeometry().IsColumnActive(i, j); })
    .def("ztop", [](const G& g, size_t i, size_t j, size_t k) { bool f = false; double z = g.GetGeometry().FindZTopInCellActiveColumn(i, j, k, f); return py::make_tuple(f, z); })
    .def("zbot", [](const G& g, size_t i, size_t j, size_t k) { bool f = false; double z = g.GetGeometry().FindZBotInCellActiveColumn(i, j, k, f); return py::make_tuple(f, z); })
    .def("topbot", [](const G& g) { std::vector<Point> a, b; g.GetGeometry().FindTopAndBotValuesOfGrid(a, b); return py::make_tuple(pts(a), pts(b)); })
    .def("volume", [](const G& g) { double x, y, lx, ly, a; g.GetGeometry().FindEnclosingVolume(x, y, lx, ly, a); return py::make_tuple(x, y, lx, ly, a); })
    .def("layer", [](const G& g, size_t n, size_t mm, size_t k, int lo, double dx, double dy, double x0, double y0, double a, bool bil, bool corner, double fill) { Grid2D<double> z(n, mm, fill);
        if (corner) g.GetGeometry().FindLayerSurfaceCornerpoint(z, k, lo, dx, dy, x0, y0, a, bil); else g.GetGeometry().FindLayerSurface(z, k, lo, dx, dy, x0, y0, a, bil); return D(z.begin(), z.end()); });
  m.def("faces", [](std::vector<std::vector<int>> v) { EclipseFault f = fault("F", v); py::list l; size_t n = 0; for (FaceIndexer x(f); !x.IsFinished(); ++x) { CellFace c = x.GetFace(); l.append(py::make_tuple(c.i_, c.j_, c.k_, int(c.face_))); if (++n > 100000) throw std::runtime_error("endless"); } return l; });
  m.def("coords", [](std::vector<int> v) { int a, b, c, d; EclipseFault::GetSegmentLowerCoord(seg(v), a, b); EclipseFault::GetSegmentUpperCoord(seg(v), c, d); return py::make_tuple(a, b, c, d); });
  m.def("longer", [](std::vector<int> v, int n) { Sg s = seg(v); EclipseFault::IncreaseSegmentLength(s, n); return unseg(s); });
  m.def("cross", [](std::vector<int> a, std::vector<int> b) -> py::object { int i = -9, j = -9; if (!EclipseFault::SegmentsCross(seg(a), seg(b), i, j)) return py::none(); return py::make_tuple(i, j); });
  m.def("dir", [](int f) { return int(GetDirection(Face(f))); });
  m.def("opp", [](int f) { return int(GetOppositeFace(Face(f))); });
}
