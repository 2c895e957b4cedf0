#include "common.hpp"
#include <pybind11/stl.h>
#include "nrlib/segy/segy.hpp"
#include "nrlib/segy/segytrace.hpp"
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/segy/traceheader.hpp"
#include "nrlib/segy/commonheaders.hpp"
#include "nrlib/stormgrid/stormcontgrid.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/iotools/bigfile.hpp"
#include "nrlib/exception/exception.hpp"
using namespace NRLib;
typedef std::vector<double> D;
typedef std::vector<int> I;
typedef std::vector<float> Fl;
typedef std::string S;
typedef SegyGeometry G;
typedef TraceHeaderFormat TF;
typedef std::shared_ptr<G> GP;
typedef std::shared_ptr<Volume> VP;

// f: [k] standard format; 9 values: standard format with changes; 7 values: own locations
static TF fmt(const I& f) {
  if (f.size() == 1) return TF(f[0]);
  if (f.size() == 9) return TF(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
  return TF(f[0], f[1], f[2], f[3], f[4], f[5], f[6] ? TF::ILXL : TF::UTM);
}
static py::tuple locs(const TF& t) { return py::make_tuple(t.GetFormatName(), t.GetScalCoLoc(), t.GetUtmxLoc(), t.GetUtmyLoc(), t.GetInlineLoc(), t.GetCrosslineLoc(), t.GetStartTimeLoc(), t.GetOffsetLoc(), int(t.GetCoordSys()), t.GetBypassCoordScaling()); }
static py::tuple th(TraceHeader& h) { return py::make_tuple(h.GetUtmx(), h.GetUtmy(), h.GetInline(), h.GetCrossline(), h.GetStartTime(), h.GetCoord1(), h.GetCoord2(), h.GetDt(), h.GetStatus(), h.IsHeaderOK()); }
static py::object tr(const SegYTrace* t) {
  if (t == NULL) return py::none();
  Fl v; for (size_t j = t->GetStart(); j <= t->GetEnd() && t->GetEnd() + 1 != t->GetStart(); j++) v.push_back(t->GetValue(j));
  return py::make_tuple(t->GetX(), t->GetY(), t->GetInline(), t->GetCrossline(), t->GetStart(), t->GetEnd(), v, t->GetTrace(), t->GetCoord1(), t->GetCoord2());
}
struct Own { std::vector<SegYTrace*> t; ~Own() { for (size_t i = 0; i < all.size(); i++) delete all[i]; } std::vector<SegYTrace*> all; };

PYBIND11_MODULE(vsegy, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<EndOfFile> eof(m, "Eof");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const EndOfFile& e) { eof(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  m.def("locs", [](I f) { return locs(fmt(f)); });
  m.def("copy_locs", [](I f) { TF a = fmt(f); TF b(a); TF c; c = a; return py::make_tuple(locs(b), locs(c)); });
  m.def("diff", [](I a, I b) { return fmt(a).IsDifferent(fmt(b)); });
  m.def("std", []() { std::vector<TF*> l = TF::GetListOfStandardHeaders(); py::list r; for (size_t i = 0; i < l.size(); i++) { r.append(locs(*l[i])); delete l[i]; } return r; });
  // v: x, y, il, xl, start, ns, dt, scalco, offset
  m.def("th_write", [](S f, I ft, std::vector<D> vs) { BigFile b; b.OpenWrite(f); for (size_t i = 0; i < vs.size(); i++) { const D& v = vs[i]; TraceHeader h(fmt(ft)); h.SetNSamples(size_t(v[5])); h.SetDt(int(v[6])); h.SetScalCo(short(v[7])); h.SetOffset(v[8]); h.SetUtmx(v[0]); h.SetUtmy(v[1]); h.SetInline(int(v[2])); h.SetCrossline(int(v[3])); h.SetStartTime(float(v[4])); h.Write(b); } b.close(); });
  m.def("th_read", [](S f, I ft, size_t n, S out, bool dump) { BigFile b, o; b.OpenRead(f); o.OpenWrite(out); TraceHeader h(fmt(ft)); py::list r; for (size_t i = 0; i < n; i++) { h.Read(b); r.append(th(h)); if (dump) h.Dump(o); else h.Write(o); } o.close(); b.close(); return r; });
  m.def("th_reset", [](I ft, D v, S out) { TraceHeader h(fmt(ft)); h.SetScalCo(short(v[0])); h.SetScalCo(short(v[1])); h.SetUtmx(v[2]); h.SetUtmy(v[3]); return th(h); });
  m.def("textual", [](S f, bool std_, std::vector<std::pair<int, S> > l) { TextualHeader t = std_ ? TextualHeader::standardHeader() : TextualHeader(); I r; for (size_t i = 0; i < l.size(); i++) r.push_back(t.SetLine(l[i].first, l[i].second)); BigFile b; b.OpenWrite(f); t.Write(b); b.close(); return r; });

  py::class_<Volume, VP>(m, "V").def(py::init<double, double, double, double, double, double, double>())
    .def_static("surf", [](double x, double y, double lx, double ly, double a, D t, D b, double miss) {   // t, b: node values of 2 x 2 (or n x n) surfaces over the bounding square sx,sy,sl
      size_t n = size_t(std::sqrt(double(t.size() - 3)) + 0.5);
      RegularSurface<double> p(t[0], t[1], t[2], t[2], n, n), q(b[0], b[1], b[2], b[2], n, n);
      p.SetMissingValue(miss); q.SetMissingValue(miss); std::copy(t.begin() + 3, t.end(), p.begin()); std::copy(b.begin() + 3, b.end(), q.begin());
      return VP(new Volume(x, y, lx, ly, p, q, a)); })
    .def("z", [](const Volume& v, double x, double y) { return py::make_tuple(v.GetTopSurface().GetZ(x, y), v.GetBotSurface().GetZ(x, y)); }).def("inside", [](const Volume& v, double x, double y) { return v.IsInside(x, y) != 0; });

  py::class_<G, GP>(m, "G")
    .def_static("rect", [](double x0, double y0, double dx, double dy, size_t nx, size_t ny, double rot) { return GP(new G(x0, y0, dx, dy, nx, ny, rot)); })
    .def_static("full", [](double x0, double y0, double dx, double dy, size_t nx, size_t ny, D s, double rot) { return GP(new G(x0, y0, dx, dy, nx, ny, s[0], s[1], s[2], s[3], s[4], s[5], rot)); })
    .def_static("surf", [](double x, double y, double lx, double ly, size_t ni, size_t nj, double a, bool rot) { if (rot) return GP(new G(RegularSurfaceRotated<double>(x, y, lx, ly, ni, nj, a))); return GP(new G(RegularSurface<double>(x, y, lx, ly, ni, nj))); })
    .def_static("setup", [](D r, I il, D d) { GP g(new G()); g->SetupGeometry(r[0], r[1], il[0], il[1], il[2], il[3], il[4], il[5], d[0], d[1], d[2], d[3], il[6], il[7]); g->FindILXLGeometry(il[2], il[3], il[6], il[4], il[5], il[7]); return g; })
    .def_static("setup2", [](D r, I il, D d) { GP g(new G()); g->SetupGeometry(r[0], r[1], il[0], il[1], il[2], il[3], il[4], il[5], d[0], d[1], d[2], d[3], il[6], il[7]); g->FindILXLGeometry(); return g; })
    // t: [x, y, il, xl] or empty for a missing trace; returns the geometry and the number of the trace in every cell (-1: none)
    .def_static("traces", [](std::vector<D> t, bool reg) {
      std::vector<SegYTrace*> v, all; Fl one(1, 0.0f);
      for (size_t i = 0; i < t.size(); i++) { SegYTrace* p = NULL; if (!t[i].empty()) p = new SegYTrace(one, 0, 0, t[i][0], t[i][1], int(t[i][2]), int(t[i][3])); v.push_back(p); all.push_back(p); }
      struct Del { std::vector<SegYTrace*>& a; ~Del() { for (size_t i = 0; i < a.size(); i++) delete a[i]; } } del = {all};
      GP g(new G(v, reg)); I r, ti;
      for (size_t i = 0; i < v.size(); i++) { int k = -1; if (v[i]) { for (size_t j = 0; j < all.size(); j++) if (all[j] == v[i]) k = int(j); } r.push_back(k); ti.push_back(v[i] ? int(v[i]->GetTableIndex()) : -1); }
      return py::make_tuple(g, r, ti); })
    .def("copy", [](const G& g) { return GP(new G(&g)); })
    .def("inside", &G::IsInside).def("index1", [](const G& g, double x, double y) { return g.FindIndex(x, y); })
    .def("index", [](const G& g, double x, double y) { size_t i, j; g.FindIndex(x, y, i, j); return py::make_tuple(i, j); })
    .def("index_il", [](const G& g, int il, int xl) { size_t i, j; g.FindIndex(il, xl, i, j); return py::make_tuple(i, j); })
    .def("cont", [](const G& g, double x, double y) { double i, j; bool ok = g.FindContIndex(x, y, i, j); return py::make_tuple(i, j, ok); })
    .def("ilxl", [](const G& g, double x, double y) { int i, j; g.FindILXL(x, y, i, j); return py::make_tuple(i, j); })
    .def("ilxl_ij", [](const G& g, size_t a, size_t b) { int i, j; g.FindILXL(a, b, i, j); return py::make_tuple(i, j); })
    .def("cont_ilxl", [](const G& g, double x, double y) { double i, j; g.FindContILXL(x, y, i, j); return py::make_tuple(i, j); })
    .def("xy_ij", [](const G& g, size_t a, size_t b) { double x, y; g.FindXYFromIJ(a, b, x, y); return py::make_tuple(x, y); })
    .def("xy_il", [](const G& g, int a, int b) { double x, y; g.FindXYFromILXL(a, b, x, y); return py::make_tuple(x, y); })
    .def("xy_cont", [](const G& g, double a, double b) { double x, y; g.FindXYFromContILXL(a, b, x, y); return py::make_tuple(x, y); })
    .def("cont_from_il", [](const G& g, double a, double b) { double x, y; g.FindContIndexFromContILXL(a, b, x, y); return py::make_tuple(x, y); })
    .def("n", [](const G& g) { return py::make_tuple(g.GetNx(), g.GetNy()); })
    .def("geo", [](const G& g) { return py::make_tuple(g.GetX0(), g.GetY0(), g.GetDx(), g.GetDy(), g.GetAngle(), g.GetCosRot(), g.GetSinRot(), g.Getlx(), g.Getly()); })
    .def("il", [](const G& g) { return py::make_tuple(g.GetMinIL(), g.GetMaxIL(), g.GetILStep(), g.GetMinXL(), g.GetMaxXL(), g.GetXLStep()); }).def("il0", [](const G& g) { return py::make_tuple(g.GetIL0(), g.GetXL0(), g.GetFirstAxisIL(), g.GetInLine0(), g.GetCrossLine0()); })
    .def("steps", [](const G& g) { return py::make_tuple(g.GetILStepX(), g.GetILStepY(), g.GetXLStepX(), g.GetXLStepY()); })
    .def("sub", [](G& g, I q) { bool a, b; G* r = g.GetILXLSubGeometry(q, a, b); return py::make_tuple(GP(r), a, b); })
    .def("area", [](G& g, G& t) { return g.findAreaILXL(&t); });

  py::class_<SegY>(m, "Y")
    .def_static("open", [](S f, double z0, I ft) { return ft.empty() ? new SegY(f, z0) : new SegY(f, z0, fmt(ft)); })
    .def_static("open_own", [](S f, double z0, std::vector<I> fts, bool search) { std::vector<TF> own; for (size_t i = 0; i < fts.size(); i++) own.push_back(fmt(fts[i])); std::vector<TF*> p; for (size_t i = 0; i < own.size(); i++) p.push_back(&own[i]); return new SegY(f, z0, p, search); })
    .def_static("create", [](S f, double z0, size_t nz, double dz, I ft, bool init, int ens) { TextualHeader t = TextualHeader::standardHeader(); if (!init) return new SegY(f, z0, nz, dz, t, fmt(ft)); SegY* s = new SegY(); s->Initialize(f, z0, nz, dz, t, fmt(ft), short(ens)); return s; })
    .def("read_all", [](SegY& s, VP v, double pad, bool only, bool rel) { s.ReadAllTraces(v.get(), pad, only, rel); })
    .def("next", [](SegY& s, double pad, VP v, bool only) { SegYTrace* t = s.GetNextTrace(pad, v.get(), only); py::object r = tr(t); delete t; return r; })
    .def("trace", [](SegY& s, int i) { return tr(s.getTrace(i)); })
    .def("trace_copy", [](SegY& s, int i) { SegYTrace c(*s.getTrace(i)); return tr(&c); })
    .def("regular", [](SegY& s, bool reg) { s.CreateRegularGrid(reg); }).def("geom", [](SegY& s) { return GP(new G(s.GetGeometry())); })
    .def("find_geom", [](SegY& s, bool il, bool keep, bool bogus) { s.FindAndSetGridGeometry(il, keep, bogus); }).def("only_geom", [](SegY& s) { return GP(s.FindGridGeometry()); })
    .def("value", [](SegY& s, double x, double y, double z, int mode) { return mode < 0 ? s.GetValue(x, y, z) : s.GetValue(x, y, z, mode); })
    .def("nearest", [](SegY& s, double x, double y) { Fl d; bool miss; double z0 = 0; s.GetNearestTrace(d, miss, z0, x, y); return py::make_tuple(d, miss, z0); })
    .def("all", &SegY::GetAllValues).def("longest", &SegY::FindNumberOfSamplesInLongestTrace)
    .def("hdr_il", [](SegY& s, int il, int xl) { TraceHeader h(s.GetTraceHeader(il, xl)); return th(h); }).def("hdr_xy", [](SegY& s, double x, double y) { TraceHeader h(s.GetTraceHeader(x, y)); return th(h); })
    .def("defined", &SegY::IsTraceDefined)
    .def("data_il", [](SegY& s, int il, int xl, VP v, bool vol) { Fl r; s.GetTraceData(il, xl, r, vol ? v.get() : NULL); return r; }).def("data_xy", [](SegY& s, double x, double y) { Fl r; s.GetTraceData(x, y, r); return r; }).def("data_vol", [](SegY& s, double x, double y, VP v) { Fl r(3, 7.0f); s.GetTraceData(x, y, r, v.get()); return r; })
    .def("pos_il", [](SegY& s, int il, int xl) { return (long long)(s.GetFilePos(il, xl)); }).def("pos_xy", [](SegY& s, double x, double y) { return (long long)(s.GetFilePos(x, y)); })
    .def("info", [](SegY& s) { return py::make_tuple(s.GetNTraces(), s.GetNz(), s.GetDz(), s.GetTop(), s.GetSamplingInconsistency()); })
    .def("format", [](SegY& s) { return locs(s.GetTraceHeaderFormat()); }).def("count", [](SegY& s) { return s.FindNumberOfTraces(); })
    .def("set_geom", [](SegY& s, const G& g) { s.SetGeometry(&g); })
    .def("store", [](SegY& s, double x, double y, Fl d, VP v, bool vol, float t, float b) { s.StoreTrace(x, y, d, vol ? v.get() : NULL, t, b); }).def("write_all", [](SegY& s, int sc) { s.WriteAllTracesToFile(short(sc)); })
    .def("write_xy", [](SegY& s, double x, double y, Fl d, VP v, bool vol, float t, float b, int sc, int off) { s.WriteTrace(x, y, d, vol ? v.get() : NULL, t, b, short(sc), short(off)); })
    .def("write_il", [](SegY& s, double x, double y, int il, int xl, Fl d, int sc, int off) { s.WriteTrace(x, y, il, xl, d, short(sc), short(off)); })
    .def("write_hdr", [](SegY& s, I ft, D v, Fl d, VP vol, bool hv, float t, float b) { TraceHeader h(fmt(ft)); h.SetDt(int(v[6])); h.SetScalCo(short(v[7])); h.SetOffset(v[8]); h.SetUtmx(v[0]); h.SetUtmy(v[1]); h.SetInline(int(v[2])); h.SetCrossline(int(v[3])); h.SetStartTime(float(v[4])); s.WriteTrace(h, d, hv ? vol.get() : NULL, t, b); });
  m.def("count", [](S f, I ft) { if (ft.empty()) return SegY::FindNumberOfTraces(f); TF t = fmt(ft); return SegY::FindNumberOfTraces(f, &t); });
  m.def("geometry", [](S f, I ft) { if (ft.empty()) return GP(SegY::FindGridGeometry(f)); TF t = fmt(ft); return GP(SegY::FindGridGeometry(f, &t)); });
  m.def("detect", [](S f) { return locs(SegY::FindTraceHeaderFormat(f)); });
  // a storm grid over volume v with values in the order of the grid, written as SEG-Y; returns the interpolated values at the (x, y, z) of q
  m.def("storm", [](VP v, size_t nx, size_t ny, size_t nk, Fl val, S f, double z0, double dz, int nz, I ft, bool seis, bool write, std::vector<D> q) {
    StormContGrid g(*v, nx, ny, nk); std::copy(val.begin(), val.end(), g.begin()); py::list tl, r;
    { SegY s(&g, NULL, z0, dz, nz, f, write, fmt(ft), seis); for (size_t i = 0; i < nx * ny; i++) tl.append(tr(s.getTrace(int(i)))); }
    for (size_t i = 0; i < q.size(); i++) r.append(g.GetValueZInterpolated(q[i][0], q[i][1], q[i][2]));
    return py::make_tuple(r, tl); });
}
