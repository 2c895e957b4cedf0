#include "common.hpp"
#include "nrlib/trend/trend.hpp"
#include "nrlib/trend/trendkit.hpp"
#include "nrlib/trend/trendstorage.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/volume/volume.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/exception/exception.hpp"
#include <memory>
using namespace NRLib;
typedef std::vector<double> D;
typedef std::vector<D> DD;
typedef std::string S;
typedef std::vector<S> SS;
typedef std::shared_ptr<Trend> T;
typedef std::shared_ptr<TrendStorage> TS;
static Grid2D<double> g2(size_t ni, size_t nj, const D& v) { Grid2D<double> g(ni, nj, 0.0); if (v.size() != ni * nj) throw std::runtime_error("SHIM size"); std::copy(v.begin(), v.end(), g.begin()); return g; }
static Grid<double> g3(size_t ni, size_t nj, size_t nk, const D& v) { Grid<double> g(ni, nj, nk, 0.0); if (v.size() != ni * nj * nk) throw std::runtime_error("SHIM size"); std::copy(v.begin(), v.end(), g.begin()); return g; }
static Volume vol(const D& v) { return Volume(v[0], v[1], v[2], v[3], ConstantSurface<double>(v[4]), ConstantSurface<double>(v[5]), v[6]); }

PYBIND11_MODULE(vtrend, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<EndOfFile> eof(m, "Eof");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const EndOfFile& e) { eof(e.what()); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<Trend, T>(m, "T")
    .def_static("c", [](double v) { return T(new TrendConstant(v)); })
    .def_static("t1", [](D v, int ref, double dz) { if (dz > 0) return T(new Trend1D(v, ref, dz)); if (ref == 1) return T(new Trend1D(v)); return T(new Trend1D(v, ref)); })
    .def_static("t2", [](size_t ni, size_t nj, D v, int r1, int r2, double d1, double d2) { Grid2D<double> g = g2(ni, nj, v); if (d1 > 0) return T(new Trend2D(g, r1, r2, d1, d2)); if (r1 == 2 && r2 == 3) return T(new Trend2D(g)); return T(new Trend2D(g, r1, r2)); })
    .def_static("t3", [](size_t ni, size_t nj, size_t nk, D v) { Grid<double> g = g3(ni, nj, nk, v); return T(new Trend3D(g)); })
    .def_static("f1", [](S f, int ref) { if (ref == 1) return T(new Trend1D(f)); return T(new Trend1D(f, ref)); })
    .def_static("f2", [](S f, int r1, int r2) { if (r1 == 2 && r2 == 3) return T(new Trend2D(f)); return T(new Trend2D(f, r1, r2)); })
    .def_static("f3", [](S f, int mode) { if (mode == 0) return T(new Trend3D(f)); if (mode == 1) return T(new Trend3D(f, true)); return T(new Trend3D(f, true, mode == 2 ? END_LITTLE_ENDIAN : END_BIG_ENDIAN)); })
    .def("clone", [](const Trend& t) { return T(t.Clone()); })
    .def("copy", [](const Trend& t) { if (const TrendConstant* a = dynamic_cast<const TrendConstant*>(&t)) return T(new TrendConstant(*a)); if (const Trend1D* a = dynamic_cast<const Trend1D*>(&t)) return T(new Trend1D(*a)); if (const Trend2D* a = dynamic_cast<const Trend2D*>(&t)) return T(new Trend2D(*a)); return T(new Trend3D(dynamic_cast<const Trend3D&>(t))); })
    .def("add", &Trend::AddConstant).def("trunc", &Trend::Truncate).def("scale", &Trend::ScaleToAverage)
    .def("at", [](const Trend& t, double a, double b, double c) { return t.GetValue(a, b, c); })
    .def("at1", [](const Trend& t, double a) { return dynamic_cast<const Trend1D&>(t).GetValue(a); })
    .def("at2", [](const Trend& t, double a, double b) { if (const Trend1D* q = dynamic_cast<const Trend1D*>(&t)) return q->GetValue(a, b); return dynamic_cast<const Trend2D&>(t).GetValue(a, b); })
    .def("at0", [](const Trend& t) { return dynamic_cast<const TrendConstant&>(t).GetValue(); })
    .def("atv", [](const Trend& t, double a, double b, double c, D v) { Volume w = vol(v); return t.GetValue(a, b, c, w); })
    .def("el", &Trend::GetTrendElement).def("size", &Trend::GetTrendSize).def("inc", &Trend::GetIncrement).def("dim", &Trend::GetTrendDimension).def("ref", &Trend::GetReference)
    .def("stat", [](const Trend& t) { return py::make_tuple(t.GetMinValue(), t.GetMaxValue(), t.GetMeanValue(), t.CheckForNegative()); })
    .def("draw", [](const Trend& t, D v, unsigned long seed) { Random::Initialize(seed); Volume w = vol(v); Point p = t.DrawPoint(w); return py::make_tuple(p.x, p.y, p.z); })
    .def("kind", [](const Trend& t) { return typeid(t) == typeid(TrendConstant) ? 0 : typeid(t) == typeid(Trend1D) ? 1 : typeid(t) == typeid(Trend2D) ? 2 : 3; });
  py::class_<TrendStorage, TS>(m, "TS")
    .def_static("c", [](double v, bool e) { return TS(new TrendConstantStorage(v, e)); })
    .def_static("s1", [](S f, S r, bool e) { return TS(new Trend1DStorage(f, r, e)); })
    .def_static("s2", [](S f, S r, S q, bool e) { return TS(new Trend2DStorage(f, r, q, e)); })
    .def("clone", [](const TrendStorage& t) { return TS(t.Clone()); }).def("estimate", &TrendStorage::GetEstimate)
    .def("gen", [](const TrendStorage& t, S path, SS par, DD samp, DD logs, DD s1, DD s2, int type, const Trend* mean) { S err; T r(t.GenerateTrend(path, par, samp, logs, s1, s2, type, mean, err)); return py::make_tuple(r, err); }, py::arg(), py::arg(), py::arg(), py::arg(), py::arg(), py::arg(), py::arg(), py::arg().none(true));
  m.attr("MEAN") = int(TrendStorage::MEAN);
  m.attr("VAR") = int(TrendStorage::VAR);
  m.def("format1", [](S f) { S e; int r = GetTrend1DFileFormat(f, e); return py::make_tuple(r, e); });
  m.def("read1", [](S f) { S e; D t; double a = 0, b = 0; ReadTrend1D(f, e, t, a, b); return py::make_tuple(t, a, b, e); });
  m.def("write1", [](S f, D s, D t) { WriteTrend1D(f, s, t); });
  m.def("plain1", [](S f) { S e; D t; ReadTrend1DPlainAscii(f, e, t); return py::make_tuple(t, e); });
  m.def("resample1", [](D x, D fx, D y, double fill) { D fy(y.size(), fill); ResampleTrend1D(x, fx, y, fy); return fy; });
  m.def("resample2", [](double x, double y, double lx, double ly, size_t ni, size_t nj, D v, D px, D py_, bool tr) { RegularSurface<double> s(x, y, lx, ly, g2(ni, nj, v)); RegularSurface<double> r = ResampleTrend2D(s, px, py_, tr); return py::make_tuple(r.GetNI(), r.GetNJ(), D(r.begin(), r.end())); });
  m.def("surface_file", [](S f, double x, double y, double lx, double ly, size_t ni, size_t nj, D v, bool storm) { RegularSurface<double> s(x, y, lx, ly, g2(ni, nj, v)); s.WriteToFile(f, storm ? SURF_STORM_BINARY : SURF_IRAP_CLASSIC_ASCII); });
  m.def("surface_at", [](S f, double x, double y) { RegularSurface<double> s(f); double z = s.GetZ(x, y); return py::make_tuple(z, s.IsMissing(z)); });
  m.def("constant", [](DD l, double v) { EstimateConstantTrend(l, v); return v; });
  m.def("pre0", [](DD l) { D y(3, 1.0); PreprocessData0D(l, y); return y; });
  m.def("pre1", [](DD s, DD l, D c) { D x(2, 1.0), y; PreprocessData1D(s, l, c, x, y); return py::make_tuple(x, y); });
  m.def("pre2", [](DD s, DD t, DD l, DD c) { D x(2, 1.0), y, z(1, 2.0); PreprocessData2D(s, t, l, c, x, y, z); return py::make_tuple(x, y, z); });
  m.def("check1", [](D x, D y, D x0, double b) { S e; bool r = CheckConfigurations1D(x, y, x0, b, e); return py::make_tuple(r, e); });
  m.def("check2", [](D x, D y, D z, D x0, D y0, double b, double c) { S e; bool r = CheckConfigurations2D(x, y, z, x0, y0, b, c, e); return py::make_tuple(r, e); });
  m.def("bandwidth", [](D x, double s, double p) { return CalculateBandwidth(x, s, p); });
  m.def("variance", [](D x) { return CalculateVariance(x); });
  m.def("est1", [](D x, D y, D x0, double b, D w) { S e; D y0(x0.size(), 0.0); EstimateTrend1D(x, y, x0, y0, b, e, w.empty() ? NULL : &w); return py::make_tuple(y0, e); });
  m.def("var1", [](D x, D y, D x0, D tr, double b, D w) { S e; D v; EstimateVariance1D(x, y, x0, tr, v, b, e, w.empty() ? NULL : &w); return py::make_tuple(v, e); });
  m.def("est2", [](D x, D y, D z, D x0, D y0, double b, double c) { S e; DD r(x0.size(), D(y0.size(), 0.0)); EstimateTrend2D(x, y, z, x0, y0, r, b, c, e); return py::make_tuple(r, e); });
  m.def("var2", [](D x, D y, D z, D x0, D y0, DD tr, double b, double c) { S e; DD v(x0.size(), D(y0.size(), 0.0)); EstimateVariance2D(x, y, z, x0, y0, tr, v, b, c, e); return py::make_tuple(v, e); });
  m.def("bin1", [](D x, D y, D w, D xn) { D a, b; MakeBinnedDataset1D(x, y, w.empty() ? NULL : &w, xn, a, b); return py::make_tuple(a, b); });
  m.def("bin2", [](D x, D y, D z, D x0, D y0) { D w; MakeBinnedDataset2D(x0, y0, x, y, z, w); return py::make_tuple(x, y, z, w); });
  m.def("lin", [](D x, D y, D x0) { D y0; LinearInterpolation(x, y, x0, y0); return y0; });
  m.def("bil", [](D x, D y, DD z, D x0, D y0) { DD r(x0.size(), D(y0.size(), 0.0)); BilinearInterpolation(x, y, z, x0, y0, r); return r; });
  m.def("lower", [](D x, double v) { return FindLowerBoundInSortedVector(x, v); }).def("upper", [](D x, double v) { return FindUpperBoundInSortedVector(x, v); });
  m.def("rank", [](D x) { D s; std::vector<size_t> o, r; SortOrderAndRank(x, s, o, r); return py::make_tuple(s, o, r); }).def("sorted", &CheckIfVectorIsSorted);
  m.def("regrid", [](double b, D x0) { D r; MakeNewGridResolution(b, x0, r); return r; });
}
