#include "common.hpp"
#include <pybind11/stl.h>
#include "nrlib/pointset/pointset.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/wavelet/wavelet.hpp"
#include "nrlib/wavelet/waveletio.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/exception/exception.hpp"
using namespace NRLib;
typedef std::vector<double> D;
typedef std::vector<std::vector<double> > DD;
typedef std::string S;
static DD pts(const std::vector<Point>& p) { DD r; for (size_t i = 0; i < p.size(); i++) { D q; q.push_back(p[i].x); q.push_back(p[i].y); q.push_back(p[i].z); r.push_back(q); } return r; }
static std::vector<Point> mk(const DD& p) { std::vector<Point> r; for (size_t i = 0; i < p.size(); i++) r.push_back(Point(p[i][0], p[i][1], p[i][2])); return r; }

PYBIND11_MODULE(vpts, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<PointSet>(m, "PS").def(py::init<>()).def_static("of", [](DD p) { return PointSet(mk(p)); }).def_static("n", [](size_t n, D p) { return PointSet(n, Point(p[0], p[1], p[2])); }).def_static("n0", [](size_t n) { return PointSet(n); })
    .def_static("file", [](S f, int filter) { return filter < 0 ? PointSet(f) : PointSet(f, filter > 0); })
    .def_static("surf", [](double x, double y, double lx, double ly, size_t ni, size_t nj, D v, double miss) { RegularSurface<double> s(x, y, lx, ly, ni, nj); s.SetMissingValue(miss); std::copy(v.begin(), v.end(), s.begin()); return PointSet(s); })
    .def("points", [](const PointSet& p) { return pts(p.GetPoints()); }).def("size", &PointSet::GetSize).def("add", [](PointSet& s, D p) { s.AddPoint(Point(p[0], p[1], p[2])); })
    .def("set", [](PointSet& s, size_t i, D p) { s[i] = Point(p[0], p[1], p[2]); }).def("get", [](const PointSet& s, size_t i) { D q; q.push_back(s[i].x); q.push_back(s[i].y); q.push_back(s[i].z); return q; })
    .def("add_d", [](PointSet& s, S n, std::vector<int> v) { s.AddDiscreteParameter(n, v); }).def("add_c", [](PointSet& s, S n, D v) { s.AddContParameter(n, v); }).def("add_s", [](PointSet& s, S n, std::vector<S> v) { s.AddStringParameter(n, v); })
    .def("write", [](const PointSet& s, S f, S k) { s.WriteToFile(f, k == "rms" ? PointSet::RmsInternalPoints : k == "roxar" ? PointSet::RoxarText : PointSet::GeneralXYZ); })
    .def("d", [](const PointSet& s, S n) { return s.GetDiscreteParameter(n); }).def("c", [](const PointSet& s, S n) { return s.GetContParameter(n); }).def("s", [](const PointSet& s, S n) { return s.GetStringParameter(n); })
    .def("ds", [](const PointSet& s) { return s.GetDiscreteParameters(); }).def("cs", [](const PointSet& s) { return s.GetContParameters(); }).def("ss", [](const PointSet& s) { return s.GetStringParameters(); })
    .def("set_d", &PointSet::SetDiscreteParameter).def("has", [](const PointSet& s, S n) { return py::make_tuple(s.HasDiscreteParameter(n), s.HasContParameter(n), s.HasStringParameter(n)); })
    .def("resize", &PointSet::Resize).def("erase", &PointSet::Erase).def("copy", [](const PointSet& s) { return PointSet(s); })
    .def("hull", [](PointSet& s) { Polygon p = s.GetConvexHull(); std::vector<Point> q; for (size_t i = 0; i < p.GetSize(); i++) q.push_back(p[i]); return pts(q); });
  m.def("type", [](S f) { PointSet::FileFormat t = PointSet::FindFileType(f); return t == PointSet::RmsInternalPoints ? "rms" : t == PointSet::RoxarText ? "roxar" : t == PointSet::JasonXYZ ? "jason" : t == PointSet::GeneralXYZ ? "general" : t == PointSet::OpenWorksXYZ ? "ow" : "unknown"; });

  py::enum_<WaveletFileType>(m, "T").value("unknown", UnknownWavelet).value("jason", JasonAscii).value("syntool", SyntoolOW).value("strata", Strata).value("landmark", LandmarkAscii);
  py::class_<Wavelet>(m, "W").def(py::init<>()).def_static("n", [](size_t n, double dt) { return Wavelet(n, dt); }).def_static("ricker", [](double f, size_t n, double dt, double s) { return std::isnan(s) ? Wavelet(f, n, dt) : Wavelet(f, n, dt, s); })
    .def_static("file", [](S f, int t, double s) { return std::isnan(s) ? (t < 0 ? Wavelet(f) : Wavelet(f, WaveletFileType(t))) : Wavelet(f, t < 0 ? UnknownWavelet : WaveletFileType(t), s); })
    .def("vals", [](const Wavelet& w) { return D(w.begin(), w.end()); }).def("set", [](Wavelet& w, size_t i, double v) { w[i] = v; }).def("setv", [](Wavelet& w, D v) { std::copy(v.begin(), v.end(), w.begin()); }).def("get", [](const Wavelet& w, size_t i) { return w[i]; })
    .def("size", &Wavelet::GetNSamples).def("time", &Wavelet::GetTimeForIndex).def("centre", &Wavelet::GetCenterIndex).def("dt", &Wavelet::GetSampleInterval).def("set_dt", &Wavelet::SetSampleInterval)
    .def("resample", &Wavelet::Resample).def("resize", &Wavelet::Resize).def("read", [](Wavelet& w, S f, int t) { w.ReadFromFile(f, WaveletFileType(t)); })
    .def("write", [](Wavelet& w, S f, int t, std::vector<S> h) { if (h.empty()) w.WriteToFile(f, WaveletFileType(t)); else w.WriteToFile(f, WaveletFileType(t), h); }).def("scale", &Wavelet::Scale).def("copy", [](const Wavelet& w) { return Wavelet(w); });
  m.def("wtype", [](S f) { return int(FindWaveletFileType(f)); });
}
