#include "common.hpp"
#include <pybind11/stl.h>
#include "nrlib/well/well.hpp"
#include "nrlib/well/laswell.hpp"
#include "nrlib/well/rmswell.hpp"
#include "nrlib/well/norsarwell.hpp"
#include "nrlib/well/welloperations.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/volume/volume.hpp"
#include "nrlib/exception/exception.hpp"
#include <memory>
using namespace NRLib;
typedef std::vector<double> D;
typedef std::vector<int> I;
typedef std::string S;
typedef std::map<S, D> MD;
typedef std::map<S, I> MI;

PYBIND11_MODULE(vwell, m) {
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<Well>(m, "W").def(py::init<>()).def(py::init<const S&, double, int>()).def(py::init<const S&>()).def(py::init<const MD&, const MI&, const S&>())
    .def("copy", [](const Well& w) { return Well(w); })
    .def("has_c", &Well::HasContLog).def("has_d", &Well::HasDiscLog)
    .def("cont", [](const Well& w) { return w.GetContLog(); }).def("disc", [](const Well& w) { return w.GetDiscLog(); })
    .def("clog", [](const Well& w, S n) { return w.GetContLog(n); }).def("dlog", [](const Well& w, S n) { return w.GetDiscLog(n); })
    .def("clog_set", [](Well& w, S n, size_t i, double v) { w.GetContLog(n)[i] = v; }).def("dlog_set", [](Well& w, S n, size_t i, int v) { w.GetDiscLog(n)[i] = v; })
    .def("add_c", &Well::AddContLog).def("add_d", &Well::AddDiscLog).def("rem_c", &Well::RemoveContLog).def("rem_d", &Well::RemoveDiscLog)
    .def("upper", &Well::MakeLogsUppercase).def("name", &Well::GetWellName).def("set_name", &Well::SetWellName)
    .def("miss_c", [](const Well& w, double x) { return w.IsMissing(x); }).def("miss_d", [](const Well& w, int x) { return w.IsMissing(x); })
    .def("cm", &Well::GetContMissing).def("im", &Well::GetIntMissing).def("set_missing", &Well::SetMissing)
    .def("dev", &Well::IsDeviated).def("set_dev", &Well::SetDeviated).def("n", &Well::GetNData).def("set_n", &Well::SetNumberOfData)
    .def("nn", &Well::GetNumberOfNonMissingData).def("set_nn", &Well::SetNumberOfNonMissingData)
    .def("dv", &Well::GetDiscValue).def("cv", &Well::GetContValue).def("set_dv", &Well::SetDiscValue).def("set_cv", &Well::SetContValue)
    .def("nlog", &Well::GetNlog).def("ncont", &Well::GetNContLog).def("len", &Well::GetContLogLength)
    .def("pos", [](Well& w) { return py::make_tuple(w.GetXPos0(), w.GetYPos0()); }).def("set_pos", [](Well& w, double x, double y) { w.SetXPos0(x); w.SetYPos0(y); })
    .def("names", [](const Well& w, S n) { return std::map<int, S>(w.GetDiscNames(n)); });
  py::class_<LasWell, Well>(m, "Las").def(py::init<const S&>())
    .def(py::init([](S n, size_t len, double s, double d, bool time, S unit, S co, S fi, S lo, S da, S id) { return new LasWell(n, len, s, d, time ? LasWell::Time : LasWell::Depth, unit, co, fi, lo, da, id); }))
    .def("add", &LasWell::AddLog).def("unit", [](const LasWell& w, S n) { return S(w.GetLogUnit(n)); }).def("write", &LasWell::WriteToFile);
  py::class_<RMSWell, Well>(m, "Rms").def(py::init<const S&>()).def(py::init<const Well&>()).def("write", &RMSWell::WriteToFile);
  py::class_<NorsarWell, Well>(m, "Nor").def(py::init<const S&>()).def("unit", &NorsarWell::GetLogUnit).def("orig", [](NorsarWell& w) { return py::make_tuple(w.GetXPosOrigin(), w.GetYPosOrigin()); });
  m.def("read", [](S f, int fmt) { std::unique_ptr<Well> w(Well::ReadWell(f, fmt)); int kind = dynamic_cast<LasWell*>(w.get()) ? 2 : dynamic_cast<NorsarWell*>(w.get()) ? 1 : 0; return py::make_tuple(Well(*w), fmt, kind); });
  m.def("block", [](const Well& w, D geo, size_t nx, size_t ny, size_t nz, bool facies) {
    Volume v(geo[0], geo[1], geo[2], geo[3], geo[4], geo[5], geo[6]); Well b("other", -1.0, -1);
    b.AddContLog("OLD", D(2, 1.0));
    if (facies) BlockWell(w, StormFaciesGrid(v, nx, ny, nz), b); else BlockWell(w, StormContGrid(v, nx, ny, nz), b);
    return b;
  });
}
