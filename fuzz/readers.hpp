// One call per kind of file: read it as a user would, then look at what was read.
#pragma once
#include "nrlib/eclipsegrid/eclipsegrid.hpp"
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/logkit.hpp"
#include "nrlib/iotools/serialize.hpp"
#include "nrlib/iotools/stringtools.hpp"
#include "nrlib/iotools/tabularfile.hpp"
#include "nrlib/pointset/pointset.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/segy/segy.hpp"
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/stormgrid/stormcontgrid.hpp"
#include "nrlib/stormgrid/stormfaciesgrid.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/surface/surfaceio.hpp"
#include "nrlib/trend/trendkit.hpp"
#include "nrlib/wavelet/wavelet.hpp"
#include "nrlib/wavelet/waveletio.hpp"
#include "nrlib/well/laswell.hpp"
#include "nrlib/well/norsarwell.hpp"
#include "nrlib/well/rmswell.hpp"
#include "tinyxml/tinyxml.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace NRLib;

static volatile double sink;
static void use(double x) { sink = x; }

static void put(const std::string& f, const char* p, size_t n) {
  FILE* h = std::fopen(f.c_str(), "wb");
  if (!h) std::abort();
  if (n && std::fwrite(p, 1, n, h) != n) std::abort();
  std::fclose(h);
}

template <class S> static void use_surf(const S& s) {
  for (size_t i = 0; i < s.GetNI() && i < 50; ++i)
    for (size_t j = 0; j < s.GetNJ() && j < 50; ++j) use(s(i, j));
  use(s.GetN());
}

template <class G> static void use3(const G& g) {
  for (size_t k = 0; k < g.GetNK() && k < 12; ++k)
    for (size_t j = 0; j < g.GetNJ() && j < 12; ++j)
      for (size_t i = 0; i < g.GetNI() && i < 12; ++i) use(g(i, j, k));
}

static void regular(const std::string& f) {
  RegularSurface<double> s(f);
  use_surf(s);
  use(s.GetZ(s.GetXMin() + 0.3 * s.GetLengthX(), s.GetYMin() + 0.6 * s.GetLengthY()));
  use(s.GetZ(s.GetXMax(), s.GetYMax()));
  if (s.GetN() > 0) { use(s.Min()); use(s.Max()); use(s.Avg()); }
}

static void well(const Well& w) {
  for (std::map<std::string, std::vector<double> >::const_iterator i = w.GetContLog().begin(); i != w.GetContLog().end(); ++i)
    for (size_t k = 0; k < i->second.size(); ++k) use(w.GetContValue(k, i->first));
  for (std::map<std::string, std::vector<int> >::const_iterator i = w.GetDiscLog().begin(); i != w.GetDiscLog().end(); ++i)
    for (size_t k = 0; k < i->second.size(); ++k) use(w.GetDiscValue(k, i->first));
  use(w.GetWellName().size());
}

static void storm(const StormContGrid& g) {
  use3(g);
  double x, y, z;
  if (g.GetN() > 0) {
    g.FindCenterOfCell(0, 0, 0, x, y, z);
    use(z);
    try { use(g.GetValueZInterpolated(x, y, z)); } catch (const Exception&) {}
    try { use(g.GetValueClosestInZ(x, y, z)); } catch (const Exception&) {}
  }
}

static void segy(SegY& s, int how) {
  if (how == 0) {
    s.ReadAllTraces(NULL, 0.0);
    s.CreateRegularGrid();
    const SegyGeometry* g = s.GetGeometry();
    double x, y;
    if (g) {
      g->FindXYFromIJ(0, 0, x, y);
      use(s.GetValue(x, y, s.GetTop() + s.GetDz()));
      use(s.GetAllValues().size());
    }
    use(s.FindNumberOfSamplesInLongestTrace());
  }
  else if (how == 1) {
    s.FindAndSetGridGeometry();
    const SegyGeometry* g = s.GetGeometry();
    double x, y;
    if (g) {
      g->FindXYFromIJ(0, 0, x, y);
      std::vector<float> t;
      s.GetTraceData(x, y, t);
      use(t.size());
    }
  }
  else {
    for (int i = 0; i < 200; ++i) {
      SegYTrace* t = s.GetNextTrace();
      if (!t) break;
      if (t->GetEnd() > t->GetStart()) use(t->GetValue(t->GetStart()));
      delete t;
    }
  }
}

static void eclipse(const std::string& f) {
  EclipseGrid g(f);
  for (size_t k = 0; k < g.GetNK() && k < 8; ++k)
    for (size_t j = 0; j < g.GetNJ() && j < 8; ++j)
      for (size_t i = 0; i < g.GetNI() && i < 8; ++i) { use(g.IsActive(i, j, k)); use(g.GetZCorner(i, j, k, 1, 1, 1)); }
  std::vector<std::string> p = g.GetParameterNames();
  for (size_t i = 0; i < p.size(); ++i) use3(g.GetParameter(p[i]));
  size_t i, j, k;
  if (g.GetN() > 0) use(g.FindIndex(1.0, 1.0, 1.0, i, j, k));
  g.WriteToFile("out.grdecl");
}

static void xml(const TiXmlNode* n, int depth) {
  for (const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling()) {
    use(c->ValueStr().size() + c->Row() + c->Column());
    if (c->ToElement())
      for (const TiXmlAttribute* a = c->ToElement()->FirstAttribute(); a; a = a->Next()) use(a->ValueStr().size());
    if (depth < 500) xml(c, depth + 1);
  }
}

static const char* const KINDS[] = {"surface_auto", "surface_storm", "surface_irap", "surface_sgri", "surface_rotated", "surface_multi_sgri",
  "storm_cont", "storm_facies", "eclipse", "segy_all", "segy_geometry", "segy_traces", "segy_detect", "well_rms", "well_las", "well_norsar",
  "points", "wavelet_auto", "wavelet_jason", "wavelet_syntool", "wavelet_strata", "wavelet_landmark", "trend1d", "trend2d", "trend3d",
  "trend3d_binary", "tabular", "grid_type", "text", "seed", "xml_string", "xml_file", "xml_stream"};
static const int N_KINDS = sizeof(KINDS) / sizeof(KINDS[0]);

// data: the file, or two files with the bytes 1E 1E between them
static void read_one(int kind, const char* p, size_t n) {
  const std::string K = KINDS[kind];
  size_t cut = n;
  for (size_t i = 0; i + 1 < n; ++i)
    if (p[i] == '\x1e' && p[i + 1] == '\x1e') { cut = i; break; }
  if (K == "xml_string") {
    std::string s(p, n);
    TiXmlDocument d;
    d.Parse(s.c_str());
    xml(&d, 0);
    TiXmlPrinter pr;
    d.Accept(&pr);
    use(pr.Size());
    return;
  }
  if (K == "xml_stream") {
    std::istringstream s(std::string(p, n));
    TiXmlDocument d;
    s >> d;
    xml(&d, 0);
    return;
  }
  std::string f = "in.dat";
  if (K == "well_norsar") f = "in.nwh";
  if (K == "segy_all" || K == "segy_geometry" || K == "segy_traces" || K == "segy_detect") f = "in.segy";
  put(f, p, cut);
  const std::string other = K == "well_norsar" ? "in.nwt" : "data.bin";
  if (cut < n) put(other, p + cut + 2, n - cut - 2);
  else std::remove(other.c_str());
  if (K == "surface_auto") regular(f);
  else if (K == "surface_storm") { RegularSurface<double> s; ReadStormBinarySurf(f, s); use_surf(s); }
  else if (K == "surface_irap") { RegularSurface<double> s; double a; ReadIrapClassicAsciiSurf(f, s, a); use_surf(s); }
  else if (K == "surface_sgri") { RegularSurface<float> s; double a; ReadSgriSurf(f, s, a); use_surf(s); }
  else if (K == "surface_rotated") { RegularSurfaceRotated<double> s(f); use_surf(s); }
  else if (K == "surface_multi_sgri") {
    std::vector<RegularSurfaceRotated<float> > s = ReadMultipleSgriSurf(f, std::vector<std::string>());
    for (size_t i = 0; i < s.size() && i < 20; ++i) use_surf(s[i]);
  }
  else if (K == "storm_cont") { StormContGrid g(f); storm(g); }
  else if (K == "storm_facies") {
    StormFaciesGrid g(f);
    use3(g);
  }
  else if (K == "eclipse") eclipse(f);
  else if (K == "segy_all") { SegY s(f, 0.0); segy(s, 0); }
  else if (K == "segy_geometry") { SegY s(f, 0.0, TraceHeaderFormat(TraceHeaderFormat::SEISWORKS)); segy(s, 1); }
  else if (K == "segy_traces") { SegY s(f, 0.0, TraceHeaderFormat(TraceHeaderFormat::CHARISMA)); segy(s, 2); }
  else if (K == "segy_detect") {
    use(SegY::FindNumberOfTraces(f));
    TraceHeaderFormat t = SegY::FindTraceHeaderFormat(f);
    use(t.GetInlineLoc());
    std::unique_ptr<SegyGeometry> g(SegY::FindGridGeometry(f));
    if (g.get()) use(g->GetNx());
  }
  else if (K == "well_rms") { RMSWell w(f); well(w); w.WriteToFile("out.rms"); }
  else if (K == "well_las") { LasWell w(f); well(w); w.WriteToFile("out.las", std::vector<std::string>()); }
  else if (K == "well_norsar") { NorsarWell w(f); well(w); }
  else if (K == "points") {
    PointSet s(f);
    for (size_t i = 0; i < s.GetSize(); ++i) use(s[i].x);
    use(s.GetSize());
  }
  else if (K.compare(0, 8, "wavelet_") == 0) {
    WaveletFileType t = K == "wavelet_jason" ? JasonAscii : K == "wavelet_syntool" ? SyntoolOW : K == "wavelet_strata" ? Strata : K == "wavelet_landmark" ? LandmarkAscii : UnknownWavelet;
    Wavelet w(f, t);
    for (size_t i = 0; i < w.GetNSamples(); ++i) use(w[i] + w.GetTimeForIndex(i));
  }
  else if (K == "trend1d") {
    std::string e;
    std::vector<double> v;
    double s = 0, dz = 0;
    ReadTrend1D(f, e, v, s, dz);
    use(v.size());
  }
  else if (K == "trend2d") { std::string e; Grid2D<double> g; ReadTrend2DPlainAscii(f, e, g); use_surf(g); }
  else if (K == "trend3d") { std::string e; Grid<double> g; ReadTrend3DPlainAscii(f, e, g); use3(g); }
  else if (K == "trend3d_binary") { std::string e; Grid<double> g; ReadTrend3DBinary(f, END_BIG_ENDIAN, e, g); use3(g); }
  else if (K == "tabular") { TabularFile t(f); for (size_t i = 0; i < t.GetNColumns(); ++i) use(t.GetColumn(i).size()); }
  else if (K == "grid_type") { use(FindGridFileType(f)); use(FindSurfaceFileType(f)); use(FindWaveletFileType(f)); use(PointSet::FindFileType(f)); }
  else if (K == "text") {
    std::ifstream s;
    OpenRead(s, f);
    int line = 0;
    std::string t;
    ReadNextToken(s, t, line);
    std::string e;
    std::vector<double> v(3);
    try { ReadNextQuoted(s, '"', t, line); } catch (const Exception&) {}
    try { ReadAsciiArrayFast(s, v.begin(), 3); } catch (const Exception&) {}
    s.clear();
    s.seekg(0);
    try { ReadAsciiArray(s, v.begin(), 3, line); } catch (const Exception&) {}
    s.clear();
    s.seekg(0);
    std::string rest((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
    use(GetTokens(rest).size());
    try { use(GetQuotedTokens(rest).size()); } catch (const Exception&) {}
    use(Uppercase(rest).size() + Chomp(rest).size() + RemovePath(rest).size() + GetPath(rest).size() + GetStem(rest).size() + GetExtension(rest).size());
    try { use(ParseType<int>(rest)); } catch (const Exception&) {}
    try { use(ParseType<double>(rest)); } catch (const Exception&) {}
    std::istringstream q(rest);
    std::vector<double> d;
    try { DeserializeVector(q, d); } catch (const Exception&) {}
    std::vector<std::vector<double> > d2;
    try { Deserialize2dVector(q, d2, '/'); } catch (const Exception&) {}
  }
  else if (K == "seed") { Random::Initialize(f); use(Random::Unif01()); }
  else if (K == "xml_file") { TiXmlDocument d; d.LoadFile(f.c_str()); xml(&d, 0); d.SaveFile("out.xml"); }
}
