#include "common.hpp"
#include <fstream>
#include <sstream>
#include <cstring>
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/stringtools.hpp"
#include "nrlib/iotools/bigfile.hpp"
#include "nrlib/iotools/serialize.hpp"
#include "nrlib/iotools/tabularfile.hpp"
#include "nrlib/iotools/logkit.hpp"
#include "nrlib/iotools/logstream.hpp"
using namespace NRLib;
typedef unsigned long long U;
typedef std::vector<U> VU;

template <class T> T from_bits(U u) { T t; std::memcpy(&t, &u, sizeof(T)); return t; }
template <class T> U to_bits(T t) { U u = 0; std::memcpy(&u, &t, sizeof(T)); return u; }
static Endianess en(bool little) { return little ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; }

template <class F> void wr(F& f, std::string kind, VU v, bool array, bool little, bool dflt) {
#define W(K, T, FN) if (kind == K) { \
    if (array) { std::vector<T> a; for (U u : v) a.push_back(from_bits<T>(u)); if (dflt) FN##Array(f, a.begin(), a.end()); else FN##Array(f, a.begin(), a.end(), en(little)); } \
    else for (U u : v) { if (dflt) FN(f, from_bits<T>(u)); else FN(f, from_bits<T>(u), en(little)); } return; }
  W("short", short, WriteBinaryShort) W("int", int, WriteBinaryInt) W("float", float, WriteBinaryFloat) W("double", double, WriteBinaryDouble) W("ibm", float, WriteBinaryIbmFloat)
  throw std::runtime_error("kind");
}

template <class F> VU rd(F& f, std::string kind, size_t n, bool array, bool little, bool dflt) {
  VU o;
#define R(K, T, FN) if (kind == K) { \
    if (array) { std::vector<T> a(n + 2, from_bits<T>(0x5a5a5a5a5a5a5a5aULL)); if (dflt) FN##Array(f, a.begin(), n); else FN##Array(f, a.begin(), n, en(little)); for (T t : a) o.push_back(to_bits(t)); \
      U g = to_bits(from_bits<T>(0x5a5a5a5a5a5a5a5aULL)); if (o[n] != g || o[n + 1] != g) throw std::runtime_error("SHIM: wrote past the n elements"); o.resize(n); } \
    else for (size_t i = 0; i < n; ++i) o.push_back(to_bits(dflt ? FN(f) : FN(f, en(little)))); return o; }
  R("short", short, ReadBinaryShort) R("int", int, ReadBinaryInt) R("float", float, ReadBinaryFloat) R("double", double, ReadBinaryDouble) R("ibm", float, ReadBinaryIbmFloat)
  throw std::runtime_error("kind");
}

struct OutS {
  std::ofstream f;
  OutS(std::string p) { OpenWrite(f, p, std::ios::out | std::ios::binary); }
  void write(std::string k, VU v, bool a, bool l, bool d) { wr(f, k, v, a, l, d); }
  void raw(py::bytes b) { std::string s = b; f.write(s.data(), s.size()); }
  int seek(long long o, int w) { f.seekp(o, w == 0 ? std::ios::beg : w == 1 ? std::ios::cur : std::ios::end); return 0; }
  long long tell() { return f.tellp(); }
  void close() { f.close(); }
};
struct InS {
  std::ifstream f;
  InS(std::string p) { OpenRead(f, p, std::ios::in | std::ios::binary); }
  VU read(std::string k, size_t n, bool a, bool l, bool d) { return rd(f, k, n, a, l, d); }
  py::bytes raw(size_t n) { std::string s(n, 0); f.read(&s[0], n); s.resize(f.gcount()); return s; }
  int seek(long long o, int w) { f.seekg(o, w == 0 ? std::ios::beg : w == 1 ? std::ios::cur : std::ios::end); return 0; }
  long long tell() { return f.tellg(); }
  bool good() { return f.good(); }
  bool eof() { return f.eof(); }
  void clear() { f.clear(); }
  void close() { f.close(); }
};
struct Big {
  BigFile f;
  void openr(std::string p) { f.OpenRead(p); }
  void openw(std::string p, bool create) { f.OpenWrite(p, true, create); }
  void write(std::string k, VU v, bool a, bool l, bool d) { wr(f, k, v, a, l, d); }
  void wraw(py::bytes b) { std::string s = b; if (f.write(s.data(), s.size()) != s.size()) throw std::runtime_error("SHIM: count written"); }
  VU read(std::string k, size_t n, bool a, bool l, bool d) { return rd(f, k, n, a, l, d); }
  py::bytes raw(size_t n) { std::string s(n, 0); size_t k = f.read(&s[0], n); s.resize(k); return s; }
  int seek(long long o, int w) { return f.seek(o, w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END); }
  long long tell() { return f.tell(); }
  bool good() { return f.good(); }
  bool eof() { return f.eof(); }
  bool bad() { return f.bad(); }
  void clear() { f.clear(); }
  void close() { f.close(); }
  long long size() { return f.FileSize(); }
  std::string name() { return f.GetFileName().string(); }
};

struct Text {
  std::istringstream f;
  int line;
  Text(py::bytes b) : f(std::string(b)), line(1) {}
  py::bytes token() { std::string s; ReadNextToken(f, s, line); return s; }
  py::bytes next_s() { return ReadNext<std::string>(f, line); }
  int next_i() { return ReadNext<int>(f, line); }
  double next_d() { return ReadNext<double>(f, line); }
  py::bytes quoted(char q) { std::string s; ReadNextQuoted(f, q, s, line); return s; }
  void discard(bool t) { DiscardRestOfLine(f, line, t); }
  py::object nonempty() { std::string s; if (GetNextNonEmptyLine(f, line, s)) return py::bytes(s); return py::none(); }
  void skip(char c) { SkipComments(f, c, line); }
  bool at_end() { return CheckEndOfFile(f); }
  template <class T> std::vector<T> arr(size_t n) { std::vector<T> v(n); auto e = ReadAsciiArray(f, v.begin(), n, line); if (e != v.end()) throw std::runtime_error("SHIM: iterator"); return v; }
  template <class T> std::vector<T> fast(size_t n) { std::vector<T> v(n); auto e = ReadAsciiArrayFast(f, v.begin(), n); if (e != v.end()) throw std::runtime_error("SHIM: iterator"); return v; }
  template <class T> std::vector<T> rest(size_t n) { std::vector<T> v(n); auto e = ReadAsciiArrayFastRestOfFile(f, v.begin(), n); if (e != v.end()) throw std::runtime_error("SHIM: iterator"); return v; }
};

template <class T> py::bytes wascii(std::vector<T> v, int n) { std::ostringstream o; WriteAsciiArray(o, v.begin(), v.end(), n); return o.str(); }
template <class T> py::object parse(py::bytes b) { return py::cast(ParseType<T>(std::string(b))); }
template <class T> std::vector<T> parr(py::bytes b, size_t n) { std::string s = b; std::vector<T> v(n); ParseAsciiArrayFast(s, v.begin(), n); return v; }
template <class T> py::tuple ser(std::vector<T> v) { std::stringstream s; SerializeVector(v, s); std::vector<T> o; DeserializeVector(s, o); return py::make_tuple(py::bytes(s.str()), o); }
template <class T> std::vector<std::vector<T> > ser2(std::vector<std::vector<T> > v, std::string tail, char e) {
  std::stringstream s; Serialize2dVector(v, s); s << tail; std::vector<std::vector<T> > o; Deserialize2dVector(s, o, e); return o; }

PYBIND11_MODULE(vio, m) {
  static py::exception<EndOfFile> eof(m, "EndOfFile");
  static py::exception<IOError> ioe(m, "IOErr");
  static py::exception<FileFormatError> ffe(m, "FormatErr");
  static py::exception<Exception> exc(m, "Exc");
  py::register_exception_translator([](std::exception_ptr p) {
    try { if (p) std::rethrow_exception(p); }
    catch (const EndOfFile& e) { eof(e.what()); }
    catch (const FileFormatError& e) { ffe(e.what()); }
    catch (const IOError& e) { ioe(e.what()); }
    catch (const Exception& e) { exc(e.what()); }
  });
  py::class_<OutS>(m, "OutS").def(py::init<std::string>()).def("write", &OutS::write).def("raw", &OutS::raw).def("seek", &OutS::seek).def("tell", &OutS::tell).def("close", &OutS::close);
  py::class_<InS>(m, "InS").def(py::init<std::string>()).def("read", &InS::read).def("raw", &InS::raw).def("seek", &InS::seek).def("tell", &InS::tell)
    .def("good", &InS::good).def("eof", &InS::eof).def("clear", &InS::clear).def("close", &InS::close);
  py::class_<Big>(m, "Big").def(py::init<>()).def("openr", &Big::openr).def("openw", &Big::openw).def("write", &Big::write).def("wraw", &Big::wraw).def("read", &Big::read).def("raw", &Big::raw)
    .def("seek", &Big::seek).def("tell", &Big::tell).def("good", &Big::good).def("eof", &Big::eof).def("bad", &Big::bad).def("clear", &Big::clear).def("close", &Big::close).def("size", &Big::size).def("name", &Big::name);
  m.def("buf", [](py::bytes b4) {   // all the buffer functions on 4 bytes
    std::string s = b4; const char* p = s.data(); char q[4];
    short a; int b; unsigned short c; unsigned int d; float e, g;
    ParseInt16BE(p, a); ParseInt32BE(p, b); ParseUInt16BE(p, c); ParseUInt32BE(p, d); ParseIEEEFloatBE(p, e); ParseIBMFloatBE(p, g);
    py::list l; l.append(a); l.append(b); l.append(c); l.append(d); l.append(to_bits(e)); l.append(to_bits(g));
    WriteInt16BE(q, a); l.append(py::bytes(q, 2)); WriteInt32BE(q, b); l.append(py::bytes(q, 4)); WriteUInt16BE(q, c); l.append(py::bytes(q, 2)); WriteUInt32BE(q, d); l.append(py::bytes(q, 4));
    return l; });
  py::class_<Text>(m, "Text").def(py::init<py::bytes>()).def_readwrite("line", &Text::line).def("token", &Text::token).def("next_s", &Text::next_s).def("next_i", &Text::next_i).def("next_d", &Text::next_d)
    .def("quoted", &Text::quoted).def("discard", &Text::discard).def("nonempty", &Text::nonempty).def("skip", &Text::skip).def("at_end", &Text::at_end)
    .def("arr_i", &Text::arr<int>).def("arr_d", &Text::arr<double>).def("fast_i", &Text::fast<int>).def("fast_d", &Text::fast<double>)
    .def("rest_i", &Text::rest<int>).def("rest_d", &Text::rest<double>);
  m.def("last_line", [](py::bytes b) { std::istringstream s{std::string(b)}; return py::bytes(FindLastNonEmptyLine(s)); });
  m.def("ignore_comment", [](std::string f, char c, int n) { std::ifstream s; OpenRead(s, f); std::vector<bool> r; for (int i = 0; i < n; ++i) r.push_back(IgnoreComment(s, c)); std::string t; std::getline(s, t, '\0'); return py::make_tuple(r, py::bytes(t)); });
  m.def("tokens", [](py::bytes s) { std::vector<py::bytes> o; for (auto& x : GetTokens(s)) o.push_back(x); return o; });
  m.def("quoted_tokens", [](py::bytes s) { std::vector<py::bytes> o; for (auto& x : GetQuotedTokens(s)) o.push_back(x); return o; });
  m.def("is_type", [](py::bytes b) { std::string s = b; return py::make_tuple(IsType<int>(s), IsType<double>(s), IsType<float>(s), IsType<unsigned>(s), IsType<char>(s), IsNumber(s)); });
  m.def("parse_i", &parse<int>); m.def("parse_d", &parse<double>); m.def("parse_f", &parse<float>); m.def("parse_u", &parse<unsigned>);
  m.def("parse_s", [](py::bytes b) { return py::bytes(ParseType<std::string>(std::string(b))); });
  m.def("to_s_i", [](int x) { return ToString(x); }); m.def("to_s_d", [](double x, int p) { return p < 0 ? ToString(x) : ToString(x, p); });
  m.def("to_s_s", [](py::bytes x) { return py::bytes(ToString(std::string(x))); });
  m.def("parse_arr_i", &parr<int>); m.def("parse_arr_d", &parr<double>); m.def("parse_arr_f", &parr<float>);
  m.def("paths", [](std::string f, std::string e, std::string d) { return py::make_tuple(GetPath(f), GetStem(f), GetExtension(f), RemovePath(f), PrependDir(d, f), ReplaceExtension(f, e), AddExtension(f, e)); });
  m.def("substitute", [](py::bytes t, py::bytes o, py::bytes i) { std::string s = t; Substitute(s, o, i); return py::bytes(s); });
  m.def("upper", [](py::bytes t) { return py::bytes(Uppercase(t)); });
  m.def("chomp", [](py::bytes t) { return py::bytes(Chomp(t)); });
  m.def("wascii_i", &wascii<int>); m.def("wascii_d", &wascii<double>); m.def("wascii_s", &wascii<std::string>);
  m.def("ser_i", &ser<int>); m.def("ser_d", &ser<double>); m.def("ser_s", &ser<std::string>); m.def("ser2", &ser2<size_t>); m.def("ser2_i", &ser2<int>);  m.def("ser2_d", &ser2<double>);
  m.def("grid_type", &FindGridFileType);
  m.def("file_size", &FindFileSize); m.def("exists", &FileExists); m.def("remove", &RemoveFile); m.def("copy", &CopyFile); m.def("mkdir_for", &CreateDirIfNotExists);
  m.def("open_write", [](std::string f, py::bytes b, bool app, bool create, bool two) { std::string s = b; auto md = std::ios::binary | (app ? std::ios::app : std::ios::out);
    if (two) { std::fstream o; OpenWrite(o, f, md | std::ios::out, create); o << s; } else { std::ofstream o; OpenWrite(o, f, md, create); o << s; } });
  m.def("open_read", [](std::string f, bool two) { std::string s; std::ostringstream t; if (two) { std::fstream o; OpenRead(o, f, std::ios::in | std::ios::binary); t << o.rdbuf(); } else { std::ifstream o; OpenRead(o, f, std::ios::in | std::ios::binary); t << o.rdbuf(); } return py::bytes(t.str()); });
  m.def("table", [](std::string f, py::object first, size_t nc, bool last) {
    auto cols = [](const TabularFile& t) { std::vector<std::vector<double> > o; for (size_t i = 0; i < t.GetNColumns(); ++i) o.push_back(t.GetColumn(i)); return o; };
    if (first.is_none()) return cols(TabularFile(f)); return cols(TabularFile(f, first.cast<size_t>(), nc, last)); });
  m.def("table_check", [](std::string f) { size_t a = 0, b = 0; bool r = false; std::string l; bool ok = TabularFile::CheckFile(f, a, b, r, l); return py::make_tuple(ok, a, b, r, py::bytes(l)); });
  // log kit
  m.def("log_file", [](std::string f, int l, bool n) { LogKit::SetFileLog(f, l, n); });
  m.def("log_file_v", [](std::string f, std::vector<int> l, bool g) { if (g) LogKit::SetFileLog(f, l, true); else LogKit::SetFileLog(f, l); });
  m.def("log_file_p", [](std::string f, int l, int p, bool g) { if (g) LogKit::SetFileLog(f, l, p, true); else LogKit::SetFileLog(f, l, p); });
  m.def("log_screen", [](int l, bool n) { LogKit::SetScreenLog(l, n); });
  m.def("log_screen_v", [](std::vector<int> l, bool g) { if (g) LogKit::SetScreenLog(l, true); else LogKit::SetScreenLog(l); });
  m.def("log", [](int l, std::string s) { LogKit::LogMessage(l, s); });
  m.def("log_p", [](int l, int p, std::string s) { LogKit::LogMessage(l, p, s); });
  m.def("logf", [](int l, std::string s, int i, double d) { LogKit::LogFormatted(l, "%s|%d|%7.3f\n", s.c_str(), i, d); });
  m.def("logf_p", [](int l, int p, std::string s, int i, double d) { LogKit::LogFormatted(l, p, "%s|%d|%7.3f\n", s.c_str(), i, d); });
  m.def("log_end", &LogKit::EndLog); m.def("log_start_buf", &LogKit::StartBuffering); m.def("log_end_buf", &LogKit::EndBuffering);
  m.def("log_prefix", [](std::string p, int l) { LogKit::SetPrefix(p, l); }); m.def("log_n", &LogKit::GetNMessages);
  m.def("log_add", [](std::string f, std::vector<int> l, bool g) { LogStream* s = new FileLogStream(f, l, g); LogKit::AddLogStream(s); return reinterpret_cast<size_t>(s); });
  m.def("log_remove", [](size_t s) { LogKit::RemoveLogStream(reinterpret_cast<LogStream*>(s)); });
  m.def("log_progress", [](double p, std::string s) { LogKit::UpdateProgress(p, s); std::cout.flush(); });
  m.def("log_header", [](std::string t, int l) { LogKit::WriteHeader(t, static_cast<LogKit::MessageLevels>(l)); });
}
