#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <sstream>
#include "nrlib/tinyxml/tinyxml.h"

static py::bytes B(const std::string& s) { return py::bytes(s); }

static int index_of(const TiXmlNode* parent, const TiXmlNode* n) {
  if (!n) return -1;
  int i = 0;
  for (const TiXmlNode* c = parent ? parent->FirstChild() : 0; c; c = c->NextSibling(), ++i)
    if (c == n) return i;
  return -2;
}

static py::object dump(const TiXmlNode* n) {
  py::list attrs, kids;
  py::object extra = py::none();
  if (const TiXmlElement* e = n->ToElement()) {
    const TiXmlAttribute* last = 0;
    for (const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) {
      attrs.append(py::make_tuple(B(a->ValueStr() == a->Value() && a->NameTStr() == a->Name() ? a->Name() : "?"), B(a->Value()), a->Row(), a->Column()));
      if (a->Previous() != last) throw std::runtime_error("attributes are not linked backwards");
      last = a;
    }
    if (e->LastAttribute() != last) throw std::runtime_error("wrong last attribute");
  }
  if (n->ToText()) extra = py::bool_(n->ToText()->CDATA());
  if (const TiXmlDeclaration* d = n->ToDeclaration()) extra = py::make_tuple(B(d->Version()), B(d->Encoding()), B(d->Standalone()));
  const TiXmlNode* prev = 0;
  for (const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling()) {
    if (c->Parent() != n) throw std::runtime_error("a child with another parent");
    if (c->PreviousSibling() != prev) throw std::runtime_error("children are not linked backwards");
    if (c->GetDocument() != n->GetDocument()) throw std::runtime_error("a child of another document");
    kids.append(dump(c));
    prev = c;
  }
  if (n->LastChild() != prev || n->NoChildren() != (prev == 0)) throw std::runtime_error("wrong last child");
  int casts = (n->ToDocument() != 0) + (n->ToElement() != 0) * 2 + (n->ToComment() != 0) * 4 + (n->ToUnknown() != 0) * 8 + (n->ToText() != 0) * 16 + (n->ToDeclaration() != 0) * 32;
  if (casts != 1 << n->Type()) throw std::runtime_error("casts do not agree with the type");
  return py::make_tuple(n->Type(), B(n->ToDocument() ? "" : n->ValueStr()), attrs, kids, n->Row(), n->Column(), extra);
}

// [type, value, [[name, value]...], [children], extra]
static TiXmlNode* build(const py::list& s, bool str) {
  int t = s[0].cast<int>();
  std::string v = s[1].cast<std::string>();
  TiXmlNode* r = 0;
  if (t == TiXmlNode::ELEMENT) {
    TiXmlElement* e = str ? new TiXmlElement(v) : new TiXmlElement(v.c_str());
    for (auto a : s[2].cast<py::list>()) {
      py::list p = a.cast<py::list>();
      if (str) e->SetAttribute(p[0].cast<std::string>(), p[1].cast<std::string>());
      else e->SetAttribute(p[0].cast<std::string>().c_str(), p[1].cast<std::string>().c_str());
    }
    int k = 0;
    for (auto c : s[3].cast<py::list>()) {
      TiXmlNode* n = build(c.cast<py::list>(), str);
      if (k++ % 2) e->LinkEndChild(n);
      else { e->InsertEndChild(*n); delete n; }
    }
    r = e;
  }
  else if (t == TiXmlNode::COMMENT) {
    TiXmlComment* c = new TiXmlComment();
    if (str) c->SetValue(v); else c->SetValue(v.c_str());
    r = c;
  }
  else if (t == TiXmlNode::UNKNOWN) { r = new TiXmlUnknown(); r->SetValue(v); }
  else if (t == TiXmlNode::TEXT) {
    TiXmlText* x = str ? new TiXmlText(v) : new TiXmlText(v.c_str());
    x->SetCDATA(s[4].cast<bool>());
    r = x;
  }
  else if (t == TiXmlNode::DECLARATION) {
    py::list p = s[4].cast<py::list>();
    r = new TiXmlDeclaration(p[0].cast<std::string>(), p[1].cast<std::string>(), p[2].cast<std::string>());
  }
  else r = new TiXmlDocument(v);
  return r;
}

struct Visitor : TiXmlVisitor {
  py::list ev;
  int stop, n = 0;
  bool leaf(const char* k, const TiXmlNode& x) { ev.append(py::make_tuple(k, B(x.ValueStr()))); return stop < 0 || n++ != stop; }
  bool VisitEnter(const TiXmlDocument&) override { ev.append(py::make_tuple("doc", B(""))); return true; }
  bool VisitExit(const TiXmlDocument&) override { ev.append(py::make_tuple("/doc", B(""))); return true; }
  bool VisitEnter(const TiXmlElement& e, const TiXmlAttribute* a) override {
    if (a != e.FirstAttribute()) throw std::runtime_error("the visitor got another first attribute");
    ev.append(py::make_tuple("el", B(e.ValueStr()))); return true; }
  bool VisitExit(const TiXmlElement& e) override { ev.append(py::make_tuple("/el", B(e.ValueStr()))); return true; }
  bool Visit(const TiXmlDeclaration& x) override { return leaf("decl", x); }
  bool Visit(const TiXmlText& x) override { return leaf("text", x); }
  bool Visit(const TiXmlComment& x) override { return leaf("comment", x); }
  bool Visit(const TiXmlUnknown& x) override { return leaf("unknown", x); }
};

// the text ends right before a page that can not be read
struct Guarded {
  char* base; size_t len; char* text;
  Guarded(const std::string& s) {
    size_t pg = sysconf(_SC_PAGESIZE), need = (s.size() + 1 + pg - 1) / pg * pg;
    len = need + pg;
    base = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base + need, pg, PROT_NONE);
    text = base + need - s.size() - 1;
    memcpy(text, s.c_str(), s.size() + 1);
  }
  ~Guarded() { munmap(base, len); }
};

static py::object opt(const char* s) { return s ? py::object(B(s)) : py::object(py::none()); }

struct Doc {
  TiXmlDocument* d;
  Doc() : d(new TiXmlDocument()) {}
  Doc(const Doc&) = delete;
  ~Doc() { delete d; }
  TiXmlNode* at(const std::vector<int>& path) {
    TiXmlNode* n = d;
    for (int i : path) {
      n = n->FirstChild();
      for (int k = 0; k < i && n; ++k) n = n->NextSibling();
      if (!n) throw std::runtime_error("no such node");
    }
    return n;
  }
  TiXmlElement* el(const std::vector<int>& p) { return at(p)->ToElement(); }
  py::object parse(py::bytes t, int enc) {
    std::string s = t;
    Guarded g(s);
    const char* p = d->Parse(g.text, 0, (TiXmlEncoding)enc);
    if (p && (p < g.text || p > g.text + s.size())) throw std::runtime_error("the end is outside the text");
    return p ? py::object(py::int_(p - g.text)) : py::object(py::none());
  }
  py::object error() { return py::make_tuple(d->Error(), d->ErrorId(), std::string(d->ErrorDesc()), d->ErrorRow(), d->ErrorCol()); }
  py::object stream_in(py::bytes t) {
    std::istringstream in{std::string(t)};
    in >> *d;
    in.clear();
    std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    return B(rest);
  }
  py::object nav(const std::vector<int>& path, const std::string& s, int k, bool str) {
    TiXmlNode* n = at(path);
    const TiXmlNode* c = n;
    TiXmlNode* up = n->Parent();
    TiXmlHandle h(n);
    const char* v = s.c_str();
    py::dict r;
    auto I = [&](const TiXmlNode* x) { return index_of(n, x); };
    auto U = [&](const TiXmlNode* x) { return index_of(up, x); };
    r["first"] = I(n->FirstChild());
    r["last"] = I(c->LastChild());
    r["first_v"] = I(str ? n->FirstChild(s) : c->FirstChild(v));
    r["last_v"] = I(str ? c->LastChild(s) : n->LastChild(v));
    r["first_el"] = I(n->FirstChildElement());
    r["first_el_v"] = I(str ? c->FirstChildElement(s) : n->FirstChildElement(v));
    int ix = -5, ix2 = -5;
    r["first_i"] = I(n->FirstChild(v, ix));
    r["first_el_i"] = I(n->FirstChildElement(v, ix2));
    r["i"] = ix;
    r["el_i"] = ix2;
    py::list it, itv;
    for (TiXmlNode* x = n->IterateChildren(0); x; x = n->IterateChildren(x)) it.append(I(x));
    for (TiXmlNode* x = str ? n->IterateChildren(s, 0) : n->IterateChildren(v, 0); x; x = str ? n->IterateChildren(s, x) : n->IterateChildren(v, x)) itv.append(I(x));
    r["iter"] = it;
    r["iter_v"] = itv;
    if (up) {
      r["next"] = U(n->NextSibling());
      r["prev"] = U(n->PreviousSibling());
      r["next_v"] = U(str ? n->NextSibling(s) : c->NextSibling(v));
      r["prev_v"] = U(str ? c->PreviousSibling(s) : n->PreviousSibling(v));
      r["next_el"] = U(n->NextSiblingElement());
      r["next_el_v"] = U(str ? n->NextSiblingElement(s) : c->NextSiblingElement(v));
    }
    r["h_first"] = I(h.FirstChild().ToNode());
    r["h_first_v"] = I((str ? h.FirstChild(s) : h.FirstChild(v)).ToNode());
    r["h_el"] = I(h.FirstChildElement().ToElement());
    r["h_el_v"] = I((str ? h.FirstChildElement(s) : h.FirstChildElement(v)).ToElement());
    r["h_k"] = I(h.Child(k).ToNode());
    r["h_kv"] = I((str ? h.Child(s, k) : h.Child(v, k)).ToNode());
    r["h_ek"] = I(h.ChildElement(k).ToElement());
    r["h_ekv"] = I((str ? h.ChildElement(s, k) : h.ChildElement(v, k)).ToElement());
    r["h_text"] = I(h.Child(k).ToText());
    r["h_unknown"] = I(h.Child(k).ToUnknown());
    TiXmlHandle none = h.Child(1000000).FirstChild().FirstChildElement("x").ChildElement(0).Child("y", 2);
    r["h_none"] = none.ToNode() == 0 && none.ToElement() == 0 && none.ToText() == 0 && none.ToUnknown() == 0;
    r["root"] = index_of(d, d->RootElement());
    r["doc"] = n->GetDocument() == d;
    if (n->ToElement()) r["text"] = opt(n->ToElement()->GetText());
    return r;
  }
};

PYBIND11_MODULE(vxml, m) {
  py::class_<Doc>(m, "Doc").def(py::init<>())
    .def("parse", &Doc::parse)
    .def("error", &Doc::error)
    .def("dump", [](Doc& d) { return dump(d.d); })
    .def("load", [](Doc& d, const std::string& f, int enc, int how) {
      if (how == 0) return d.d->LoadFile(f, (TiXmlEncoding)enc);
      if (how == 1) { d.d->SetValue(f); return d.d->LoadFile((TiXmlEncoding)enc); }
      if (how == 2) return d.d->LoadFile(f.c_str(), (TiXmlEncoding)enc);
      FILE* fp = fopen(f.c_str(), "rb");
      bool r = d.d->LoadFile(fp, (TiXmlEncoding)enc);
      if (fp) fclose(fp);
      return r; })
    .def("save", [](Doc& d, const std::string& f, int how) {
      if (how == 0) return d.d->SaveFile(f);
      if (how == 1) { d.d->SetValue(f); return d.d->SaveFile(); }
      if (how == 2) return d.d->SaveFile(f.c_str());
      FILE* fp = fopen(f.c_str(), "w");
      if (!fp) return false;
      bool r = d.d->SaveFile(fp);
      fclose(fp);
      return r; })
    .def("name", [](Doc& d) { return std::string(d.d->Value()); })
    .def("tab", [](Doc& d, int n) { d.d->SetTabSize(n); return d.d->TabSize(); })
    .def("clear_error", [](Doc& d) { d.d->ClearError(); })
    .def("stream_in", &Doc::stream_in)
    .def("out", [](Doc& d, std::vector<int> p, bool str) {
      if (str) { std::string s; s << *d.at(p); return B(s); }
      std::ostringstream o; o << *d.at(p); return B(o.str()); })
    .def("printer", [](Doc& d, std::vector<int> p, py::object indent, py::object lb, bool stream) {
      TiXmlPrinter pr;
      if (!indent.is_none()) pr.SetIndent(indent.cast<std::string>().c_str());
      if (!lb.is_none()) pr.SetLineBreak(lb.cast<std::string>().c_str());
      if (stream) pr.SetStreamPrinting();
      d.at(p)->Accept(&pr);
      if (pr.Str() != pr.CStr() || pr.Size() != pr.Str().size()) throw std::runtime_error("printer results disagree");
      return B(pr.Str()); })
    .def("visit", [](Doc& d, int stop) { Visitor v; v.stop = stop; d.d->Accept(&v); return v.ev; })
    .def("copy", [](Doc& d, int how) { // 0 copy constructor, 1 assignment to a document with content
      TiXmlDocument* n;
      if (how == 0) n = new TiXmlDocument(*d.d);
      else { n = new TiXmlDocument("other"); n->Parse("<other><x a='1'/></other>"); *n = *d.d; }
      delete d.d;
      d.d = n; })
    .def("nav", &Doc::nav)
    .def("end", [](Doc& d, std::vector<int> p, py::list s, bool link, bool str) {
      TiXmlNode* n = build(s, str);
      TiXmlNode* t = d.at(p);
      if (link) return index_of(t, t->LinkEndChild(n));
      int r = index_of(t, t->InsertEndChild(*n));
      delete n;
      return r; })
    .def("insert", [](Doc& d, std::vector<int> p, int i, py::list s, bool after, bool str) {
      TiXmlNode* n = build(s, str);
      TiXmlNode* t = d.at(p);
      TiXmlNode* at = i < 0 ? t : d.at([&]() { auto q = p; q.push_back(i); return q; }());
      int r = index_of(t, after ? t->InsertAfterChild(at, *n) : t->InsertBeforeChild(at, *n));
      delete n;
      return r; })
    .def("insert_null", [](Doc& d, std::vector<int> p, py::list s, bool after) {
      TiXmlNode* n = build(s, true);
      TiXmlNode* t = d.at(p);
      bool r = (after ? t->InsertAfterChild(0, *n) : t->InsertBeforeChild(0, *n)) != 0;
      delete n;
      return r; })
    .def("insert_existing", [](Doc& d, std::vector<int> p, std::vector<int> from) { return index_of(d.at(p), d.at(p)->InsertEndChild(*d.at(from))); })
    .def("replace", [](Doc& d, std::vector<int> p, std::vector<int> q, py::list s) {
      TiXmlNode* n = build(s, true);
      int r = index_of(d.at(p), d.at(p)->ReplaceChild(d.at(q), *n));
      delete n;
      return r; })
    .def("remove", [](Doc& d, std::vector<int> p, int i) {
      auto q = p;
      q.push_back(i);
      return d.at(p)->RemoveChild(d.at(q)); })
    .def("clear", [](Doc& d, std::vector<int> p) { d.at(p)->Clear(); })
    .def("set_value", [](Doc& d, std::vector<int> p, const std::string& v, bool str) { if (str) d.at(p)->SetValue(v); else d.at(p)->SetValue(v.c_str()); })
    .def("set_cdata", [](Doc& d, std::vector<int> p, bool v) { d.at(p)->ToText()->SetCDATA(v); })
    .def("set_attr", [](Doc& d, std::vector<int> p, const std::string& n, const std::string& v, bool str) {
      if (str) d.el(p)->SetAttribute(n, v); else d.el(p)->SetAttribute(n.c_str(), v.c_str()); })
    .def("set_int", [](Doc& d, std::vector<int> p, const std::string& n, int v, int how) {
      if (how == 0) d.el(p)->SetAttribute(n, v);
      else if (how == 1) d.el(p)->SetAttribute(n.c_str(), v);
      else { d.el(p)->SetAttribute(n, std::string("x")); for (TiXmlAttribute* a = d.el(p)->FirstAttribute(); a; a = a->Next()) if (n == a->Name()) a->SetIntValue(v); } })
    .def("set_double", [](Doc& d, std::vector<int> p, const std::string& n, double v, int how) {
      if (how == 0) d.el(p)->SetDoubleAttribute(n.c_str(), v);
      else { d.el(p)->SetAttribute(n, std::string("x")); for (TiXmlAttribute* a = d.el(p)->FirstAttribute(); a; a = a->Next()) if (n == a->Name()) a->SetDoubleValue(v); } })
    .def("remove_attr", [](Doc& d, std::vector<int> p, const std::string& n, bool str) { if (str) d.el(p)->RemoveAttribute(n); else d.el(p)->RemoveAttribute(n.c_str()); })
    .def("assign_el", [](Doc& d, std::vector<int> p, std::vector<int> from) { TiXmlElement c(*d.el(from)); *d.el(p) = c; })
    .def("clone_into", [](Doc& d, std::vector<int> p, std::vector<int> from) { TiXmlNode* n = d.at(from)->Clone(); return index_of(d.at(p), d.at(p)->LinkEndChild(n)); })
    .def("query", [](Doc& d, std::vector<int> p, const std::string& n, bool str) {
      const TiXmlElement* e = d.el(p);
      py::dict r;
      const char* v = n.c_str();
      const std::string* sv = e->Attribute(n);
      r["value"] = str ? (sv ? py::object(B(*sv)) : py::object(py::none())) : opt(e->Attribute(v));
      int i = 77, i2 = 77, i3 = 77; double f = 77, f2 = 77, f3 = 77; float g = 77; unsigned u = 77; std::string w = "?";
      if (str) { e->Attribute(n, &i); e->Attribute(n, &f); } else { e->Attribute(v, &i); e->Attribute(v, &f); }
      r["atoi"] = i;
      r["atof"] = f;
      int a = str ? e->QueryIntAttribute(n, &i2) : e->QueryIntAttribute(v, &i2);
      int b = str ? e->QueryDoubleAttribute(n, &f2) : e->QueryDoubleAttribute(v, &f2);
      int c = e->QueryFloatAttribute(v, &g);
      r["int"] = py::make_tuple(a, i2);
      r["double"] = py::make_tuple(b, f2);
      r["float"] = py::make_tuple(c, g);
      int x = e->QueryValueAttribute(n, &f3), y = e->QueryValueAttribute(n, &u), z = e->QueryValueAttribute(n, &w);
      r["vdouble"] = py::make_tuple(x, x ? 77.0 : f3);
      r["vunsigned"] = py::make_tuple(y, y ? 77u : u);
      r["vstring"] = py::make_tuple(z, B(z ? "?" : w));
      for (const TiXmlAttribute* q = e->FirstAttribute(); q; q = q->Next())
        if (n == q->Name()) r["own"] = py::make_tuple(q->IntValue(), q->DoubleValue());
      return r; });
  m.def("condense", [](bool c) { TiXmlBase::SetCondenseWhiteSpace(c); return TiXmlBase::IsWhiteSpaceCondensed(); });
  m.def("encode", [](py::bytes s) { std::string o; TiXmlBase::EncodeString(std::string(s), &o); return B(o); });
}
