#include "common.hpp"
#include <sstream>
#include "nrlib/geometry/point.hpp"
#include "nrlib/geometry/line.hpp"
#include "nrlib/geometry/plane.hpp"
#include "nrlib/geometry/triangle.hpp"
#include "nrlib/geometry/polygon.hpp"
#include "nrlib/geometry/box.hpp"
#include "nrlib/geometry/bilinearsurface.hpp"
#include "nrlib/geometry/interpolation.hpp"
#include "nrlib/geometry/transformation.hpp"
using namespace NRLib;
typedef std::array<double, 3> A;
typedef std::vector<double> V;
static Point P(const A& a) { return Point(a[0], a[1], a[2]); }
static A U(const Point& p) { return A{p.x, p.y, p.z}; }
static Line L(const A& a, const A& b, int kind) {   // 0 segment, 1 ray, 2 infinite, 3 ray that ends at b
  if (kind == 0) return Line::Segment(P(a), P(b));
  if (kind == 1) return Line::Ray(P(a), P(b) - P(a));
  if (kind == 2) return Line::InfiniteLine(P(a), P(b) - P(a));
  return Line(P(a), P(b), false, true);
}
static Polygon G(const std::vector<A>& v) { Polygon g; for (auto& a : v) g.AddPoint(P(a)); return g; }
static Box B(const A& r, const A& l, double angle) { return Box(P(r), l[0], l[1], l[2], angle); }

PYBIND11_MODULE(vgeo, m) {
  m.def("point", [](A a, A b, double t) {
    Point p = P(a), q = P(b), r = p, s = p, n = p, w = p, w2 = q;
    py::dict d;
    d["+"] = U(p + q); d["-"] = U(p - q); d["neg"] = U(-p); d["*"] = U(p * t); d["t*"] = U(t * p); d["/"] = U(p / t);
    r += q; d["+="] = U(r); s -= q; d["-="] = U(s); r = p; r *= t; d["*="] = U(r); r = p; r /= t; d["/="] = U(r);
    d["=="] = p == q; d["!="] = p != q; d["dot"] = p.Dot(q); d["dot2"] = Dot(p, q); d["cross"] = U(p.Cross(q)); d["cross2"] = U(Cross(p, q));
    d["dist"] = p.GetDistance(q); d["distxy"] = p.GetDistanceXY(q); d["norm"] = p.Norm(); d["norm2"] = Norm(p); d["unit"] = U(p.GetNormalized()); n.Normalize(); d["unit2"] = U(n);
    d["angle"] = p.GetAngle(q); w.Swap(w2); d["swap"] = U(w); d["swap2"] = U(w2); r.SetPoint(a[1], a[2], a[0]); d["set"] = U(r);
    std::ostringstream o; o << p; d["out"] = o.str(); std::istringstream i(std::to_string(7) + " 8.5 -9"); i >> r; d["in"] = U(r);
    return d; });
  m.def("is_equal", [](A a, A b, double tol) { return P(a).IsEqual(P(b), tol); });
  m.def("left", [](A p, A a, A b) { return P(p).LeftFromLineXY(P(a), P(b)); });
  m.def("in_list", [](A p, std::vector<A> v) { std::vector<Point> w; for (auto& a : v) w.push_back(P(a)); return P(p).IsInList(w); });
  m.def("path_len", [](std::vector<A> v) { std::vector<Point> w; for (auto& a : v) w.push_back(P(a)); return Point::CalculatePointVectorLength(w); });
  m.def("line", [](A a, A b, int k, A p) {
    Line l = L(a, b, k); py::dict d; bool right; Point q1, q2;
    d["p1"] = U(l.GetPt1()); d["p2"] = U(l.GetPt2()); d["dir"] = U(l.GetDir()); d["e1"] = l.IsEndPt1(); d["e2"] = l.IsEndPt2(); d["e1b"] = l.GetPt1(q1); d["e2b"] = l.GetPt2(q2); d["q1"] = U(q1); d["q2"] = U(q2);
    d["len"] = l.GetLength(); d["dist"] = l.FindDistance(P(p)); d["dist2"] = l.FindDistanceAndSide(P(p), right); d["right"] = right; d["proj"] = U(l.FindProjection(P(p)));
    d["on"] = l.IsPointOnLine(P(p)); Line xy = l.GetPt1().x == l.GetPt2().x && l.GetPt1().y == l.GetPt2().y ? l : l.LineXY(); d["xy1"] = U(xy.GetPt1()); d["xy2"] = U(xy.GetPt2()); d["xye"] = py::make_tuple(xy.IsEndPt1(), xy.IsEndPt2());
    return d; });
  m.def("param", [](A a, A b, A p) { return L(a, b, 0).FindParameter(P(p)); });
  m.def("on_line", [](A a, A b, int k, A p, double tol) { return L(a, b, k).IsPointOnLine(P(p), tol); });
  m.def("line_line", [](A a, A b, int k, A c, A e, int l) { Line x = L(a, b, k), y = L(c, e, l); Point p, q; double d = x.FindDistance(y, p, q); return py::make_tuple(d, U(p), U(q), x.FindDistance(y)); });
  m.def("parallel", [](A a, A b, int k, A c, A e, int l, double tol) { return tol < 0 ? L(a, b, k).IsParallel(L(c, e, l)) : L(a, b, k).IsParallel(L(c, e, l), tol); });
  m.def("overlap", [](A a, A b, int k, A c, A e, int l, double tol) { return tol < 0 ? L(a, b, k).IsOverLapping(L(c, e, l)) : L(a, b, k).IsOverLapping(L(c, e, l), tol); });
  m.def("cross_xy", [](A a, A b, A c, A e, bool inf) { Point p(7, 7, 7); bool r = L(a, b, 0).IntersectXY(L(c, e, 0), p, inf); return py::make_tuple(r, U(p)); });
  m.def("inf_angle", [](A a, double t) { Line l = Line::InfiniteLine(P(a), t); return py::make_tuple(U(l.GetPt1()), U(l.GetDir()), l.IsEndPt1(), l.IsEndPt2()); });
  m.def("plane", [](A a, A b, A c, bool three, A p) {
    Plane q = three ? Plane(P(a), P(b), P(c)) : Plane(P(a), P(b)); py::dict d;
    d["ref"] = U(q.GetRefPoint()); d["n"] = U(q.GetNormalVector()); d["proj"] = U(q.FindProjection(P(p))); d["dist"] = q.FindDistance(P(p)); d["on"] = q.IsPointOnPlane(P(p)); d["pos"] = q.IsOnPositiveSide(P(p)); return d; });
  m.def("plane_line", [](A a, A n, A c, A e, int k) { Plane q(P(a), P(n)); Line l = L(c, e, k); Point x; bool par = q.IsParallel(l); bool r = q.FindIntersection(l, x); Point y = par ? Point() : q.FindIntersection(l); return py::make_tuple(par, r, U(x), U(y)); });
  m.def("plane_plane", [](A a, A n, A b, A o) { Line l = Plane(P(a), P(n)).FindIntersection(Plane(P(b), P(o))); return py::make_tuple(U(l.GetPt1()), U(l.GetPt2()), l.IsEndPt1(), l.IsEndPt2()); });
  m.def("tri", [](A a, A b, A c, A s, A e, int k, bool edge) { Triangle t; t.SetCornerPoints(P(a), P(b), P(c)); Triangle t2(P(a), P(b), P(c)); Line l = L(s, e, k); Point p, q; bool r = t.FindIntersection(l, p, edge); double d = t2.FindNearestPoint(l, q); return py::make_tuple(r, U(p), d, U(q)); });
  m.def("inside", [](std::vector<A> g, A p) { Polygon q = G(g); return py::make_tuple(q.IsInsidePolygonXY(P(p)), q.IsInsidePolygonXY(p[0], p[1])); });
  m.def("poly", [](std::vector<A> g) { Polygon q = G(g); py::dict d; double a, b, c, e; q.XYExtent(a, b, c, e); d["ext"] = A{a, b, c}; d["ymax"] = e; d["n"] = q.GetSize(); d["ccw"] = q.IsCounterclockwise(); d["convex"] = q.IsConvex(); d["circ"] = q.GetCircumferenceXY();
    std::vector<Point> o, cl; q.GetPoints(o); q.GetPoints(cl, true); d["nc"] = cl.size(); d["last"] = U(cl.back()); std::vector<A> w; for (auto& x : o) w.push_back(U(x)); d["pts"] = w; return d; });
  m.def("make_convex", [](std::vector<A> g) { Polygon q = G(g); q.MakeConvex(); std::vector<Point> o; q.GetPoints(o); std::vector<A> w; for (auto& x : o) w.push_back(U(x)); return w; });
  m.def("min_rect", [](std::vector<A> g) { Polygon q = G(g); double x, y, l1, l2, a = 99; q.MinEnclosingRectangle(x, y, l1, l2, a); return py::make_tuple(x, y, l1, l2, a); });
  m.def("tangents", [](std::vector<A> g, A p) { size_t r = 0, l = 0; G(g).TangentPointPoly(P(p), r, l); return py::make_tuple(r, l); });
  m.def("poly_dist", [](std::vector<A> g, size_t i, size_t j) { return G(g).DistanceBetweenPointsXY(i, j); });
  m.def("poly_find", [](std::vector<A> g, A p) { return G(g).FindPointPosition(P(p)); });
  m.def("box", [](A r, A l, double angle, A p, bool minmax, bool swap) {
    Box b = minmax ? Box(r[0], r[1], r[2], r[0] + l[0], r[1] + l[1], r[2] + l[2]) : B(r, l, angle);
    if (swap) { Box c; c.Swap(b); if (b.GetLX() != 0 || b.GetAngle() != 0) throw std::runtime_error("SHIM swap"); c.Swap(b); Box e; e.Swap(b); b = e; }
    py::dict d; std::vector<A> c, c2; for (int i = 0; i < 8; ++i) { c.push_back(U(b.GetCorner(i & 1, (i >> 1) & 1, i >> 2))); c2.push_back(U(b.GetCorner(bool(i & 1), bool(i & 2), bool(i & 4)))); }
    d["corners"] = c; d["corners2"] = c2; d["in"] = b.IsInside(P(p)); d["dist"] = b.FindDistance(P(p)); d["ref"] = A{b.GetXRef(), b.GetYRef(), b.GetZRef()}; d["l"] = A{b.GetLX(), b.GetLY(), b.GetLZ()}; d["angle"] = b.GetAngle(); return d; });
  m.def("box_line", [](A r, A l, double angle, A s, A e, int k) { std::vector<A> o; for (auto& p : B(r, l, angle).FindIntersections(L(s, e, k))) o.push_back(U(p)); return o; });
  m.def("bil", [](A a, A b, A c, A d, bool vec, double u, double v) { BilinearSurface s; if (vec) s.SetPtVector(P(a), P(b) - P(a), P(d) - P(a), P(c) - P(d) - P(b) + P(a)); else s.SetCornerPoints(P(a), P(b), P(c), P(d)); BilinearSurface t(P(a), P(b), P(c), P(d)); return py::make_tuple(U(s.GetPoint(u, v)), U(t.GetPoint(u, v))); });
  m.def("bil_above", [](A a, A b, A c, A d, A p) { return BilinearSurface(P(a), P(b), P(c), P(d)).IsAbove(P(p)); });
  m.def("bil_line", [](A a, A b, A c, A d, A s, A e) { BilinearSurface q(P(a), P(b), P(c), P(d)); Point x, y; int n = q.FindIntersections(L(s, e, 2), x, y); return py::make_tuple(n, U(x), U(y)); });
  m.def("interp", [](V x, V y, V o, std::string meth, py::object ex) { return ex.is_none() ? Interpolation::Interpolate1D(x, y, o, meth) : Interpolation::Interpolate1D(x, y, o, meth, ex.cast<double>()); });
  m.def("between", &Interpolation::InterpolateBetweenPoints);
  m.def("transform", [](std::vector<std::pair<std::string, std::array<double, 2>>> ops, A p) {
    Transformation t;
    for (auto& o : ops) { double a = o.second[0], b = o.second[1]; const std::string& s = o.first;
      if (s == "tx") t.TranslateX(a); else if (s == "ty") t.TranslateY(a); else if (s == "tz") t.TranslateZ(a); else if (s == "sx") t.StretchX(a); else if (s == "sy") t.StretchY(a); else if (s == "sz") t.StretchZ(a);
      else if (s == "rx") t.RotateX(a); else if (s == "ry") t.RotateY(a); else if (s == "rz") t.RotateZ(a); else if (s == "hxy") t.ShearXY(a, b); else if (s == "hxz") t.ShearXZ(a, b); else if (s == "hyz") t.ShearYZ(a, b);
      else if (s == "mxy") t.MirrorXY(); else if (s == "mxz") t.MirrorXZ(); else t.MirrorYZ(); }
    Point q = P(p); t.Transform(q); return U(q); });
}
