// C08: boundary representations of the geometries, bounding boxes, and tests for overlapping boxes
#include "geo.hh"
#include <memory>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/geometryutilities/assign.hh>
#include <frackit/geometryutilities/applyongeometry.hh>
#include <frackit/geometryutilities/name.hh>
#include <frackit/geometryutilities/isplanar.hh>
#include <frackit/intersection/bboxintersection.hh>
#include <frackit/occ/breputilities.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using E3 = Ellipse<double,3>;
using C3 = Circle<double,3>;
using A3 = EllipseArc<double,3>;
using Q3 = Quadrilateral<double,3>;
using G3 = Polygon<double,3>;
namespace O = OCCUtilities;

static R3 at(const TopoDS_Edge& e, double part)
{
    double u0, u1;
    const auto c = BRep_Tool::Curve(e, u0, u1);
    return r3(O::point(c->Value(u0 + part*(u1-u0))));
}
static bool is(R3 a, R3 b, double tol = 1e-5) { const R3 d = sub(a, b); return d.x <= tol && d.x >= -tol && d.y <= tol && d.y >= -tol && d.z <= tol && d.z >= -tol; }
static R3 symR3(double b = 20) { return r3(symPoint("ox","oy","oz", b)); }

HARNESS(c08_points)
{
    const P3 p = symPoint("px","py","pz"), q = symPoint("qx","qy","qz");
    const auto v = O::getShape(p);
    near3(r3(O::point(v)), r3(p), 0, "the vertex of a point lies at the point");
    near3(r3(O::point(O::point(p))), r3(p), 0, "points survive the conversion");
    const gp_Pnt a = O::point(P2(p.x(), p.y())), b = O::point(P1(p.x()));
    sym_assert(a.X() == p.x() && a.Y() == p.y() && a.Z() == 0.0 && b.X() == p.x() && b.Y() == 0.0 && b.Z() == 0.0, "points of lower dimension lie in the space of their coordinates");
    const V3 w(p.x(), p.y(), p.z());
    near3(r3(O::vector(O::vector(w))), r3(w), 0, "vectors survive the conversion");
    const Frame3 f = symFrame("q");
    near3(r3(O::direction(O::direction(dir(f.u)))), f.u, 1e-6, "directions survive the conversion");
    double d[2]; sym_unit2("d", d);
    const gp_Dir e = O::direction(D2(V2(d[0], d[1])));
    sym_assert(e.X() <= d[0]+1e-6 && e.X() >= d[0]-1e-6 && e.Y() <= d[1]+1e-6 && e.Y() >= d[1]-1e-6 && e.Z() == 0.0, "directions of the plane survive the conversion");
}
HARNESS(c08_segment)
{
    const R3 o = symR3(); const Frame3 f = symFrame("q");
    const double l = sym_real("len", 0.01, 50);
    const P3 s = pt(o), t = pt(add(o, f.at(l,0,0)));
    const TopoDS_Edge e = sym_bool("make") ? O::makeEdge(s, t) : O::getShape(S3(s, t));
    near3(at(e, 0), r3(s), 1e-5, "the edge of a segment starts at its source");
    near3(at(e, 1), r3(t), 1e-5, "the edge of a segment ends at its target");
    const auto v = O::getVertices(e);
    sym_assert(v.size() == 2, "a segment has two vertices");
    near3(r3(O::point(v[0])), r3(s), 1e-9, "the vertices of a segment are its ends"); near3(r3(O::point(v[1])), r3(t), 1e-9, "the vertices of a segment are its ends");
}
static void ellipseWire(const TopoDS_Wire& w, R3 o, const Frame3& f, double a, double b, const char* label)
{
    const auto e = O::getEdges(w);
    sym_assert(e.size() == 1, label);
    near3(at(e[0], 0), add(o, f.at(a,0,0)), 1e-5, label);
    near3(at(e[0], 0.25), add(o, f.at(0,b,0)), 1e-5, label);
    near3(at(e[0], 0.5), add(o, f.at(-a,0,0)), 1e-5, label);
    near3(at(e[0], 1.0), add(o, f.at(a,0,0)), 1e-5, label);
}
HARNESS(c08_ellipse)
{
    const R3 o = symR3(); const Frame3 f = symFrame("q");
    const double a = sym_real("a", 0.1, 20), b = sym_real("b", 0.1, 20); sym_assume(a >= b);
    const E3 E(pt(o), dir(f.u), dir(f.v), a, b);
    if (sym_bool("face"))
    {
        const auto face = O::getShape(Disk<double>(E));
        const auto w = O::getWires(face);
        sym_assert(w.size() == 1, "the face of a disk has one rim");
        ellipseWire(w[0], o, f, a, b, "the rim of the face of a disk is its bounding ellipse");
        ellipseWire(BRepTools::OuterWire(face), o, f, a, b, "the rim of the face of a disk is its bounding ellipse");
    }
    else ellipseWire(O::getShape(E), o, f, a, b, "the wire of an ellipse follows it");
}
HARNESS(c08_circle)
{
    const R3 o = symR3(); const Frame3 f = symFrameZ("q");
    const double r = sym_real("r", 0.1, 20);
    const C3 c(pt(o), D3(V3(0.0,0.0,1.0)), r);
    const Frame3 g{r3(c.base1()), r3(c.base2()), r3(c.normal())};
    ellipseWire(O::getShape(c), o, g, r, r, "the wire of a circle follows it");
}
HARNESS(c08_arc)
{
    // ends at multiples of 1/16 and free positions between, arbitrary ellipse
    const R3 o = symR3(); const Frame3 f = symFrameZ("q");
    const double a = sym_real("a", 0.1, 20), b = sym_real("b", 0.1, 20); sym_assume(a >= b);
    static const double C[8] = {0.96, 0.28, -0.28, -0.96, -0.96, -0.28, 0.28, 0.96}, S[8] = {0.28, 0.96, 0.96, 0.28, -0.28, -0.96, -0.96, -0.28};
    const long i = sym_choice("i", 8), j = sym_choice("j", 8); if (i == j) sym_skip();
    const P3 s = pt(add(o, f.at(a*C[i], b*S[i], 0))), t = pt(add(o, f.at(a*C[j], b*S[j], 0)));
    const A3 arc(E3(pt(o), dir(f.u), dir(f.v), a, b), s, t);
    const TopoDS_Edge e = O::getShape(arc);
    auto nearA = [&] (R3 x, R3 y, const char* l) { const R3 d = sub(x, y); sym_near(dot(d, f.u), 0, 1e-4, l); sym_near(dot(d, f.v), 0, 1e-4, l); sym_near(dot(d, f.w), 0, 1e-4, l); };
    nearA(at(e, 0), r3(s), "the edge of an arc starts at its source");
    nearA(at(e, 1), r3(t), "the edge of an arc ends at its target");
    nearA(at(e, 0.5), r3(arc.getPoint(0.5)), "the edge of an arc runs counter-clockwise from source to target");
}
template<class V> static void ringFace(const TopoDS_Face& face, const V& c, int n, const char* label)
{
    const auto w = O::getWires(face);
    sym_assert(w.size() == 1, label);
    const auto e = O::getEdges(w[0]);
    sym_assert(int(e.size()) == n, label);
    bool seen[8] = {false};
    for (int i = 0; i < n; ++i)
    {
        const auto v = O::getVertices(e[i]);
        sym_assert(v.size() == 2, label);
        const R3 p = r3(O::point(v[0])), q = r3(O::point(v[1]));
        bool found = false;
        for (int k = 0; k < n && !found; ++k)
        {
            const R3 x = c[k], y = c[(k+1)%n];
            if (!seen[k] && ((is(p, x, 0) && is(q, y, 0)) || (is(p, y, 0) && is(q, x, 0)))) { seen[k] = true; found = true; }
        }
        sym_assert(found, label);
    }
    sym_assert(int(O::getVertices(face).size()) == 2*n, label);
}
HARNESS(c08_ring)
{
    const R3 o = symR3(); const Frame3 f = symFrameZ("q");
    static const double x[5] = {0, 4, 5, 2, -1}, y[5] = {0, 0, 3, 5, 2};
    R3 c[5];
    for (int i = 0; i < 5; ++i) c[i] = add(o, f.at(x[i], y[i], 0));
    const long k = sym_choice("shape", 4);
    if (k == 0) ringFace(O::getShape(Q3(pt(c[0]), pt(c[1]), pt(c[3]), pt(c[2]))), c, 4, "the face of a quadrilateral is bounded by its edges");
    else
    {
        const int n = int(k) + 2;
        std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pt(c[i]));
        ringFace(O::getShape(G3(v)), c, n, "the face of a polygon is bounded by its edges");
    }
}
// every edge of a cylinder: two rims and a seam
static void cylEdges(const std::vector<TopoDS_Edge>& edges, R3 o, const Frame3& f, double r, double h, const char* label)
{
    bool lo = false, hi = false, seam = false;
    for (const auto& e : edges)
    {
        double z = 0;
        for (int i = 0; i < 2; ++i)
        {
            const R3 d = sub(at(e, i ? 0.5 : 0.0), o);
            const double u = dot(d, f.u), v = dot(d, f.v), w = dot(d, f.w);
            z = w;
            sym_near(u*u + v*v, r*r, 1e-4, label);
            sym_near(v, 0, 1e-4, label);
        }
        const bool l = z <= 1e-5 && z >= -1e-5, u = z <= h + 1e-5 && z >= h - 1e-5, m = z <= 0.5*h + 1e-5 && z >= 0.5*h - 1e-5;
        sym_assert(l || u || m, label);
        if (l) lo = true; else if (u) hi = true; else seam = true;
    }
    sym_assert(lo && hi && seam, label);
}
HARNESS(c08_cylinder)
{
    const R3 o = symR3();
    static const Frame3 F[3] = {{{1,0,0},{0,1,0},{0,0,1}}, {{0.6,0.8,0},{0,0,1},{0.8,-0.6,0}}, {{0,0,1},{1,0,0},{0,1,0}}};
    const Frame3 f = F[sym_choice("frame", 3)];
    const double r = sym_real("r", 0.1, 20), h = sym_real("h", 0.1, 20);
    const Cylinder<double> c(C3(pt(o), dir(f.w), r), h);
    const Frame3 g{r3(c.base1()), r3(c.base2()), r3(c.base3())};
    const long k = sym_choice("shape", 2);
    if (k == 0)
    {
        const auto s = O::getShape(c);
        sym_assert(O::getSolids(s).size() == 1 && O::getShells(s).size() == 1 && O::getFaces(s).size() == 3, "a cylinder is a solid with three faces");
        cylEdges(O::getEdges(s), o, g, r, h, "the solid of a cylinder stands on its base and has its radius and height");
    }
    else
    {
        const auto s = O::getShape(c.lateralFace());
        sym_assert(O::getFaces(s).size() == 1, "a cylinder surface is a face");
        cylEdges(O::getEdges(s), o, g, r, h, "the face of a cylinder surface stands on its base and has its radius and height");
    }
}
HARNESS(c08_box)
{
    const R3 o = symR3();
    const double a = sym_real("a", 0.1, 20), b = sym_real("b", 0.1, 20), c = sym_real("c", 0.1, 20);
    const auto s = O::getShape(Box<double>(o.x, o.y, o.z, o.x+a, o.y+b, o.z+c));
    sym_assert(O::getSolids(s).size() == 1 && O::getFaces(s).size() == 6 && O::getEdges(s).size() == 24, "a box is a solid with six faces");
    bool seen[8] = {false};
    for (const auto& v : O::getVertices(s))
    {
        const R3 d = sub(r3(O::point(v)), o);
        int k = 0;
        if (d.x >= 0.5*a) k += 1; if (d.y >= 0.5*b) k += 2; if (d.z >= 0.5*c) k += 4;
        near3(d, R3{k & 1 ? a : 0, k & 2 ? b : 0, k & 4 ? c : 0}, 1e-6, "the vertices of the solid of a box are its corners");
        seen[k] = true;
    }
    for (int i = 0; i < 8; ++i) sym_assert(seen[i], "the vertices of the solid of a box are its corners");
}
// ---------------------------------------------------------------- bounding boxes
static void boxNear(const Box<double>& b, R3 lo, R3 hi, const char* label)
{
    near3(R3{b.xMin(), b.yMin(), b.zMin()}, lo, 1e-5, label);
    near3(R3{b.xMax(), b.yMax(), b.zMax()}, hi, 1e-5, label);
}
template<class V> static void boxOf(const Box<double>& b, const V& c, int n, const char* label)
{
    // covers all corners and is touched by one on every side
    bool t[6] = {false};
    const double tol = 1e-5;
    for (int i = 0; i < n; ++i)
    {
        const double q[3] = {c[i].x, c[i].y, c[i].z}, l[3] = {b.xMin(), b.yMin(), b.zMin()}, u[3] = {b.xMax(), b.yMax(), b.zMax()};
        for (int k = 0; k < 3; ++k)
        {
            sym_le(l[k], q[k], 0, label); sym_le(q[k], u[k], 0, label);
            if (q[k] <= l[k] + tol) t[k] = true;
            if (q[k] >= u[k] - tol) t[k+3] = true;
        }
    }
    for (int k = 0; k < 6; ++k) sym_assert(t[k], label);
}
HARNESS(c08_bbox_points)
{
    const R3 o = symR3();
    R3 c[5] = {o};
    const long k = sym_choice("shape", 4);
    if (k == 0) { boxOf(getBoundingBox(pt(o)), c, 1, "the bounding box of a point is the point"); return; }
    if (k == 1)
    {
        const P3 q = symPoint("px","py","pz", 20); c[1] = r3(q);
        sym_assume(sq(sub(c[1], o)) > 1e-4);
        boxOf(getBoundingBox(S3(pt(o), q)), c, 2, "the bounding box of a segment spans its ends"); return;
    }
    const Frame3 f = symFrameZ("q");
    static const double x[5] = {0, 4, 5, 2, -1}, y[5] = {0, 0, 3, 5, 2};
    for (int i = 0; i < 5; ++i) c[i] = add(o, f.at(x[i], y[i], 0));
    if (k == 2) boxOf(getBoundingBox(Q3(pt(c[0]), pt(c[1]), pt(c[3]), pt(c[2]))), c, 4, "the bounding box of a quadrilateral spans its corners");
    else boxOf(getBoundingBox(G3(std::vector<P3>{pt(c[0]), pt(c[1]), pt(c[2]), pt(c[3]), pt(c[4])})), c, 5, "the bounding box of a polygon spans its corners");
}
HARNESS(c08_bbox_round)
{
    const R3 o = symR3();
    static const Frame3 F[3] = {{{1,0,0},{0,1,0},{0,0,1}}, {{0.6,0.8,0},{0,0,1},{0.8,-0.6,0}}, {{0,0.28,0.96},{1,0,0},{0,0.96,-0.28}}};
    const Frame3 f = F[sym_choice("frame", 3)];
    const double a = sym_real("a", 0.1, 20), b = sym_real("b", 0.1, 20), h = sym_real("h", 0.1, 20);
    const long k = sym_choice("shape", 4);
    if (k == 0) boxNear(getBoundingBox(Box<double>(o.x, o.y, o.z, o.x+a, o.y+b, o.z+h)), o, R3{o.x+a, o.y+b, o.z+h}, "the bounding box of a box is the box");
    if (k == 1) boxNear(getBoundingBox(Sphere<double>(pt(o), a)), sub(o, R3{a,a,a}), add(o, R3{a,a,a}), "the bounding box of a sphere encloses it");
    if (k == 2)
    {
        sym_assume(a >= b);
        const auto bb = getBoundingBox(Disk<double>(pt(o), dir(f.u), dir(f.v), a, b));
        const R3 e{std::sqrt(a*a*f.u.x*f.u.x + b*b*f.v.x*f.v.x), std::sqrt(a*a*f.u.y*f.u.y + b*b*f.v.y*f.v.y), std::sqrt(a*a*f.u.z*f.u.z + b*b*f.v.z*f.v.z)};
        boxNear(bb, sub(o, e), add(o, e), "the bounding box of a disk encloses it");
    }
    if (k == 3)
    {
        const Cylinder<double> c(C3(pt(o), dir(f.w), a), h);
        const auto bb = sym_bool("solid") ? getBoundingBox(c) : getBoundingBox(c.lateralFace());
        const R3 e{a*std::sqrt(1-f.w.x*f.w.x), a*std::sqrt(1-f.w.y*f.w.y), a*std::sqrt(1-f.w.z*f.w.z)}, t = mul(f.w, h);
        const R3 lo{t.x < 0 ? t.x : 0, t.y < 0 ? t.y : 0, t.z < 0 ? t.z : 0}, hi{t.x > 0 ? t.x : 0, t.y > 0 ? t.y : 0, t.z > 0 ? t.z : 0};
        boxNear(bb, add(o, sub(lo, e)), add(o, add(hi, e)), "the bounding box of a cylinder encloses it");
    }
}
static Box<double> symBox(const char* x, const char* y, const char* z, const char* a, const char* b, const char* c)
{
    const P3 o = symPoint(x, y, z, 20);
    return Box<double>(o.x(), o.y(), o.z(), o.x()+sym_real(a, 0.0, 20), o.y()+sym_real(b, 0.0, 20), o.z()+sym_real(c, 0.0, 20));
}
HARNESS(c08_boxes)
{
    const auto A = symBox("ax","ay","az","al","am","an"), B = symBox("bx","by","bz","bl","bm","bn");
    const double eps = sym_real("eps", 1e-9, 1);
    const double gx = A.xMin() > B.xMax() ? A.xMin()-B.xMax() : B.xMin()-A.xMax();
    const double gy = A.yMin() > B.yMax() ? A.yMin()-B.yMax() : B.yMin()-A.yMax();
    const double gz = A.zMin() > B.zMax() ? A.zMin()-B.zMax() : B.zMin()-A.zMax();
    if (sym_force(gx < 0.999*eps && gy < 0.999*eps && gz < 0.999*eps)) { sym_assert(doIntersect(A, B, eps), "boxes that overlap or nearly touch intersect"); sym_assert(doIntersect(B, A, eps), "boxes that overlap or nearly touch intersect"); }
    else if (sym_force(gx > 1.001*eps || gy > 1.001*eps || gz > 1.001*eps)) { sym_assert(!doIntersect(A, B, eps), "boxes further apart than the tolerance do not intersect"); sym_assert(!doIntersect(B, A, eps), "boxes further apart than the tolerance do not intersect"); }
}
HARNESS(c08_boxes_default)
{
    const auto A = symBox("ax","ay","az","al","am","an"), B = symBox("bx","by","bz","bl","bm","bn");
    const double gx = A.xMin() > B.xMax() ? A.xMin()-B.xMax() : B.xMin()-A.xMax();
    const double gy = A.yMin() > B.yMax() ? A.yMin()-B.yMax() : B.yMin()-A.yMax();
    const double gz = A.zMin() > B.zMax() ? A.zMin()-B.zMax() : B.zMin()-A.zMax();
    if (sym_force(gx < 0 && gy < 0 && gz < 0)) sym_assert(doIntersect(A, B), "overlapping boxes intersect (default tolerance)");
    else if (sym_force(gx > 1e-4 || gy > 1e-4 || gz > 1e-4)) sym_assert(!doIntersect(A, B), "boxes apart do not intersect (default tolerance)");
}
HARNESS(c08_intervals)
{
    const double a = sym_real("a", -50, 50), l = sym_real("l", 0, 50), b = sym_real("b", -50, 50), m = sym_real("m", 0, 50), eps = sym_real("eps", 0, 2);
    const std::array<double,2> I{{a, a+l}}, J{{b, b+m}};
    if (sym_force(a < b+m+0.999*eps && b < a+l+0.999*eps)) sym_assert(intervalsOverlap(I, J, eps), "intervals with a common point overlap");
    else if (sym_force(a > b+m+1.001*eps+1e-9 || b > a+l+1.001*eps+1e-9)) sym_assert(!intervalsOverlap(I, J, eps), "intervals further apart than the tolerance do not overlap");
}
// ---------------------------------------------------------------- geometries behind the common interface
struct Probe
{
    int kind = 0; R3 o; double a = 0;
    template<class T> void operator()(const T& g) { set(g); }
    void set(const Disk<double>& d) { kind = 1; o = r3(d.center()); a = d.majorAxisLength(); }
    void set(const Q3& q) { kind = 2; o = r3(q.corner(0)); a = 0; }
};
HARNESS(c08_dispatch)
{
    const R3 o = symR3();
    const double a = sym_real("a", 0.1, 20);
    const auto disk = std::make_shared<Disk<double>>(pt(o), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), a, a);
    const auto quad = std::make_shared<Q3>(pt(o), pt(add(o, R3{a,0,0})), pt(add(o, R3{0,a,0})), pt(add(o, R3{a,a,0})));
    const auto seg = std::make_shared<S3>(pt(o), pt(add(o, R3{a,0,0})));
    const long k = sym_choice("kind", 3);
    std::shared_ptr<Geometry> g;
    if (k == 0) g = disk; if (k == 1) g = quad; if (k == 2) g = seg;
    Probe p; bool thrown = false;
    auto f = [&p] (const auto& x) { p(x); };
    try { if (sym_bool("raw")) applyOnGeometry(f, g.get()); else applyOnGeometry(f, g); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown == (k == 2), "only geometries with an implementation are accepted");
    if (k < 2)
    {
        sym_assert(p.kind == k+1, "the function is applied to the geometry that was passed");
        near3(p.o, o, 0, "the function is applied to the geometry that was passed");
        if (k == 0) sym_near(p.a, a, 0, "the function is applied to the geometry that was passed");
    }
    Disk<double> d(P3(0,0,0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 1, 1);
    sym_assert(assign(g, d) == (k == 0), "a geometry is only assigned to its own type");
    if (k == 0) { near3(r3(d.center()), o, 0, "assigning keeps the geometry"); sym_near(d.majorAxisLength(), a, 0, "assigning keeps the geometry"); }
    else { near3(r3(d.center()), R3{0,0,0}, 0, "a refused assignment leaves the target unchanged"); sym_near(d.majorAxisLength(), 1, 0, "a refused assignment leaves the target unchanged"); }
    S3 s; Q3 q;
    sym_assert(assign(g.get(), s) == (k == 2), "a geometry is only assigned to its own type");
    sym_assert(assign(g.get(), q) == (k == 1), "a geometry is only assigned to its own type");
    if (k == 2) near3(r3(s.target()), add(o, R3{a,0,0}), 1e-9, "assigning keeps the geometry");
    if (k == 1) near3(r3(q.corner(3)), add(o, R3{a,a,0}), 1e-9, "assigning keeps the geometry");
}
HARNESS(c08_names)
{
    // names identify the types: no two types share one
    std::vector<std::string> n;
    n.push_back(geometryName(P1(1.0))); n.push_back(geometryName(P2(1.0,1.0))); n.push_back(geometryName(P3(1,1,1)));
    n.push_back(geometryName(S3())); n.push_back(geometryName(Line<double,3>(P3(0,0,0), D3(V3(1.0,0.0,0.0)))));
    n.push_back(geometryName(Plane<double,3>(P3(0,0,0), D3(V3(1.0,0.0,0.0)))));
    n.push_back(geometryName(Disk<double>())); n.push_back(geometryName(Q3())); n.push_back(geometryName(G3(std::vector<P3>{P3(0,0,0),P3(1,0,0),P3(0,1,0)})));
    n.push_back(geometryName(C3(P3(0,0,0), D3(V3(0.0,0.0,1.0)), 1.0))); n.push_back(geometryName(E3(P3(0,0,0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 2, 1)));
    n.push_back(geometryName(Sphere<double>(P3(0,0,0), 1.0))); n.push_back(geometryName(Box<double>(0,0,0,1,1,1)));
    n.push_back(geometryName(Cylinder<double>(1.0, 1.0))); n.push_back(geometryName(CylinderSurface<double>(1.0, 1.0)));
    n.push_back(geometryName(V3(1.0,0.0,0.0))); n.push_back(geometryName(D3(V3(1.0,0.0,0.0))));
    n.push_back(geometryName(TopoDS_Face())); n.push_back(geometryName(TopoDS_Solid())); n.push_back(geometryName(TopoDS_Edge())); n.push_back(geometryName(TopoDS_Wire()));
    n.push_back(geometryName(TopoDS_Shell())); n.push_back(geometryName(TopoDS_Vertex())); n.push_back(geometryName(TopoDS_Shape()));
    for (std::size_t i = 0; i < n.size(); ++i) for (std::size_t j = 0; j < i; ++j) sym_assert(n[i] != n[j], "names identify the types of geometries");
    sym_assert(isPlanarGeometry(Disk<double>()) && isPlanarGeometry(Q3()) && !isPlanarGeometry(CylinderSurface<double>(1.0, 1.0)) && !isPlanarGeometry(S3()) && !isPlanarGeometry(TopoDS_Face()), "planar geometries are those spanned in a plane");
    bool thrown = false;
    try { O::getShape(Line<double,3>(P3(0,0,0), D3(V3(1.0,0.0,0.0)))); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "geometries without a boundary representation are refused");
}
