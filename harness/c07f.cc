// C07: distances between shapes are those of the BRep kernel: right shapes, unchanged parameters, its value
#include "geo.hh"
#include <memory>
#include <variant>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointonboundary.hh>
using namespace Frackit;

struct Call { TopoDS_Shape a, b; double defl; int flag, algo; };
static Call calls[8];
static double values[8];
static int n;
static long refuse;
static bool hook(const TopoDS_Shape& a, const TopoDS_Shape& b, double defl, int flag, int algo, double& v, bool& done)
{
    static const char* nm[8] = {"d0","d1","d2","d3","d4","d5","d6","d7"};
    if (n >= 8) { sym_fail("more distance computations than parts of the boundary"); return true; }
    calls[n] = {a, b, defl, flag, algo};
    values[n] = sym_real(nm[n], 0, 100);
    v = values[n]; done = n != refuse; ++n;
    return true;
}
static bool isRim(const TopoDS_Shape& s, const P3& c, double r)
{
    const auto e = occ::subs(s, TopAbs_EDGE);
    return e.size() == 1 && e[0].n->kind == occ::K_ELLIPSE && e[0].n->closed && e[0].n->p.X() == c.x() && e[0].n->p.Y() == c.y() && e[0].n->p.Z() == c.z()
           && e[0].n->a == r && e[0].n->b == r;
}
static bool isEdge(const TopoDS_Shape& s, const P3& p, const P3& q)
{
    if (s.n->kind != occ::K_LINE) return false;
    auto at = [&] (int i, const P3& x) { const auto& y = s.n->kids[i].n->p; return y.X() == x.x() && y.Y() == x.y() && y.Z() == x.z(); };
    return (at(0, p) && at(1, q)) || (at(0, q) && at(1, p));
}

HARNESS(c07_brep)
{
    occ::distance = hook;
    n = 0; refuse = -1;
    const double defl = sym_real("defl", 1e-9, 1e-3);
    const auto flag = static_cast<Extrema_ExtFlag>(sym_choice("flag", 3));
    const auto algo = static_cast<Extrema_ExtAlgo>(sym_choice("algo", 2));
    const auto X = OCCUtilities::getShape(P3(100, 0, 0)), Y = OCCUtilities::getShape(P3(200, 0, 0));
    const TopoDS_Shape X0 = X, Y0 = Y;
    const Box<double> box(0,0,0,1,1,1);
    const Segment<double,3> seg(P3(0,0,0), P3(0,0,1));
    const Disk<double> disk(P3(1,2,3), D3(V3(1,0,0)), D3(V3(0,1,0)), 2, 2);
    const CylinderSurface<double> cyl(Circle<double,3>(P3(1,2,3), D3(V3(0,0,1)), 2), 5);
    const Quadrilateral<double,3> quad(P3(0,0,0), P3(6,0,0), P3(0,4,0), P3(3,4,0));
    const Polygon<double,3> poly(std::vector<P3>{P3(0,0,0), P3(6,0,0), P3(3,4,0)});
    const auto face = OCCUtilities::getShape(disk);
    const auto solid = OCCUtilities::getShape(Cylinder<double>(Circle<double,3>(P3(1,2,3), D3(V3(0,0,1)), 2), 5));
    const bool throws = sym_bool("fails");
    if (throws) refuse = 0;
    bool thrown = false;
    double d = 0;
    const long k = sym_choice("overload", 14);
    try
    {
        if (k == 0) d = computeDistance(X0, Y0, defl, flag, algo);
        if (k == 1) d = computeDistance(X0, box, defl, flag, algo);
        if (k == 2) d = computeDistance(box, Y0, defl, flag, algo);
        if (k == 3) d = computeDistance(seg, disk, defl, flag, algo);
        if (k == 4) d = computeDistanceToBoundary(seg, disk, defl, flag, algo);
        if (k == 5) d = computeDistanceToBoundary(X0, disk, defl, flag, algo);
        if (k == 6) d = computeDistanceToBoundary(seg, cyl, defl, flag, algo);
        if (k == 7) d = computeDistanceToBoundary(X0, quad, defl, flag, algo);
        if (k == 8) d = computeDistanceToBoundary(X0, poly, defl, flag, algo);
        if (k == 9) d = computeDistanceToBoundary(X0, face, defl, flag, algo);
        if (k == 10) d = computeDistanceToBoundary(seg, face, defl, flag, algo);
        if (k == 11) d = computeDistanceToBoundary(seg, solid, defl, flag, algo);
        if (k == 12) d = computeDistance(box, std::variant<Segment<double,3>, Disk<double>>(disk));
        if (k == 13) d = computeDistance(seg, std::vector<Disk<double>>{disk, disk});
    }
    catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown == throws, "a distance that cannot be computed is refused, any other is delivered");
    if (thrown) return;
    const int parts = k == 6 || k == 13 ? 2 : k == 7 ? 4 : k == 8 ? 3 : 1;
    sym_assert(n == parts, "every part of the boundary is considered once");
    bool one = false;
    for (int i = 0; i < n; ++i)
    {
        sym_le(d, values[i], 0, "the distance is the smallest one of the parts");
        if (d == values[i]) one = true;
        if (k < 12)
        {
            sym_near(calls[i].defl, defl, 0, "the deflection is passed on");
            sym_assert(calls[i].flag == int(flag) && calls[i].algo == int(algo), "flag and algorithm are passed on");
        }
    }
    sym_assert(one, "the distance is that of one of the parts");
    auto has = [&] (auto&& f) { for (int i = 0; i < n; ++i) if (f(calls[i].a) || f(calls[i].b)) return true; return false; };
    auto same = [&] (const TopoDS_Shape& s) { return has([&] (const TopoDS_Shape& x) { return x.IsSame(s); }); };
    if (k == 0 || k == 1 || k == 5 || (k >= 7 && k <= 9)) sym_assert(same(X0), "the given shape is measured");
    if (k == 0 || k == 2) sym_assert(same(Y0), "the given shape is measured");
    if (k == 1 || k == 2 || k == 12) sym_assert(has([] (const TopoDS_Shape& x) { return x.n->kind == occ::K_BOX; }), "the given geometry is measured");
    if (k == 3 || k == 4 || k == 6 || k == 10 || k == 11 || k == 13) sym_assert(has([&] (const TopoDS_Shape& x) { return isEdge(x, seg.source(), seg.target()); }), "the given geometry is measured");
    if (k == 3 || k == 12) sym_assert(has([] (const TopoDS_Shape& x) { return x.ShapeType() == TopAbs_FACE; }), "a disk is measured as a face");
    if (k == 4 || k == 5) sym_assert(has([&] (const TopoDS_Shape& x) { return x.ShapeType() == TopAbs_WIRE && isRim(x, disk.center(), 2); }), "the boundary of a disk is its rim");
    if (k == 6) sym_assert(has([&] (const TopoDS_Shape& x) { return isRim(x, P3(1,2,3), 2); }) && has([&] (const TopoDS_Shape& x) { return isRim(x, P3(1,2,8), 2); }), "the boundary of a cylinder surface consists of both rims");
    if (k == 7) for (int i = 0; i < 4; ++i) sym_assert(has([&] (const TopoDS_Shape& x) { return isEdge(x, quad.edge(i).source(), quad.edge(i).target()); }), "the boundary of a quadrilateral consists of its edges");
    if (k == 8) for (int i = 0; i < 3; ++i) sym_assert(has([&] (const TopoDS_Shape& x) { return isEdge(x, poly.edge(i).source(), poly.edge(i).target()); }), "the boundary of a polygon consists of its edges");
    if (k == 9 || k == 10) sym_assert(same(BRepTools::OuterWire(face)), "the boundary of a face is its outer wire");
    if (k == 11) sym_assert(same(BRepClass3d::OuterShell(solid)), "the boundary of a solid is its outer shell");
}
// boundaries that are not supported are refused
HARNESS(c07_refuse)
{
    const Segment<double,3> s(P3(0,0,0), P3(0,0,1));
    bool thrown = false;
    try { computeDistanceToBoundary(s, s); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "unsupported boundary distances are refused");
    thrown = false;
    try { pointOnGeometryBoundary(P3(0,0,0), Cylinder<double>(1.0, 1.0), 0.1); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "unsupported boundary queries are refused");
}
