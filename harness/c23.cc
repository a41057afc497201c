// C23: magnitudes of shapes and of the parts of geometries inside a domain; default tolerances
#include "geo.hh"
#include <memory>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/precision/defaultepsilon.hh>
using namespace Frackit;
using Shapes = std::vector<TopoDS_Shape>;
static const double PI = 3.14159265358979323846;
static TopoDS_Wire wire(const Shapes& e) { auto w = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); w.n->kids = e; return w; }
static TopoDS_Face face(double area) { auto f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_FACE); f.n->mass = area; f.n->hasMass = true; return f; }
static TopoDS_Shell shell(const Shapes& f) { auto s = occ::fresh<TopoDS_Shell>(TopAbs_SHELL, occ::K_SHELL); s.n->kids = f; return s; }
static const char* L[4] = {"m0", "m1", "m2", "m3"};
static TopoDS_Shape turned(const TopoDS_Shape& s, bool t) { return t ? s.Reversed() : s; }

// an edge of known length: a straight one or an arc, trimmed anywhere
static TopoDS_Edge edge(int i, double& length)
{
    length = sym_real(L[i], 0.01, 50);
    if (sym_bool("straight"))
    {
        static const double D[3][3] = {{1,0,0}, {0,0.6,0.8}, {-2.0/3,1.0/3,-2.0/3}};
        const double* d = D[i % 3]; const double x = sym_real("x", -50, 50), y = sym_real("y", -50, 50), z = sym_real("z", -50, 50);
        return occ::lineEdge(gp_Pnt(x, y, z), gp_Pnt(x + length*d[0], y + length*d[1], z + length*d[2]));
    }
    static const double TURN[3] = {0.5, 2.0, 6.0};
    const double t = TURN[sym_choice("turn", 3)], s = sym_real("start", 0, 3);
    const Handle(Geom_Curve) c = new Geom_Ellipse(gp_Elips(gp_Ax2(gp_Pnt(1,2,3), gp_Dir(0,0,1), gp_Dir(1,0,0)), length/t, length/t));
    return BRepBuilderAPI_MakeEdge(new Geom_TrimmedCurve(c, s, s+t));
}
HARNESS(c23_edges)
{
    const long n = 1 + sym_choice("n", 2); double sum = 0; Shapes e;
    for (long i = 0; i < n; ++i)
    {
        double l; const TopoDS_Edge k = TopoDS::Edge(turned(edge(int(i), l), sym_bool("reversed")));
        sym_near(computeLength(k), l, 1e-6, "length of an edge"); sym_near(computeMagnitude(k), l, 1e-6, "length of an edge");
        e.push_back(k); sum = sum + l;
    }
    const TopoDS_Wire w = wire(e);
    sym_near(computeLength(w), sum, 1e-6, "length of a wire"); sym_near(computeMagnitude(w), sum, 1e-6, "length of a wire");
}
HARNESS(c23_faces)
{
    const long n = 1 + sym_choice("n", 4); double sum = 0; Shapes f;
    for (long i = 0; i < n; ++i)
    {
        const double a = sym_real(L[i], 0.01, 50); const TopoDS_Face k = TopoDS::Face(turned(face(a), sym_bool("reversed")));
        sym_near(computeArea(k), a, 1e-9, "area of a face"); sym_near(computeMagnitude(k), a, 1e-9, "area of a face");
        sym_near(computeMagnitude(k, sym_real("eps", 1e-6, 1e-3), gp_Pnt(sym_real("x", -9, 9), 0, 0)), a, 1e-9, "area of a face");
        f.push_back(k); sum = sum + a;
    }
    const TopoDS_Shell s = shell(f);
    sym_near(computeArea(s), sum, 1e-9, "area of a shell"); sym_near(computeMagnitude(s), sum, 1e-9, "area of a shell");
    auto solid = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); solid.n->kids.push_back(s); solid.n->hasMass = true; solid.n->mass = sym_real("volume", 0.01, 50);
    sym_near(computeVolume(solid), solid.n->mass, 1e-9, "volume of a solid"); sym_near(computeMagnitude(solid), solid.n->mass, 1e-9, "volume of a solid");
}

// ---------------------------------------------------------------- magnitudes within a domain
static struct World { TopAbs_ShapeEnum geo; double tol; TopoDS_Shape domain, result; int calls; bool exact; } W;
static void answer(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{
    sym_assert(op == occ::COMMON && a.size() == 1 && t.size() == 1, "the part inside the domain is sought");
    const bool fwd = a[0].n->type == W.geo;
    const TopoDS_Shape &g = fwd ? a[0] : t[0], &d = fwd ? t[0] : a[0];
    sym_assert(g.n->type == W.geo && d.n->type == TopAbs_SOLID, "the geometry is intersected with the domain");
    if (!W.domain.IsNull()) sym_assert(d.IsSame(W.domain), "the geometry is intersected with the domain");
    sym_near(1e7*fuzzy, 1e7*W.tol, 1e-5, "the default tolerance of the domain is used");
    ++W.calls; r.shape = W.result;
}
static bool bounds(const TopoDS_Shape& s, double* b)
{
    if (W.domain.IsNull() || !s.IsSame(W.domain)) return false;
    for (int i = 0; i < 6; ++i) b[i] = 0; b[3] = W.tol*1e7; return true;
}
template<class Do> static void inDomain(Do&& run)
{
    occ::boolean = answer; occ::bounds = bounds; W.domain.Nullify(); W.calls = 0;
    const long kind = sym_choice("domain", 3);
    if (kind == 0)
    {
        const double a = sym_real("a", 1, 50);
        W.tol = 1e-7*3*a; run(Box<double>(0, 0, 0, a, 2*a, 2*a));
    }
    else if (kind == 1)
    {
        W.tol = 1e-7; run(Cylinder<double>(sym_real("r", 1, 50), sym_real("h", 1, 50)));
    }
    else
    {
        const auto s = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); W.domain = s;
        W.tol = 1e-7*sym_real("size", 1, 50); run(s);
    }
    sym_assert(W.calls == 1, "the geometry is intersected with the domain once");
}
// what remains, with things of a lower dimension that do not count
static void remains(Shapes all, bool lower)
{
    if (lower) all.insert(all.begin(), occ::vertex(gp_Pnt(0,0,0)));
    const long how = sym_choice("how", 3);
    if (how == 0 && all.size() == 1) W.result = all[0];
    else if (how == 1 && all.size() > 1) { const TopoDS_Shape first = all[0]; all.erase(all.begin()); W.result = occ::compound({first, occ::compound(all)}); }
    else W.result = occ::compound(all);
}
HARNESS(c23_contained_lines)
{
    const long n = sym_choice("n", 3); double sum = 0; Shapes e;
    for (long i = 0; i < n; ++i) { double l; e.push_back(edge(int(i), l)); sum = sum + l; }
    remains(e, sym_bool("touching"));
    const long kind = sym_choice("kind", 4);
    inDomain([&] (const auto& d)
    {
        double m;
        W.geo = kind == 0 || kind == 3 ? TopAbs_EDGE : TopAbs_WIRE;
        const P3 o(1, 2, 3), q(4, 2, 7);
        if (kind == 0) m = computeContainedMagnitude(Segment<double, 3>(o, q), d);
        else if (kind == 1) m = computeContainedMagnitude(Circle<double, 3>(o, D3(V3(0,0,1)), 2.0), d);
        else if (kind == 2) m = computeContainedMagnitude(wire({occ::lineEdge(gp_Pnt(0,0,0), gp_Pnt(1,0,0))}), d);
        else m = computeContainedMagnitude(occ::lineEdge(gp_Pnt(0,0,0), gp_Pnt(1,0,0)), d);
        sym_near(m, sum, 1e-6, "the length inside the domain");
    });
}
HARNESS(c23_contained_faces)
{
    const long n = sym_choice("n", 4); double sum = 0; Shapes f;
    for (long i = 0; i < n; ++i) { const double a = sym_real(L[i], 0.01, 50); f.push_back(face(a)); sum = sum + a; }
    const bool lower = sym_bool("touching");
    if (lower) f.push_back(occ::lineEdge(gp_Pnt(0,0,0), gp_Pnt(1,0,0)));
    remains(f, lower);
    const long kind = sym_choice("kind", 6);
    inDomain([&] (const auto& d)
    {
        double m; W.geo = TopAbs_FACE;
        const P3 o(1, 2, 3); const Disk<double> disk(o, D3(V3(1,0,0)), D3(V3(0,1,0)), 2.0, 1.0);
        const Quadrilateral<double, 3> quad(P3(0,0,0), P3(1,0,0), P3(0,1,0), P3(1,1,0));
        if (kind == 0) m = computeContainedMagnitude(disk, d);
        else if (kind == 1) m = computeContainedMagnitude(quad, d);
        else if (kind == 2) m = computeContainedMagnitude(Polygon<double, 3>(std::vector<P3>{P3(0,0,0), P3(1,0,0), P3(1,1,0), P3(0,2,0)}), d);
        else if (kind == 3) m = computeContainedMagnitude(face(7), d);
        else if (kind == 4) m = computeContainedMagnitude(std::shared_ptr<Geometry>(std::make_shared<Disk<double>>(disk)), d);
        else m = computeContainedMagnitude(std::shared_ptr<Geometry>(std::make_shared<Quadrilateral<double, 3>>(quad)), d);
        sym_near(m, sum, 1e-6, "the area inside the domain");
    });
}
HARNESS(c23_contained_points)
{
    const P3 p(sym_real("x", -9, 9), sym_real("y", -9, 9), sym_real("z", -9, 9));
    sym_assert(computeContainedMagnitude(p, Box<double>(-1, -1, -1, 1, 1, 1)) == 0.0, "points have no magnitude");
    sym_assert(computeMagnitude(p) == 0.0, "points have no magnitude");
}

// ---------------------------------------------------------------- default tolerances
static void tol(double eps, double size, const char* what) { sym_near(1e7*eps, size, 1e-5*1.0, what); }
HARNESS(c23_tolerance)
{
    const double a = sym_real("a", 0.01, 100), b = sym_real("b", 0.01, 100), x = sym_real("x", -100, 100), y = sym_real("y", -100, 100), z = sym_real("z", -100, 100);
    const P3 o(x, y, z); const D3 ex(V3(1,0,0)), ey(V3(0,1,0)), ez(V3(0,0,1));
    const double big = a > b ? a : b, small = a > b ? b : a;
    const long k = sym_choice("kind", 13);
    if (k == 0) tol(defaultEpsilon(Segment<double, 3>(o, P3(x + a, y + 2*a, z - 2*a))), 3*a, "a segment: its length");
    if (k == 1) tol(defaultEpsilon(Circle<double, 3>(o, ez, a)), a, "a circle: its radius");
    if (k == 2) tol(defaultEpsilon(Ellipse<double, 3>(o, ex, ey, big, small)), 0.5*(a + b), "an ellipse: the mean axis length");
    if (k == 3) tol(defaultEpsilon(Disk<double>(o, ey, ez, big, small)), 0.5*(a + b), "a disk: the mean axis length");
    if (k == 4) tol(defaultEpsilon(Quadrilateral<double, 3>(o, P3(x + a, y, z), P3(x, y + a, z), P3(x + a, y + a, z))), 0.5*a, "a quadrilateral: half the root of its area");
    if (k == 5) tol(defaultEpsilon(Polygon<double, 3>(std::vector<P3>{o, P3(x + 2*a, y, z), P3(x, y, z + a)})), 0.5*a, "a polygon: half the root of its area");
    if (k == 6) tol(defaultEpsilon(CylinderSurface<double>(Circle<double, 3>(o, ez, a), b)), 0.5*(a + b), "a cylinder surface: the mean of radius and height");
    if (k == 7) tol(defaultEpsilon(Box<double>(x, y, z, x + a, y + 2*a, z + 2*a)), 3*a, "a box: its diagonal");
    if (k == 8) tol(defaultEpsilon(Sphere<double>(o, a)), a, "a sphere: its radius");
    if (k == 9) { tol(defaultEpsilon(o), 1, "what has no size: the precision"); tol(defaultEpsilon(Line<double, 3>(o, ez)), 1, "what has no size: the precision"); tol(defaultEpsilon(Plane<double, 3>(o, ez)), 1, "what has no size: the precision"); }
    if (k == 10)
    {
        occ::bounds = bounds; const auto s = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); W.domain = s; W.tol = 1e-7*a;
        tol(defaultEpsilon(s), a, "a shape: the diagonal of its bounding box");
    }
    if (k == 11) tol(defaultEpsilon(Segment<double, 2>(Point<double, 2>(x, y), Point<double, 2>(x + 3*a, y + 4*a))), 5*a, "a segment: its length");
    if (k == 12) { tol(defaultEpsilon(Segment<double, 1>(Point<double, 1>(x), Point<double, 1>(x - a))), a, "a segment: its length"); sym_assert(Frackit::Precision<double>::confusion() == 1e-7, "the precision is that of OpenCascade"); }
}
