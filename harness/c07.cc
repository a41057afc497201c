// C07: distances between geometries and to boundaries, points on boundaries
#include "geo.hh"
#include <memory>
#include <variant>
#include <frackit/geometry/box.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/precision/defaultepsilon.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using L3 = Line<double,3>;

HARNESS(c07_points)
{
    const P3 p = symPoint("px","py","pz"), q = symPoint("qx","qy","qz");
    const double d = computeDistance(p, q);
    sym_assert(d >= 0, "distances are not negative");
    sym_near(d*d, sq(sub(r3(q), r3(p))), 1e-9, "distance of two points");
    sym_near(d, computeDistance(q, p), 0, "distance of two points is symmetric");
    sym_near(computeDistance(p, p), 0, 0, "distance of a point to itself is zero");
    const P2 a(p.x(), p.y()), b(q.x(), q.y());
    const double e = computeDistance(a, b);
    sym_near(e*e, (p.x()-q.x())*(p.x()-q.x()) + (p.y()-q.y())*(p.y()-q.y()), 1e-9, "distance of two points (2d)");
}

// p = base + x*u + y*v + z*w in an arbitrary frame
HARNESS(c07_line)
{
    const Frame3 f = symFrame("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double x = sym_real("x",-50,50), y = sym_real("y",-50,50), z = sym_real("z",-50,50);
    const L3 l(o, dir(f.u));
    const P3 p = pt(add(r3(o), f.at(x, y, z)));
    const double d = computeDistance(p, l);
    sym_assert(d >= 0, "distances are not negative");
    sym_near(d*d, y*y + z*z, 1e-6, "distance of a point and a line is the orthogonal offset");
    sym_near(computeDistance(l, p), d, 0, "distance of a point and a line is symmetric");
}

static double segDist2(double x, double y, double z, double len)
{ const double c = x < 0 ? x : x > len ? x-len : 0.0; return c*c + y*y + z*z; }

HARNESS(c07_segment)
{
    const Frame3 f = symFrame("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double len = sym_real("len", 0.1, 50);
    const double x = sym_real("x",-80,80), y = sym_real("y",-50,50), z = sym_real("z",-50,50);
    sym_assume((x <= -1e-4 || x >= 0) && (x <= len || x >= len + 1e-4));     // the tolerance at the ends
    const S3 s(o, pt(add(r3(o), f.at(len,0,0))));
    const P3 p = pt(add(r3(o), f.at(x, y, z)));
    const double d = computeDistance(p, s);
    sym_assert(d >= 0, "distances are not negative");
    sym_near(d*d, segDist2(x, y, z, len), 1e-3, "distance of a point and a segment is the distance to its closest point");
    sym_near(computeDistance(s, p), d, 0, "distance of a point and a segment is symmetric");
}

// d is the smallest of n values, each decided on its own elsewhere
template<class F> static void smallest(double d, F&& f, int n, const char* label)
{
    bool one = false;
    for (int i = 0; i < n; ++i) { const double e = f(i); sym_le(d, e, 0, label); if (d == e) one = true; }
    sym_assert(one, label);
}
// the minimum over several geometries, also behind variants
HARNESS(c07_vector)
{
    const P3 p = symPoint("px","py","pz");
    std::vector<P3> v;
    const long n = sym_choice("n", 3) + 1;
    static const char* nm[3][3] = {{"ax","ay","az"},{"bx","by","bz"},{"cx","cy","cz"}};
    for (long i = 0; i < n; ++i) v.push_back(symPoint(nm[i][0], nm[i][1], nm[i][2]));
    smallest(computeDistance(p, v), [&] (int i) { return computeDistance(p, v[i]); }, int(n), "distance to several geometries is the smallest of the distances");
}
HARNESS(c07_variant)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double len = sym_real("len", 0.1, 50);
    const double x = sym_real("x",-80,80), y = sym_real("y",-50,50), z = sym_real("z",-50,50);
    const P3 p = pt(add(r3(o), f.at(x, y, z)));
    using V = std::variant<P3, S3, L3>;
    const S3 s(o, pt(add(r3(o), f.at(len,0,0))));
    std::vector<V> v;
    double m = 0;
    const long k = sym_choice("kind", 3);
    if (k == 0) { v.push_back(V(o)); m = x*x+y*y+z*z; }
    if (k == 1) { v.push_back(V(s)); m = segDist2(x,y,z,len); }
    if (k == 2) { v.push_back(V(L3(o, dir(f.u)))); m = y*y+z*z; }
    const double d = computeDistance(p, v[0]);
    sym_near(d*d, m, 1e-3, "distance to a variant is that to its content");
    if (sym_bool("more"))
    {
        const P3 q = symPoint("ax","ay","az");
        v.push_back(V(q));
        smallest(computeDistance(p, v), [&] (int i) { return i ? computeDistance(p, q) : d; }, 2, "distance to several geometries is the smallest of the distances");
    }
}

// -------- boundaries of planar polygons
struct Ring { double x[5], y[5]; int n; };
template<class T> static double ringDist2(const T& c, int n, double x, double y, double z)
{
    double m = 0;
    for (int i = 0; i < n; ++i)
    {
        const int j = (i+1)%n;
        const double ux = c.x[j]-c.x[i], uy = c.y[j]-c.y[i], l2 = ux*ux+uy*uy;
        const double vx = x-c.x[i], vy = y-c.y[i], t = ux*vx+uy*vy;
        double d;
        if (t <= 0) d = vx*vx+vy*vy;
        else if (t >= l2) d = (x-c.x[j])*(x-c.x[j]) + (y-c.y[j])*(y-c.y[j]);
        else d = vx*vx+vy*vy - t*t/l2;
        if (i == 0 || d < m) m = d;
    }
    return m + z*z;
}
// a trapezoid: base on the first axis, opposite side parallel to it
// (of fixed proportions in the quick tier)
static Ring trapezoid()
{
#ifndef THOROUGH
    return {{0, 6, 3, 0, 0}, {0, 0, 4, 4, 0}, 4};
#endif
    const double a = sym_real("a", 1, 20), h = sym_real("h", 1, 20), l = sym_real("l", 1, 20);
    return {{0, a, l, 0, 0}, {0, 0, h, h, 0}, 4};
}
HARNESS(c07_quad)
{
#ifdef THOROUGH
    const Frame3 f = symFrameZ("q");
#else
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
#endif
    const P3 o = symPoint("ox","oy","oz", 20);
    const Ring r = trapezoid();
    const double x = sym_real("x",-30,30), y = sym_real("y",-30,30), z = sym_real("z",-30,30);
    std::vector<P3> c;
    for (int i = 0; i < 4; ++i) c.push_back(pt(add(r3(o), f.at(r.x[i], r.y[i], 0))));
    const P3 p = pt(add(r3(o), f.at(x, y, z)));
    auto edge = [&] (int i) { return computeDistance(p, S3(c[i], c[(i+1)%4])); };
    if (sym_bool("polygon"))
        smallest(computeDistanceToBoundary(p, Polygon<double,3>(c)), edge, 4, "distance to the boundary of a polygon is that to its closest edge");
    else
        smallest(computeDistanceToBoundary(p, Quadrilateral<double,3>(c[0], c[1], c[3], c[2])), edge, 4, "distance to the boundary of a quadrilateral is that to its closest edge");
}
HARNESS(c07_polygon)
{
    // a pentagon: house shape
#ifdef THOROUGH
    const double a = sym_real("a", 1, 10), h = sym_real("h", 1, 10), t = sym_real("t", 1, 10);
#else
    const double a = 6, h = 3, t = 4;
#endif
    const Ring r{{0, a, a, 0.5*a, 0}, {0, 0, h, h+t, h}, 5};
    const P3 o = symPoint("ox","oy","oz", 20);
    const double x = sym_real("x",-30,30), y = sym_real("y",-30,30), z = sym_real("z",-30,30);
    std::vector<P3> c;
    for (int i = 0; i < 5; ++i) c.push_back(pt(add(r3(o), R3{r.x[i], r.y[i], 0})));
    const P3 p = pt(add(r3(o), R3{x, y, z}));
    auto edge = [&] (int i) { return computeDistance(p, S3(c[i], c[(i+1)%5])); };
    smallest(computeDistanceToBoundary(p, Polygon<double,3>(c)), edge, 5, "distance to the boundary of a polygon is that to its closest edge");
}
HARNESS(c07_box)
{
    const P3 o = symPoint("ox","oy","oz", 20);
    const double a = sym_real("a", 0.1, 20), b = sym_real("b", 0.1, 20), c = sym_real("c", 0.1, 20);
    const double x = sym_real("x",-30,30), y = sym_real("y",-30,30), z = sym_real("z",-30,30);
    const Box<double> box(o.x(), o.y(), o.z(), o.x()+a, o.y()+b, o.z()+c);
    const P3 p = pt(add(r3(o), R3{x, y, z}));
    const double d = computeDistanceToBoundary(p, box);
    sym_assert(d >= 0, "distances are not negative");
    const double u = x < 0 ? -x : x > a ? x-a : 0, v = y < 0 ? -y : y > b ? y-b : 0, w = z < 0 ? -z : z > c ? z-c : 0;
    if (sym_force(x >= 0 && x <= a && y >= 0 && y <= b && z >= 0 && z <= c))
    {
        double m = x;
        if (a-x < m) m = a-x; if (y < m) m = y; if (b-y < m) m = b-y; if (z < m) m = z; if (c-z < m) m = c-z;
        sym_near(d*d, m*m, 1e-5, "distance of an inner point to the surface of a box is that to the closest face");
    }
    else sym_near(d*d, u*u + v*v + w*w, 1e-5, "distance of an outer point to the surface of a box is that to the closest face");
}

// -------- circular rims
HARNESS(c07_disk)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double r = sym_real("r", 0.1, 20), rho = sym_real("rho", 0.001, 50), z = sym_real("z", -50, 50);
    double a[2]; sym_unit2("ang", a);
    const P3 p = pt(add(r3(o), f.at(rho*a[0], rho*a[1], z)));
    const Disk<double> disk(o, dir(f.u), dir(f.v), r, r);
    const double d = computeDistanceToBoundary(p, disk);
    sym_assert(d >= 0, "distances are not negative");
    sym_near(d*d, (rho-r)*(rho-r) + z*z, 1e-4, "distance to the boundary of a disk is that to its rim");
    const double e = computeDistanceToBoundary(OCCUtilities::getShape(p), disk);
    sym_near(e*e, (rho-r)*(rho-r) + z*z, 1e-4, "distance of a shape to the boundary of a disk is that to its rim");
}
HARNESS(c07_cylinder)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double r = sym_real("r", 0.1, 20), h = sym_real("h", 0.1, 20), rho = sym_real("rho", 0.001, 50), z = sym_real("z", -50, 50);
    double a[2]; sym_unit2("ang", a);
    const P3 p = pt(add(r3(o), f.at(rho*a[0], rho*a[1], z)));
    const CylinderSurface<double> s(Circle<double,3>(o, D3(V3(0,0,1)), r), h);
    const double d = computeDistanceToBoundary(p, s);
    const double dz = z < 0.5*h ? z : z-h;
    sym_near(d*d, (rho-r)*(rho-r) + dz*dz, 1e-4, "distance to the boundary of a cylinder surface is that to the closer rim");
}

// -------- points on boundaries
static bool clear2(double d2, double eps, bool& expect)
{
    if (d2 <= 0.98*eps*eps) { expect = true; return true; }
    if (d2 >= 1.02*eps*eps + 1e-9) { expect = false; return true; }
    return false;
}
HARNESS(c07_on_quad)
{
    const P3 o = symPoint("ox","oy","oz", 20);
    const Ring r = trapezoid();
    const double x = sym_real("x",-30,30), y = sym_real("y",-30,30), z = sym_real("z",-30,30), eps = sym_real("eps", 1e-2, 2);
    std::vector<P3> c;
    for (int i = 0; i < 4; ++i) c.push_back(pt(add(r3(o), R3{r.x[i], r.y[i], 0})));
    const P3 p = pt(add(r3(o), R3{x, y, z}));
    auto edge = [&] (int i) { return computeDistance(p, S3(c[i], c[(i+1)%4])); };
    const bool pl = sym_bool("polygon");
    if (sym_bool("on"))
    {
        sym_assume(edge(sym_choice("edge", 4)) < 0.999*eps);
        sym_assert(pl ? pointOnGeometryBoundary(p, Polygon<double,3>(c), eps) : pointOnGeometryBoundary(p, Quadrilateral<double,3>(c[0], c[1], c[3], c[2]), eps),
                   "a point within the tolerance of an edge is on the boundary");
    }
    else
    {
        for (int i = 0; i < 4; ++i) sym_assume(edge(i) > 1.001*eps);
        sym_assert(!(pl ? pointOnGeometryBoundary(p, Polygon<double,3>(c), eps) : pointOnGeometryBoundary(p, Quadrilateral<double,3>(c[0], c[1], c[3], c[2]), eps)),
                   "a point further from all edges than the tolerance is not on the boundary");
    }
}
// default tolerance: points of any edge are on the boundary, points clearly off are not
HARNESS(c07_on_quad_default)
{
    const P3 o = symPoint("ox","oy","oz", 20);
    const Ring r = trapezoid();
    std::vector<P3> c;
    for (int i = 0; i < 4; ++i) c.push_back(pt(add(r3(o), R3{r.x[i], r.y[i], 0})));
    const Quadrilateral<double,3> quad(c[0], c[1], c[3], c[2]);
    const Polygon<double,3> poly(c);
    const bool pl = sym_bool("polygon");
    if (sym_bool("on"))
    {
        const long e = sym_choice("edge", 4);
        const double t = sym_real("t", 0, 1);
        const P3 p = pt(add(r3(c[e]), mul(sub(r3(c[(e+1)%4]), r3(c[e])), t)));
        sym_assert(pl ? pointOnGeometryBoundary(p, poly) : pointOnGeometryBoundary(p, quad), "points of the edges are on the boundary (default tolerance)");
    }
    else
    {
        const double x = sym_real("x",-30,30), y = sym_real("y",-30,30), z = sym_real("z",-30,30);
        sym_assume(ringDist2(r, 4, x, y, z) > 1e-6);
        const P3 p = pt(add(r3(o), R3{x, y, z}));
        sym_assert(!(pl ? pointOnGeometryBoundary(p, poly) : pointOnGeometryBoundary(p, quad)), "points off the edges are not on the boundary (default tolerance)");
    }
}
HARNESS(c07_on_rim)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double r = sym_real("r", 0.5, 20), h = sym_real("h", 0.1, 20), rho = sym_real("rho", 0.001, 50), z = sym_real("z", -50, 50), eps = sym_real("eps", 1e-2, 2);
    double a[2]; sym_unit2("ang", a);
    const P3 p = pt(add(r3(o), f.at(rho*a[0], rho*a[1], z)));
    const long k = sym_choice("shape", 3);
    const double dz = k == 1 ? (z < 0.5*h ? z : z-h) : z;
    const double m = (rho-r)*(rho-r) + dz*dz;
    bool expect = false;
    if (sym_force(!clear2(m, eps, expect))) sym_skip();
    clear2(m, eps, expect);
    const Disk<double> disk(o, dir(f.u), dir(f.v), r, r);
    if (k == 0) sym_assert(pointOnGeometryBoundary(p, disk, eps) == expect, "a point is on the boundary of a disk exactly within the tolerance of its rim");
    if (k == 1) sym_assert(pointOnGeometryBoundary(p, CylinderSurface<double>(Circle<double,3>(o, D3(V3(0,0,1)), r), h), eps) == expect,
                           "a point is on the boundary of a cylinder surface exactly within the tolerance of a rim");
    if (k == 2) sym_assert(pointOnGeometryBoundary(p, OCCUtilities::getShape(disk), eps) == expect, "a point is on the boundary of a face exactly within the tolerance of its outer wire");
}
// default tolerance of rims, points exactly on them
HARNESS(c07_on_rim_default)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double r = sym_real("r", 0.5, 20), h = sym_real("h", 0.1, 20);
    double a[2]; sym_unit2("ang", a);
    const double off = sym_bool("off") ? sym_real("d", 1e-2, 1) : 0.0;
    const bool up = sym_bool("up");
    const P3 p = pt(add(r3(o), f.at((r+off)*a[0], (r+off)*a[1], up ? h : 0.0)));
    const P3 q = pt(add(r3(o), f.at((r+off)*a[0], (r+off)*a[1], 0.0)));
    const CylinderSurface<double> s(Circle<double,3>(o, D3(V3(0,0,1)), r), h);
    const Disk<double> disk(o, dir(f.u), dir(f.v), r, r);
    sym_assert(pointOnGeometryBoundary(p, s) == (off == 0.0), "points of both rims, and no others, are on the boundary of a cylinder surface (default tolerance)");
    if (!up) sym_assert(pointOnGeometryBoundary(q, disk) == (off == 0.0), "points of the rim, and no others, are on the boundary of a disk (default tolerance)");
}
