#ifndef VERIF_C04_HH
#define VERIF_C04_HH
// C04: triangles, quadrilaterals, polygons: area, centre, plane, convexity, containment
#include "geo.hh"
#include <vector>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
using namespace Frackit;
using T3 = Triangle<double,3>; using Q3 = Quadrilateral<double,3>; using G3 = Polygon<double,3>;

struct Pt2 { double x, y; };
static double orient(Pt2 a, Pt2 b, Pt2 c) { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x); }
static const char* NX[] = {"x0","x1","x2","x3","x4","x5"};
static const char* NY[] = {"y0","y1","y2","y3","y4","y5"};
// n points in strictly convex position, counter clockwise; the first one is the local origin
static void convex(Pt2* c, int n, double b = 10.0, double m = 0.05)
{
    c[0] = {0.0, 0.0};
    for (int i = 1; i < n; ++i) { c[i].x = sym_real(NX[i], -b, b); c[i].y = sym_real(NY[i], -b, b); }
    for (int i = 0; i < n; ++i) for (int j = i+1; j < n; ++j) for (int k = j+1; k < n; ++k)
        sym_assume(orient(c[i], c[j], c[k]) > m);
}
struct Place
{
    R3 o; Frame3 f;
    P3 operator()(Pt2 q, double z = 0) const { return pt(add(o, f.at(q.x, q.y, z))); }
};
static Place placed() { Place p; p.o = r3(symPoint("ox","oy","oz", 10)); p.f = symFrame("f"); return p; }
static Place placedSimple() { Place p; p.o = r3(symPoint("ox","oy","oz", 10)); Frame3 f = symFrameZ("f"); p.f = Frame3{f.w, f.u, f.v}; return p; }
static double area2(const Pt2* c, int n) { double s = 0; for (int i = 0; i < n; ++i) { const Pt2 a = c[i], b = c[(i+1)%n]; s += a.x*b.y - a.y*b.x; } return s; }

// containment against the sign pattern of the edge functions; eps <= 0 selects the default tolerance,
// which scales with the extent L of the shape
template<class G> static void contain(const G& g, const Place& pl, const Pt2* c, int n, const char* in, const char* out, double eps, double bound)
{
    const Pt2 q{sym_real("qx",-30,30), sym_real("qy",-30,30)};
    bool inside = true, outside = false;
    for (int i = 0; i < n; ++i)
    {
        const double s = orient(c[i], c[(i+1)%n], q);
        inside = inside && sym_force(s >= 0.0);
        if (!inside) { outside = sym_force(s < -bound); break; }
    }
    if (!inside && !outside) sym_skip();
    const P3 p = pl(q);
    const bool r1 = eps > 0 ? g.contains(p, eps) : g.contains(p), r2 = eps > 0 ? g.contains(p, eps, false) : g.contains(p, false);
    if (inside) { sym_assert(r1, in); sym_assert(r2, in); }
    else { sym_assert(!r1, out); sym_assert(!r2, out); }
}
template<class G> static void contain(const G& g, const Place& pl, const Pt2* c, int n, const char* in, const char* out)
{ const double eps = sym_real("eps", 1e-3, 0.5); contain(g, pl, c, n, in, out, eps, 1.01*eps*eps); }
template<class G> static void containDefault(const G& g, const Place& pl, const Pt2* c, int n, R3 diag, const char* in, const char* out)
{ contain(g, pl, c, n, in, out, 0.0, 1e-10*sq(diag)); }
template<class G> static void offPlane(const G& g, const Place& pl, R3 diag, const char* off, int mode = 0)
{
    const Pt2 q{sym_real("qx",-30,30), sym_real("qy",-30,30)};
    const double z = sym_real("z", -10, 10);
    if (mode == 1 || (mode == 0 && sym_bool("default")))
    { sym_assume(z*z > 1e-10*sq(diag)); sym_assert(!g.contains(pl(q, z)), off); }
    else
    {
        const double eps = sym_real("eps", 1e-3, 0.5);
        sym_assume(z > 1.01*eps || z < -1.01*eps);
        sym_assert(!g.contains(pl(q, z), eps), off);
    }
}
template<class G> static void common(const G& g, const Place& pl, const Pt2* c, int n, const char* la, const char* lc, const char* lp)
{
    const double A2 = area2(c, n);
    sym_near(g.area(), 0.5*A2, 1e-6, la);
    // centroid
    double sx = 0, sy = 0;
    for (int i = 0; i < n; ++i) { const Pt2 a = c[i], b = c[(i+1)%n]; const double w = a.x*b.y - a.y*b.x; sx += (a.x+b.x)*w; sy += (a.y+b.y)*w; }
    const R3 d = sub(r3(g.center()), pl.o);
    sym_near(dot(d, pl.f.u)*3.0*A2, sx, 1e-5, lc);
    sym_near(dot(d, pl.f.v)*3.0*A2, sy, 1e-5, lc);
    sym_near(dot(d, pl.f.w), 0.0, 1e-6, lc);
    const auto P = g.supportingPlane();
    for (int i = 0; i < n; ++i) sym_near(dot(sub(r3(pl(c[i])), r3(P.supportingPoint())), r3(P.normal())), 0.0, 1e-6, lp);
    near3(r3(P.normal()), pl.f.w, 1e-6, lp);
}

#endif
