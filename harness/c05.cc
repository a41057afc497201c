// C05: circles, ellipses, elliptical arcs, disks: parametrisation, angles, containment
#include "geo.hh"
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
using namespace Frackit;
using E3 = Ellipse<double,3>; using A3 = EllipseArc<double,3>; using C3 = Circle<double,3>; using K3 = Disk<double>;
static const double PI = 3.14159265358979323846;

struct EL { R3 o; Frame3 f; double a, b; };
static EL symEL(bool full = true)
{
    EL e; e.o = r3(symPoint("ox","oy","oz", 20)); e.f = full ? symFrame("f") : symFrameZ("f");
    e.b = sym_real("b", 0.1, 20); e.a = sym_real("a", 0.1, 20); sym_assume(e.a >= e.b);
    return e;
}
static E3 make(const EL& e) { return E3(pt(e.o), dir(e.f.u), dir(e.f.v), e.a, e.b); }
static R3 onEL(const EL& e, double c, double s) { return add(e.o, e.f.at(e.a*c, e.b*s, 0)); }

// closeness in the frame of the ellipse
static void nearL(const EL& e, R3 p, R3 q, double tol, const char* l)
{ const R3 d = sub(p, q); sym_near(dot(d, e.f.u), 0.0, tol, l); sym_near(dot(d, e.f.v), 0.0, tol, l); sym_near(dot(d, e.f.w), 0.0, tol, l); }

// ---------------------------------------------------------------- circle
HARNESS(c05_circle)
{
    const R3 o = r3(symPoint("ox","oy","oz", 20)); const Frame3 f = symFrame("f"); const double r = sym_real("r", 0.1, 20);
    const C3 c(pt(o), dir(f.w), r);
    near3(r3(c.center()), o, 1e-9, "circle centre"); near3(r3(c.normal()), f.w, 1e-9, "circle normal"); sym_near(c.radius(), r, 1e-9, "circle radius");
    const R3 u = r3(c.base1()), v = r3(c.base2());
    near3(cross(u, v), f.w, 1e-6, "circle basis is right-handed with the normal");
    sym_near(dot(u, u), 1.0, 1e-6, "circle basis vectors have unit length"); sym_near(dot(v, v), 1.0, 1e-6, "circle basis vectors have unit length");
    sym_near(dot(u, v), 0.0, 1e-6, "circle basis vectors are orthogonal");
    const double th = sym_angle("th", 0, 2*PI);
    near3(r3(c.getPointFromAngle(th)), add(o, add(mul(u, r*cos(th)), mul(v, r*sin(th)))), 1e-6, "circle point at an angle");
    const double q = sym_real("q", 0, 1);
    near3(r3(c.getPoint(q)), r3(c.getPointFromAngle(2.0*PI*q)), 1e-6, "circle parameter is the fraction of the full angle");
}
HARNESS(c05_circle_contains)
{
    const R3 o = r3(symPoint("ox","oy","oz", 20)); const double r = sym_real("r", 0.1, 20);
    const Frame3 f = symFrameZ("f");
    const C3 c(pt(o), dir(f.u), r);
    const double eps = sym_real("eps", 1e-6, 0.05);
    double d[2]; sym_unit2("d", d);
    const double rho = sym_real("rho", 0.0, 50), z = sym_real("z", -20, 20);
    const P3 p = pt(add(o, add(mul(f.u, z), add(mul(f.v, rho*d[0]), mul(f.w, rho*d[1])))));
    if (sym_force(z == 0.0))
    {
        if (sym_force(rho == r)) { sym_assert(c.contains(p, eps), "circle contains its points"); sym_assert(c.contains(p), "circle contains its points (default tolerance)"); return; }
        if (sym_force(rho - r < 0.99*eps && r - rho < 0.99*eps)) sym_assert(c.contains(p, eps), "circle contains points within the tolerance");
        if (sym_force(rho - r > 1.01*eps || r - rho > 1.01*eps)) sym_assert(!c.contains(p, eps), "circle excludes points off the curve");
        if (sym_force(rho - r > 1e-4 || r - rho > 1e-4)) sym_assert(!c.contains(p), "circle excludes points off the curve (default tolerance)");
    }
    else
    {
        if (sym_force(z > 1.01*eps || z < -1.01*eps)) sym_assert(!c.contains(p, eps), "circle excludes points off its plane");
        if (sym_force(z > 1e-4 || z < -1e-4)) sym_assert(!c.contains(p), "circle excludes points off its plane (default tolerance)");
    }
}

// ---------------------------------------------------------------- ellipse
HARNESS(c05_ellipse)
{
    const EL e = symEL(); const E3 E = make(e);
    near3(r3(E.center()), e.o, 0, "ellipse centre"); near3(r3(E.normal()), e.f.w, 1e-6, "ellipse normal is the cross product of its axes");
    near3(r3(E.majorAxis()), e.f.u, 1e-6, "ellipse major axis"); near3(r3(E.minorAxis()), e.f.v, 1e-6, "ellipse minor axis");
    sym_assert(E.majorAxisLength() == e.a && E.minorAxisLength() == e.b, "ellipse axis lengths");
    near3(r3(E.supportingPlane().normal()), e.f.w, 1e-6, "ellipse plane"); near3(r3(E.supportingPlane().supportingPoint()), e.o, 1e-6, "ellipse plane");
    const double th = sym_angle("th", 0, 2*PI);
    near3(r3(E.getPointFromAngle(th)), onEL(e, cos(th), sin(th)), 1e-6, "ellipse point at an angle");
    const double q = sym_real("q", 0, 1);
    near3(r3(E.getPoint(q)), r3(E.getPointFromAngle(2.0*PI*q)), 1e-6, "ellipse parameter is the fraction of the full angle");
}
HARNESS(c05_ellipse_contains)
{
    const EL e = symEL(); const E3 E = make(e);
    const double eps = sym_real("eps", 1e-6, 0.5);
    double d[2]; sym_unit2("d", d);
    const double k = sym_real("k", 0.0, 3.0), z = sym_real("z", -10, 10);
    const P3 p = pt(add(e.o, e.f.at(k*e.a*d[0], k*e.b*d[1], z)));
    if (sym_force(z == 0.0))
    {
        if (sym_force(k == 1.0)) { sym_assert(E.contains(p, eps), "ellipse contains its points"); sym_assert(E.contains(p), "ellipse contains its points (default tolerance)");
                                   sym_assert(E.contains(p, eps, false), "ellipse contains its points"); sym_assert(E.contains(p, false), "ellipse contains its points (default tolerance)"); return; }
        const double dev = k*k - 1.0;
        if (sym_force(dev > 1.01*eps || dev < -1.01*eps)) { sym_assert(!E.contains(p, eps), "ellipse excludes points off the curve"); sym_assert(!E.contains(p, eps, false), "ellipse excludes points off the curve"); }
        if (sym_force(dev > 1e-4 || dev < -1e-4)) sym_assert(!E.contains(p), "ellipse excludes points off the curve (default tolerance)");
    }
    else
    {
        if (sym_force(z > 1.01*eps || z < -1.01*eps)) sym_assert(!E.contains(p, eps), "ellipse excludes points off its plane");
        if (sym_force(z > 1e-4 || z < -1e-4)) sym_assert(!E.contains(p), "ellipse excludes points off its plane (default tolerance)");
    }
}
HARNESS(c05_angle)
{
    const EL e = symEL(); const E3 E = make(e);
    double d[2]; sym_unit2("d", d);
    const P3 p = pt(onEL(e, d[0], d[1]));
    const double t = E.getAngle(p);
    sym_assert(t >= 0.0 && t < 2*PI, "angles lie in [0,2pi)");
    nearL(e, r3(E.getPointFromAngle(t)), r3(p), 1e-4, "the point at the angle of a point is that point");
    sym_near(E.getAngle(p, false), t, 1e-9, "the angle does not depend on the containment check");
    sym_near(E.getParam(p)*2.0*PI, t, 1e-9, "parameters are fractions of the full angle");
    sym_near(E.getParam(p, false)*2.0*PI, t, 1e-9, "parameters are fractions of the full angle");
}
HARNESS(c05_angle_refuses)
{
    const EL e = symEL(); const E3 E = make(e);
    double d[2]; sym_unit2("d", d);
    const double k = sym_real("k", 0.0, 3.0); sym_assume(k > 1.001 || k < 0.999);
    const P3 p = pt(onEL(e, k*d[0], k*d[1]));
    bool t1 = false, t2 = false;
    try { E.getAngle(p); } catch (const std::runtime_error&) { t1 = true; }
    try { E.getParam(p); } catch (const std::runtime_error&) { t2 = true; }
    sym_assert(t1 && t2, "angles of points off the ellipse are refused");
}

// ---------------------------------------------------------------- arcs
// angle of (c,s) relative to (c0,s0), as a point of the unit circle
struct U2 { double c, s; };
static U2 rel(const double* d, const double* d0) { return {d[0]*d0[0]+d[1]*d0[1], d[1]*d0[0]-d[0]*d0[1]}; }
// is angle p (in [0,2pi)) < angle t (in [0,2pi)), decided without angles
static bool before(U2 p, U2 t)
{
    const bool up = sym_force(p.s > 0.0 || (p.s == 0.0 && p.c > 0.0));   // p in [0,pi)
    const bool ut = sym_force(t.s > 0.0 || (t.s == 0.0 && t.c > 0.0));
    if (up != ut) return up;
    return sym_force(p.c*t.s - p.s*t.c > 0.0);
}
HARNESS(c05_arc_contains)
{
    EL e; e.o = R3{0,0,0}; e.f = Frame3{{1,0,0},{0,1,0},{0,0,1}}; e.a = sym_real("a", 0.1, 20); e.b = sym_real("b", 0.1, 20); sym_assume(e.a >= e.b);
    double s[2], t[2], d[2]; sym_unit2("s", s); sym_unit2("t", t); sym_unit2("d", d);
    // keep clear of the axes, where angles snap to multiples of pi/2
    for (int i = 0; i < 2; ++i) { sym_assume(s[i]*s[i] > 1e-6); sym_assume(t[i]*t[i] > 1e-6); sym_assume(d[i]*d[i] > 1e-6); }
    const U2 rt = rel(t, s), rd = rel(d, s);
    sym_assume(rt.c < 0.9999);       // source and target differ
    const A3 arc(make(e), pt(onEL(e, s[0], s[1])), pt(onEL(e, t[0], t[1])));
    sym_assert(!arc.isFullEllipse(), "an arc with distinct ends is not a full ellipse");
    const P3 p = pt(onEL(e, d[0], d[1]));
    if (before(rd, rt))
    {
        sym_assert(arc.contains(p), "arc contains the points between source and target");
        sym_assert(arc.contains(p, 1e-9, false), "arc contains the points between source and target");
    }
    else if (sym_force(rd.c*rt.s - rd.s*rt.c != 0.0 || rd.c*rt.c + rd.s*rt.s < 0))   // p is not the target itself
        sym_assert(!arc.contains(p, 0.0, false), "arc excludes the points beyond its ends");
    else sym_assert(arc.contains(p), "arc contains its target");
}
// concrete ends (all octant combinations), arbitrary point, default tolerance
HARNESS(c05_arc_default)
{
    static const double C[8] = {0.96, 0.28, -0.28, -0.96, -0.96, -0.28, 0.28, 0.96}, S[8] = {0.28, 0.96, 0.96, 0.28, -0.28, -0.96, -0.96, -0.28};
    const long i = sym_choice("i", 8), j = sym_choice("j", 8); if (i == j) sym_skip();
    EL e; e.o = R3{1,2,3}; e.f = Frame3{{0,1,0},{0,0,1},{1,0,0}}; e.a = 3; e.b = 2;
    const double s[2] = {C[i], S[i]}, t[2] = {C[j], S[j]}; double d[2]; sym_unit2("d", d);
    const U2 rt = rel(t, s), rd = rel(d, s);
    const A3 arc(make(e), pt(onEL(e, s[0], s[1])), pt(onEL(e, t[0], t[1])));
    near3(r3(arc.source()), onEL(e, s[0], s[1]), 1e-9, "arc source"); near3(r3(arc.target()), onEL(e, t[0], t[1]), 1e-9, "arc target");
    const P3 p = pt(onEL(e, d[0], d[1]));
    const double m = 1e-3;
    const U2 pt_ = rel(d, t);
    if (sym_force((rd.c > 0 && rd.s < m && rd.s > -m) || (pt_.c > 0 && pt_.s < m && pt_.s > -m))) sym_skip();
    if (before(rd, rt)) sym_assert(arc.contains(p), "arc contains the points between source and target (default tolerance)");
    else { sym_assert(!arc.contains(p), "arc excludes the points beyond its ends (default tolerance)"); sym_assert(!arc.contains(p, 1e-6), "arc excludes the points beyond its ends (default tolerance)"); }
}
HARNESS(c05_arc_points)
{
    const EL e = symEL(false); const E3 E = make(e);
    double s[2], t[2]; sym_unit2("s", s); sym_unit2("t", t);
    sym_assume(s[0]*t[0]+s[1]*t[1] < 0.9999);
    const P3 S = pt(onEL(e, s[0], s[1])), T = pt(onEL(e, t[0], t[1]));
    const A3 arc(E, S, T);
    const double as = arc.sourceAngleOnEllipse(), at = arc.targetAngleOnEllipse();
    sym_near(as, E.getAngle(S), 1e-9, "source angle is the angle of the source"); sym_near(at, E.getAngle(T), 1e-9, "target angle is the angle of the target");
    nearL(e, r3(arc.getPoint(0.0)), r3(S), 1e-4, "arc starts at its source");
    nearL(e, r3(arc.getPoint(1.0)), r3(T), 1e-4, "arc ends at its target");
    const double q = sym_real("q", 0, 1);
    const double th = as + q*(sym_force(as < at) ? at - as : at - as + 2.0*PI);
    nearL(e, r3(arc.getPoint(q)), onEL(e, cos(th), sin(th)), 1e-4, "arc points run counter-clockwise from source to target");
    near3(r3(arc.supportingEllipse().center()), e.o, 0, "arc keeps its ellipse");
}
HARNESS(c05_arc_full)
{
    const EL e = symEL(false); const E3 E = make(e);
    double s[2], d[2]; sym_unit2("s", s); sym_unit2("d", d);
    const P3 S = pt(onEL(e, s[0], s[1])), p = pt(onEL(e, d[0], d[1]));
    const A3 arc(E, S, S);
    sym_assert(arc.isFullEllipse(), "coinciding ends describe the full ellipse");
    sym_assert(arc.contains(p), "the full ellipse contains all of its points");
    sym_assert(arc.contains(p, 1e-6), "the full ellipse contains all of its points");
    sym_assert(arc.contains(p, false), "the full ellipse contains all of its points");
    const double q = sym_real("q", 0, 1);
    const double th = arc.sourceAngleOnEllipse() + q*2.0*PI;
    nearL(e, r3(arc.getPoint(q)), onEL(e, cos(th), sin(th)), 1e-4, "points of the full ellipse run once around");
    nearL(e, r3(arc.getPoint(0.0)), r3(S), 1e-4, "the full ellipse starts at its source");
}
HARNESS(c05_arc_off)
{
    const EL e = symEL(false); const E3 E = make(e);
    double s[2], t[2], d[2]; sym_unit2("s", s); sym_unit2("t", t); sym_unit2("d", d);
    const long full = sym_choice("full", 2);
    if (!full) sym_assume(s[0]*t[0]+s[1]*t[1] < 0.9999);
    const P3 S = pt(onEL(e, s[0], s[1])), T = full ? S : pt(onEL(e, t[0], t[1]));
    const A3 arc(E, S, T);
    const double k = sym_real("k", 0.0, 3.0); sym_assume(k > 1.001 || k < 0.999);
    sym_assert(!arc.contains(pt(onEL(e, k*d[0], k*d[1]))), "arc excludes points off its ellipse");
    sym_assert(!arc.contains(pt(onEL(e, k*d[0], k*d[1])), 1e-6), "arc excludes points off its ellipse");
}

// ---------------------------------------------------------------- disk
HARNESS(c05_disk)
{
    const EL e = symEL();
    const K3 k(pt(e.o), dir(e.f.u), dir(e.f.v), e.a, e.b);
    const K3 k2(make(e));
    const auto E = k.boundingEllipse(), E2 = k2.boundingEllipse();
    near3(r3(E.center()), e.o, 0, "disk boundary centre"); near3(r3(E.majorAxis()), e.f.u, 1e-6, "disk boundary axes"); near3(r3(E.minorAxis()), e.f.v, 1e-6, "disk boundary axes");
    sym_assert(E.majorAxisLength() == e.a && E.minorAxisLength() == e.b, "disk boundary axis lengths");
    near3(r3(E2.center()), e.o, 0, "disk of an ellipse has that boundary"); near3(r3(E2.majorAxis()), e.f.u, 1e-6, "disk of an ellipse has that boundary"); near3(r3(E2.minorAxis()), e.f.v, 1e-6, "disk of an ellipse has that boundary");
    sym_assert(E2.majorAxisLength() == e.a && E2.minorAxisLength() == e.b, "disk of an ellipse has that boundary");
    sym_near(k.area(), PI*e.a*e.b, 1e-6, "disk area");
    const double q = sym_real("q", 0, 1), m = sym_real("m", 0, 1), th = 2.0*PI*q;
    near3(r3(k.getPoint(q, m)), add(e.o, e.f.at(m*e.a*cos(th), m*e.b*sin(th), 0)), 1e-5, "disk points lie between the centre and the boundary");
    sym_assert(k.contains(k.getPoint(q, m)), "disk contains the points of its parametrisation");
}
