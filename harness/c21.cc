// C21: the angle in which geometries intersect
#include "geo.hh"
#include <variant>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/intersection/intersectionangle.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using L3 = Line<double,3>;
using K3 = Disk<double>;
using Q3 = Quadrilateral<double,3>;
using G3 = Polygon<double,3>;
using T3 = Triangle<double,3>;
using C3 = Circle<double,3>;
using E3 = Ellipse<double,3>;
using A3 = EllipseArc<double,3>;
using CS = CylinderSurface<double>;
using PL = Plane<double,3>;
static const IntersectionAngle<double> engine;
// a is the acute angle between two planes whose unit normals enclose an angle of cosine c
static void is(double a, double c, const char* l)
{
    if (c < 0) c = -c;
    sym_le(0.0, a, 1e-9, "the angle is not negative");
    sym_le(a, 1.5707963267949, 1e-9, "the angle is an acute or right one");
    sym_near(std::cos(a), c, 1e-6, l);
}
// parallel planes: rounding does not matter
HARNESS(c21_parallel)
{
    static const double N[8][3] = {{0.87825558993052089,0.55677847107783962,0.43194102207233409}, {1,1,1}, {1,2,3}, {0.1,0.7,-0.3}, {-3,1,7}, {0.3,0.3,0.9}, {5,-4,1e-3}, {0.2,0.5,0.11}};
    const long k = sym_choice("normal", 8);
    const V3 n(N[k][0], N[k][1], N[k][2]);
    const double f = sym_bool("flip") ? -1.0 : 1.0;
    const PL a(P3(0,0,0), D3(n)), b(P3(1,2,3), D3(V3(f*N[k][0], f*N[k][1], f*N[k][2])));
    const double x = engine(a, b);
    sym_assert(x >= 0.0 && x < 1e-7, "parallel planes enclose no angle");
}
// planar geometries: two planes through a common line, opened by any angle
struct Wedge { R3 o, l, a, b; double c; };       // origin, common direction, second directions of both planes, cosine
static Wedge wedge(bool any = true)
{
    Wedge w; double t[2]; sym_unit2("opening", t);
    const Frame3 f = any && sym_bool("about x") ? symFrameX("f") : symFrameZ("f");
    w.o = r3(symPoint("ox","oy","oz", 20)); w.l = f.u; w.a = f.v; w.b = f.at(0, t[0], t[1]); w.c = t[0];
    return w;
}
// planes in any position
HARNESS(c21_planes)
{
    const Wedge w = wedge();
    const PL a(pt(w.o), dir(w.a)), b(symPoint("qx","qy","qz", 50), dir(w.b));
    is(engine(a, b), w.c, "planes intersect in the angle between their normals");
    is(engine(b, a), w.c, "planes intersect in the angle between their normals");
    is(engine(a, b, L3(pt(w.o), dir(w.l))), w.c, "planes intersect in the angle between their normals");
}
template<class F> static void planar(long k, const Wedge& w, R3 d, F&& go)
{
    auto at = [&] (double x, double y) { return pt(add(w.o, add(mul(w.l, x), mul(d, y)))); };
    if (k == 0) go(K3(pt(w.o), dir(w.l), dir(d), 2, 1));
    else if (k == 1) go(Q3(at(-2,-1), at(2,-1), at(-1,3), at(1,3)));
    else if (k == 2) go(G3(std::vector<P3>{at(-2,-1), at(2,-1), at(1,3), at(-1,3)}));
    else go(T3(at(-2,-1), at(2,-1), at(1,3)));
}
template<class F> static void withIntersection(const Wedge& w, F&& go)
{
    const long s = sym_choice("intersection", 4);
    const P3 p = pt(w.o); const S3 seg(p, pt(add(w.o, w.l)));
    using V = std::variant<P3, S3>;
    if (s == 0) go(p); else if (s == 1) go(seg);
    else if (s == 2) go(V(seg)); else go(std::vector<V>{V(p), V(seg)});
}
HARNESS(c21_planar)
{
    const Wedge w = wedge();
    const long i = sym_choice("first", 4), j = sym_choice("second", 4);
    planar(i, w, w.a, [&] (const auto& g) { planar(j, w, w.b, [&] (const auto& h) {
        withIntersection(w, [&] (const auto& x) { is(engine(g, h, x), w.c, "planar geometries intersect in the angle between their planes"); }); }); });
}
// cylinder surfaces: the angle with the tangent plane
struct Setup { Frame3 f; R3 o; double r, h; };
static CS surface(const Setup& s) { return CS(C3(pt(s.o), dir(s.f.w), s.r), s.h); }
static Frame3 axis()
{
    static const R3 E[3] = {{1,0,0},{0,1,0},{0,0,1}};
    const long k = sym_choice("axis", 3);
    return Frame3{E[(k+1)%3], E[(k+2)%3], E[k]};
}
static Setup setup() { Setup s; s.f = axis(); s.o = r3(symPoint("ox","oy","oz", 20)); s.r = sym_real("r", 0.5, 20); s.h = sym_real("h", 1, 50); return s; }
template<class A, class B, class X> static double both(const A& a, const B& b, const X& x)
{
    const double v = engine(a, b, x);
    sym_near(engine(b, a, x), v, 1e-9, "the order of the arguments does not matter");
    return v;
}
HARNESS(c21_cylinder)
{
    const Setup s = setup(); const CS cyl = surface(s);
    double q[2]; sym_unit2("where", q); const double z = sym_real("z", 0, 1)*s.h;
    const R3 r = s.f.at(q[0], q[1], 0), p = add(s.o, add(mul(r, s.r), mul(s.f.w, z)));
    // any plane through p: its normal is the radial direction tilted towards any tangent
    double t[2], g[2]; sym_unit2("tilt", t); sym_unit2("towards", g);
    const R3 m = add(mul(s.f.w, g[0]), mul(cross(s.f.w, r), g[1])), b1 = add(mul(r, -t[1]), mul(m, t[0])), b2 = cross(r, m);
    is(both(K3(pt(p), dir(b1), dir(b2), 2, 1), cyl, pt(p)), t[0], "disks and cylinder surfaces intersect in the angle with the tangent plane");
}
HARNESS(c21_cylinder_planar)
{
    const Setup s = setup(); const CS cyl = surface(s);
    double q[2]; sym_unit2("where", q); const double z = sym_real("z", 0.1, 0.9)*s.h;
    const R3 r = s.f.at(q[0], q[1], 0), p = add(s.o, add(mul(r, s.r), mul(s.f.w, z)));
    double t[2]; sym_unit2("tilt", t);
    const bool seg = sym_bool("segment");
    // an upright plane through p, or one tilted against the axis
    const R3 e = seg ? s.f.w : cross(s.f.w, r), d = seg ? add(mul(r, t[0]), mul(cross(s.f.w, r), t[1])) : add(mul(r, t[0]), mul(s.f.w, t[1]));
    const double c = t[1];                        // normal = e x d up to its sign: enclosed with r
    Wedge w; w.o = p; w.l = e;
    planar(sym_choice("kind", 4), w, d, [&] (const auto& g) {
        if (seg) { const S3 x(pt(p), pt(add(p, mul(s.f.w, 0.1*s.h)))); is(both(g, cyl, x), c, "planar geometries and cylinder surfaces intersect in the angle with the tangent plane"); }
        else is(both(g, cyl, pt(p)), c, "planar geometries and cylinder surfaces intersect in the angle with the tangent plane"); });
}
// sections that are ellipses: the smallest angle is that at the ends of the major axis
static const double C[3] = {0.8, 0.6, 0.96}, S[3] = {0.6, 0.8, 0.28};
static E3 section(const Setup& s, long k, R3& e1, R3& c)
{
    c = add(s.o, mul(s.f.w, 0.5*s.h)); e1 = s.f.at(C[k], 0, S[k]);
    return E3(pt(c), dir(e1), dir(s.f.v), s.r/C[k], s.r);
}
HARNESS(c21_ellipse)
{
    const Setup s = setup(); const CS cyl = surface(s); const long k = sym_choice("tilt", 3);
    R3 e1, c; const E3 e = section(s, k, e1, c);
    is(both(K3(e), cyl, e), S[k], "the smallest angle along the ellipse");
}
HARNESS(c21_arc)
{
    const Setup s = setup(); const CS cyl = surface(s); const long k = sym_choice("tilt", 3);
    R3 e1, c; const E3 e = section(s, k, e1, c);
    static const double X[8] = {1, 0.8, 0, -0.6, -1, -0.8, 0, 0.6}, Y[8] = {0, 0.6, 1, 0.8, 0, -0.6, -1, -0.8};
    const long i = sym_choice("source", 8), j = (i + 1 + sym_choice("target", 7)) % 8;
    auto at = [&] (long m) { return pt(add(c, add(mul(e1, X[m]*s.r/C[k]), mul(s.f.v, Y[m]*s.r)))); };
    const A3 arc(e, at(i), at(j));
    // positions passed: those between source and target in counter-clockwise order
    double largest = 0; for (long m = i; ; m = (m+1)%8) { const double v = X[m] < 0 ? -X[m] : X[m]; if (v > largest) largest = v; if (m == j) break; }
    const double xi = X[i] < 0 ? -X[i] : X[i], xj = X[j] < 0 ? -X[j] : X[j], ends = xi > xj ? xi : xj;
    const double a = both(K3(e), cyl, arc);
    const double co = std::cos(a);
    sym_le(0.0, a, 1e-9, "the angle is not negative"); sym_le(a, 1.5707963267949, 1e-9, "the angle is an acute or right one");
    sym_le(co, S[k]*largest, 1e-6, "the angle is not smaller than the smallest one along the arc");
    sym_le(S[k]*ends, co, 1e-6, "the angle is not larger than those at the ends of the arc");
    // the middle of the arc
    const double t0 = std::atan2(Y[i], X[i]); double t1 = std::atan2(Y[j], X[j]); if (t1 < t0) t1 += 2.0*M_PI;
    double mid = std::cos(0.5*(t0 + t1)); if (mid < 0) mid = -mid;
    sym_le(S[k]*mid, co, 1e-6, "the angle is not larger than that in the middle of the arc");
}
// several intersections: the smallest angle
HARNESS(c21_several)
{
    const Setup s = setup(); const CS cyl = surface(s);
    double q[2], t[2]; sym_unit2("one", q); sym_unit2("two", t);
    const double z = 0.5*s.h;
    const R3 r1 = s.f.at(q[0], q[1], 0), r2 = s.f.at(t[0], t[1], 0);
    const P3 p1 = pt(add(s.o, add(mul(r1, s.r), mul(s.f.w, z)))), p2 = pt(add(s.o, add(mul(r2, s.r), mul(s.f.w, z))));
    const K3 g(pt(add(s.o, mul(s.f.w, z))), dir(s.f.v), dir(s.f.w), 30, 20);           // normal along u
    using V = std::variant<S3, P3>;
    double c1 = q[0], c2 = t[0]; if (c1 < 0) c1 = -c1; if (c2 < 0) c2 = -c2;
    const double c = c1 > c2 ? c1 : c2;
    const long k = sym_choice("as", 3);
    if (k == 0) is(both(g, cyl, std::vector<P3>{p1, p2}), c, "the smallest of several angles");
    if (k == 1) is(both(g, cyl, std::vector<V>{V(p1), V(S3(p2, pt(add(r3(p2), mul(s.f.w, 0.1*s.h)))))}), c, "the smallest of several angles");
    if (k == 2) is(both(g, cyl, std::vector<V>{V(p1)}), c1, "a single intersection");
}
HARNESS(c21_refuse)
{
    const PL p(P3(0,0,0), D3(V3(0,0,1))); const K3 k(P3(0,0,0), D3(V3(1,0,0)), D3(V3(0,1,0)), 2, 1);
    const CS cyl(C3(P3(0,0,0), D3(V3(0,0,1)), 1), 2);
    auto refused = [&] (auto&& f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; };
    const long w = sym_choice("what", 4);
    bool r = false;
    if (w == 0) r = refused([&] { engine(k, k, EmptyIntersection<3>()); });
    if (w == 1) r = refused([&] { engine(cyl, cyl, P3(1,0,0)); });
    if (w == 2) r = refused([&] { engine(k, cyl, std::variant<P3, EmptyIntersection<3>>(EmptyIntersection<3>())); });
    if (w == 3) r = refused([&] { engine(S3(P3(0,0,0), P3(1,0,0)), k, P3(0,0,0)); });
    sym_assert(r, "angles that are not defined are refused");
}
