// C10: intersections of disks, quadrilaterals and polygons with lines and with each other
#include "geo.hh"
#include <variant>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/precision/defaultepsilon.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using L3 = Line<double,3>;
using K3 = Disk<double>;
using Q3 = Quadrilateral<double,3>;
using G3 = Polygon<double,3>;
template<class T, class V> static const T* alt(const V& v) { return std::get_if<T>(&v); }
template<class V> static bool isEmpty(const V& v) { return alt<EmptyIntersection<3>>(v) != nullptr; }

// the intersection must be the stretch lo..hi of the line through base along the unit vector d (nothing if lo > hi)
template<class V> static void expect(const V& r, R3 base, R3 d, R3 n1, R3 n2, double lo, double hi, double mg, const char* seg, const char* none)
{
    if (sym_force(hi - lo > mg))
    {
        const auto s = alt<S3>(r);
        sym_assert(s != nullptr, seg);
        if (!s) return;
        const R3 p = sub(r3(s->source()), base), q = sub(r3(s->target()), base);
        double u = dot(p, d), v = dot(q, d);
        if (u > v) { const double t = u; u = v; v = t; }
        sym_near(u, lo, 1e-3, seg); sym_near(v, hi, 1e-3, seg);
        sym_near(dot(p, n1), 0, 1e-3, seg); sym_near(dot(p, n2), 0, 1e-3, seg); sym_near(dot(q, n1), 0, 1e-3, seg); sym_near(dot(q, n2), 0, 1e-3, seg);
    }
    else if (sym_force(lo - hi > mg)) sym_assert(isEmpty(r), none);
}
template<class V> static void expectPoint(const V& r, R3 p, const char* label)
{
    const auto q = alt<P3>(r);
    sym_assert(q != nullptr, label);
    if (q) near3(r3(*q), p, 1e-3, label);
}
static Frame3 frame() { return symFrameX("q"); }
static R3 position() { return r3(symPoint("ox","oy","oz", 20)); }

// rings of a few shapes (convex, counter-clockwise), scaled
struct Shape { int n; double x[6], y[6]; };
static const Shape SH[4] = {{4, {-2,2,2,-2}, {-1,-1,1,1}}, {4, {-1,3,2,-2}, {-1,-1,2,1}}, {4, {0,2,0,-2}, {-1,0,3,0}}, {5, {-2,1,3,1,-2}, {-2,-2,0,2,1}}};
// the stretch of the horizontal line at height y inside a ring; touch: in one corner only
static void chord(const Shape& s, double k, double y, double& lo, double& hi, bool& none)
{
    lo = -1e6; hi = 1e6; none = false;
    for (int i = 0; i < s.n; ++i)
    {
        const int j = (i+1)%s.n;
        const double dx = s.x[j]-s.x[i], dy = s.y[j]-s.y[i];       // inside: dx*(y-yi) - dy*(x-xi) >= 0
        if (dy == 0.0) { if (dx*(y - k*s.y[i]) < 0) none = true; continue; }
        const double t = k*s.x[i] + dx*(y - k*s.y[i])/dy;
        if (dy > 0) { if (t < hi) hi = t; } else if (t > lo) lo = t;
    }
    if (none) { lo = 1; hi = 0; }
}
static Q3 quadOf(const Shape& s, double k, R3 o, const Frame3& f)
{
    auto c = [&] (int i) { return pt(add(o, f.at(k*s.x[i], k*s.y[i], 0))); };
    return Q3(c(0), c(1), c(3), c(2));
}
static G3 polyOf(const Shape& s, double k, R3 o, const Frame3& f)
{
    std::vector<P3> c;
    for (int i = 0; i < s.n; ++i) c.push_back(pt(add(o, f.at(k*s.x[i], k*s.y[i], 0))));
    return G3(c);
}

// ---------------------------------------------------------------- with lines
HARNESS(c10_disk_line)
{
    const Frame3 f = frame(); const R3 o = position();
    const double a = sym_real("a", 0.5, 20), b = sym_real("b", 0.5, 20); sym_assume(a >= b);
    const K3 disk(pt(o), dir(f.u), dir(f.v), a, b);
    const double y = sym_real("y", -25, 25), t = sym_real("t", -100, 100), eps = sym_real("eps", 1e-6, 1e-3), z = sym_bool("off") ? sym_real("z", -5, 5) : 0.0;
    const bool along = sym_bool("along");            // along the major or the minor axis
    const R3 d = along ? f.u : f.v, s = along ? f.at(t, y, z) : f.at(y, t, z);
    const L3 l(pt(add(o, s)), dir(d));
    const double h = along ? b : a, w = along ? a : b;
    if (sym_force(z != 0.0))
    {
        sym_assume(z > 1.01*eps || z < -1.01*eps);
        sym_assert(isEmpty(intersect(disk, l, eps)), "a line parallel to the plane of a disk but off it does not intersect");
        return;
    }
    if (sym_force(y == h)) { expectPoint(intersect(disk, l, eps), add(o, along ? f.at(0, h, 0) : f.at(h, 0, 0)), "a tangent touches a disk in one point"); return; }
    sym_assume(y < 0.99*h || y > 1.01*h); sym_assume(y > -0.99*h || y < -1.01*h);
    const auto r = sym_bool("swap") ? intersect(l, disk, eps) : intersect(disk, l, eps);
    if (sym_force(y > h || y < -h)) { sym_assert(isEmpty(r), "a line past a disk does not intersect"); return; }
    const double c = w*std::sqrt(1.0 - y*y/(h*h));
    expect(r, add(o, along ? f.at(0, y, 0) : f.at(y, 0, 0)), d, along ? f.v : f.u, f.w, -c, c, 1e-2, "a line in the plane of a disk cuts its chord out of it", "");
}
HARNESS(c10_disk_pierce)
{
    const Frame3 f = frame(); const R3 o = position();
    const double a = sym_real("a", 0.5, 20), b = sym_real("b", 0.5, 20); sym_assume(a >= b);
    const K3 disk(pt(o), dir(f.u), dir(f.v), a, b);
    const double x = sym_real("x", -25, 25), y = sym_real("y", -25, 25), t = sym_real("t", -100, 100), eps = sym_real("eps", 1e-6, 1e-3);
    double c[2]; sym_unit2("tilt", c); sym_assume(c[1] > 0.05 || c[1] < -0.05);
    const R3 d = f.at(c[0], 0, c[1]), h = f.at(x, y, 0);
    const L3 l(pt(add(o, add(h, mul(d, t)))), dir(d));
    const double e = x*x/(a*a) + y*y/(b*b);
    if (sym_force(e < 0.99)) expectPoint(intersect(disk, l, eps), add(o, h), "a line through a disk meets it in the point of its plane");
    else if (sym_force(e > 1.01)) sym_assert(isEmpty(intersect(disk, l, eps)), "a line past a disk does not intersect");
}
HARNESS(c10_quad_line)
{
    const Frame3 f = frame(); const R3 o = position();
    const Shape& s = SH[sym_choice("shape", 3)];
    const double k = sym_real("k", 0.5, 10), y = sym_real("y", -35, 35), t = sym_real("t", -100, 100), eps = sym_real("eps", 1e-6, 1e-3), z = sym_bool("off") ? sym_real("z", -5, 5) : 0.0;
    const Q3 q = quadOf(s, k, o, f);
    const L3 l(pt(add(o, f.at(t, y, z))), dir(f.u));
    if (sym_force(z != 0.0))
    {
        sym_assume(z > 1.01*eps || z < -1.01*eps);
        sym_assert(isEmpty(intersect(q, l, eps)), "a line parallel to the plane of a quadrilateral but off it does not intersect");
        return;
    }
    if (sym_bool("corner"))
    {
        // through the topmost corner, outside otherwise
        const Shape& u = SH[sym_choice("which", 2) + 1];
        const Q3 p = quadOf(u, k, o, f);
        const L3 m(pt(add(o, f.at(t, k*u.y[2], 0))), dir(f.u));
        expectPoint(intersect(p, m, eps), add(o, f.at(k*u.x[2], k*u.y[2], 0)), "a line through a corner touches a quadrilateral there");
        return;
    }
    for (int i = 0; i < s.n; ++i) sym_assume(y > k*s.y[i] + 1e-2 || y < k*s.y[i] - 1e-2);
    double lo, hi; bool none;
    chord(s, k, y, lo, hi, none);
    const auto r = sym_bool("swap") ? intersect(l, q, eps) : intersect(q, l, eps);
    expect(r, add(o, f.at(0, y, 0)), f.u, f.v, f.w, lo, hi, 1e-3, "a line in the plane of a quadrilateral cuts its chord out of it", "a line past a quadrilateral does not intersect");
}
HARNESS(c10_quad_pierce)
{
    const Frame3 f = frame(); const R3 o = position();
    const Shape& s = SH[sym_choice("shape", 3)];
    const double k = sym_real("k", 0.5, 10), x = sym_real("x", -35, 35), y = sym_real("y", -35, 35), t = sym_real("t", -100, 100), eps = sym_real("eps", 1e-6, 1e-5);
    double c[2]; sym_unit2("tilt", c); sym_assume(c[1] > 0.05 || c[1] < -0.05);
    const Q3 q = quadOf(s, k, o, f);
    const R3 d = f.at(c[0], 0, c[1]), h = f.at(x, y, 0);
    const L3 l(pt(add(o, add(h, mul(d, t)))), dir(d));
    bool in = true, out = false;
    for (int i = 0; i < 4; ++i)
    {
        const int j = (i+1)%4;
        const double g = (s.x[j]-s.x[i])*(y - k*s.y[i]) - (s.y[j]-s.y[i])*(x - k*s.x[i]);
        if (!sym_force(g > 0.05)) in = false;
        if (sym_force(g < -0.05)) out = true;
    }
    if (in) expectPoint(intersect(q, l, eps), add(o, h), "a line through a quadrilateral meets it in the point of its plane");
    else if (out) sym_assert(isEmpty(intersect(q, l, eps)), "a line past a quadrilateral does not intersect");
}
// ---------------------------------------------------------------- with each other
// two faces whose planes meet at an angle in the line through o along f.u: the first one has that line at the height y of its own
// coordinates, the second one at height v, shifted along by x
struct Cross { Frame3 f, g; R3 o, o1, o2; double y, v, x, eps; };
static Cross cross2(bool polygons, int angles, double v0, double v1, double v2)
{
    Cross c;
    bool turned = false;
#ifdef THOROUGH
    angles = 3;
#endif
    // along the axes: boxes around turned faces multiply the cases, and for ellipses bring in square roots that the solver cannot handle
#ifdef THOROUGH
    turned = polygons;
#endif
    c.f = turned ? frame() : sym_bool("axes") ? Frame3{{1,0,0},{0,1,0},{0,0,1}} : Frame3{{0,0,1},{1,0,0},{0,1,0}};
    c.o = position();
    static const double C[3] = {0.6, 0.0, -0.96}, S[3] = {0.8, 1.0, 0.28};
    const long k = sym_choice("angle", angles);
    c.g = Frame3{c.f.u, c.f.at(0, C[k], S[k]), c.f.at(0, -S[k], C[k])};
    // the height of the line on the first face is free (quick: one of four), that on the second one is one of three
    const double V[3] = {v0, v1, v2};
#ifdef THOROUGH
    c.y = sym_real("y", -12, 12);
#else
    static const double Y[4] = {0.5, -1, 2.5, 7};
    c.y = Y[sym_choice("y", 4)];
#endif
    c.v = V[sym_choice("v", 3)]; c.x = sym_real("x", -30, 30); c.eps = sym_real("eps", 1e-6, 1e-4);
    c.o1 = sub(c.o, c.f.at(0, c.y, 0)); c.o2 = add(sub(c.o, c.g.at(0, c.v, 0)), mul(c.f.u, c.x));
    return c;
}
static void clearOfCorners(const Shape& s, double k, double y) { for (int i = 0; i < s.n; ++i) sym_assume(y > k*s.y[i] + 1e-2 || y < k*s.y[i] - 1e-2); }
static const char* SEG = "crossing faces intersect in the common stretch of their chords";
static const char* NONE = "faces apart do not intersect";
template<class A, class B> static void pairwise(const A& a, const B& b, const Cross& c, double lo1, double hi1, double lo2, double hi2)
{
    const double lo = lo1 > lo2 + c.x ? lo1 : lo2 + c.x, hi = hi1 < hi2 + c.x ? hi1 : hi2 + c.x;
    sym_assume(hi - lo > 1e-2 || lo - hi > 1e-2);
    if (lo1 > hi1 || lo2 > hi2) { sym_assert(isEmpty(intersect(a, b, c.eps)), NONE); return; }
    expect(intersect(a, b, c.eps), c.o, c.f.u, c.f.v, c.f.w, lo, hi, 1e-2, SEG, NONE);
}
// the same situation, seen from the second face
static Cross seen(const Cross& c) { Cross e = c; e.x = -c.x; e.o = add(c.o, mul(c.f.u, c.x)); return e; }
HARNESS(c10_quad_quad)
{
    const Cross c = cross2(true, 2, 0.5, -1.2, 2.5);
    const Shape &s = SH[sym_choice("s1", 3)], &t = SH[0];
    const double k = 2;
    clearOfCorners(s, k, c.y);
    double l1, h1, l2, h2; bool n;
    chord(s, k, c.y, l1, h1, n); chord(t, k, c.v, l2, h2, n);
    const Q3 a = quadOf(s, k, c.o1, c.f), b = quadOf(t, k, c.o2, c.g);
    if (sym_bool("swap")) pairwise(b, a, seen(c), l2, h2, l1, h1); else pairwise(a, b, c, l1, h1, l2, h2);
}
HARNESS(c10_poly_poly)
{
    const Cross c = cross2(true, 2, 0.5, 3.2, 6.5);
    const Shape &s = SH[3], &t = SH[2];
    const double k = 2;
    clearOfCorners(s, k, c.y);
    double l1, h1, l2, h2; bool n;
    chord(s, k, c.y, l1, h1, n); chord(t, k, c.v, l2, h2, n);
    const G3 a = polyOf(s, k, c.o1, c.f), b = polyOf(t, k, c.o2, c.g);
    if (sym_bool("swap")) pairwise(b, a, seen(c), l2, h2, l1, h1); else pairwise(a, b, c, l1, h1, l2, h2);
}
// chord of a disk with half axes 2b and b at a height chosen such that its half length is rational
static void diskChord(double b, double y, double& lo, double& hi)
{
    hi = y == 0.0 ? 2*b : 5*y == 3*b ? 8*b/5 : 5*y == -4*b ? 6*b/5 : -1.0; lo = -hi;
}
HARNESS(c10_quad_disk)
{
    const double a = 5, b = 2.5;
    const Cross c = cross2(false, 2, 1.5, -2, 4);
    const Shape& s = SH[sym_choice("s1", 2)*2];
    const double k = 2;
    clearOfCorners(s, k, c.y);
    double l1, h1, l2, h2; bool n;
    chord(s, k, c.y, l1, h1, n); diskChord(b, c.v, l2, h2);
    const K3 d(pt(c.o2), dir(c.g.u), dir(c.g.v), a, b);
    if (sym_bool("swap")) pairwise(d, quadOf(s, k, c.o1, c.f), seen(c), l2, h2, l1, h1); else pairwise(quadOf(s, k, c.o1, c.f), d, c, l1, h1, l2, h2);
}
HARNESS(c10_poly_disk)
{
    const double a = 5, b = 2.5;
    const Cross c = cross2(false, 2, 1.5, -2, 4);
    const Shape& s = SH[3];
    const double k = 2;
    clearOfCorners(s, k, c.y);
    double l1, h1, l2, h2; bool n;
    chord(s, k, c.y, l1, h1, n); diskChord(b, c.v, l2, h2);
    const K3 d(pt(c.o2), dir(c.g.u), dir(c.g.v), a, b);
    if (sym_bool("swap")) pairwise(d, polyOf(s, k, c.o1, c.f), seen(c), l2, h2, l1, h1); else pairwise(polyOf(s, k, c.o1, c.f), d, c, l1, h1, l2, h2);
}
HARNESS(c10_disk_disk)
{
    const double a = 10, b = 5, a2 = 5, b2 = 2.5;
    Cross c = cross2(false, 2, 1.5, -2, 4);
    const double Y[3] = {0, 3, -7};
    const double y = Y[sym_choice("y1", 3)];
    c.o1 = sub(c.o, c.f.at(0, y, 0)); c.y = y;
    double l1, h1, l2, h2;
    diskChord(b, y, l1, h1); diskChord(b2, c.v, l2, h2);
    pairwise(K3(pt(c.o1), dir(c.f.u), dir(c.f.v), a, b), K3(pt(c.o2), dir(c.g.u), dir(c.g.v), a2, b2), c, l1, h1, l2, h2);
}
// one face touches the other: a corner in its interior, and chords that touch in one point
HARNESS(c10_touch)
{
    const R3 o = position(); const Frame3 f = frame();
    const Frame3 g{f.u, f.w, mul(f.v, -1.0)};
    const double k = 2, eps = sym_real("eps", 1e-6, 1e-4), x = sym_real("x", -10, 10), y = sym_real("y", -1.5, 1.5);
    const Shape &s = SH[0], &t = SH[2];
    const Q3 a = quadOf(s, k, sub(o, f.at(0, y, 0)), f);
    const long kind = sym_choice("kind", 3);
    if (kind == 0 || kind == 1)
    {
        // the lower corner of the second face on the first one
        const R3 o2 = add(o, add(mul(f.u, x), mul(g.v, k)));
        sym_assume(x < 3.9 || x > 4.1); sym_assume(x > -3.9 || x < -4.1);
        const bool hit = sym_force(x < 4 && x > -4);
        if (kind == 0)
        {
            const auto r = sym_bool("swap") ? intersect(quadOf(t, k, o2, g), a, eps) : intersect(a, quadOf(t, k, o2, g), eps);
            if (hit) expectPoint(r, add(o, mul(f.u, x)), "a face touched by a corner meets it there"); else sym_assert(isEmpty(r), NONE);
        }
        else
        {
            const auto r = intersect(polyOf(s, k, sub(o, f.at(0, y, 0)), f), polyOf(t, k, o2, g), eps);
            if (hit) expectPoint(r, add(o, mul(f.u, x)), "a face touched by a corner meets it there"); else sym_assert(isEmpty(r), NONE);
        }
    }
    else
    {
        // chords -4..4 and 4..12
        const Q3 b = quadOf(s, k, add(o, mul(f.u, 8)), g);
        expectPoint(intersect(a, b, eps), add(o, mul(f.u, 4)), "faces whose chords touch meet in that point");
    }
}
// parallel and coplanar faces, faces that are not convex
HARNESS(c10_refuse)
{
    const R3 o = position();
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
    const double z = sym_real("z", 0, 5), x = sym_real("x", -3, 3), eps = sym_real("eps", 1e-6, 1e-3);
    const long kind = sym_choice("kind", 5);
    const R3 o2 = add(o, R3{x, 0, z});
    bool thrown = false, empty = false;
    const K3 d1(pt(o), dir(f.u), dir(f.v), 2, 1), d2(pt(o2), dir(f.u), dir(f.v), 4, 3);
    const Q3 q1 = quadOf(SH[0], 2, o, f), q2 = quadOf(SH[1], 2, o2, f);
    const G3 p1 = polyOf(SH[3], 2, o, f), p2 = polyOf(SH[3], 1, o2, f);
    sym_assume(z == 0.0 || z > 1.01*eps + 1e-5);
    try
    {
        if (kind == 0) empty = isEmpty(intersect(d1, d2, eps));
        if (kind == 1) empty = isEmpty(intersect(q1, q2, eps));
        if (kind == 2) empty = isEmpty(intersect(p1, p2, eps));
        if (kind == 3) empty = isEmpty(intersect(q1, d2, eps));
        if (kind == 4) empty = isEmpty(intersect(d2, p1, eps));
    }
    catch (const std::runtime_error&) { thrown = true; }
    if (sym_force(z == 0.0)) sym_assert(thrown, "the two-dimensional intersection of coplanar faces is refused");
    else sym_assert(empty && !thrown, "parallel faces apart do not intersect");
    const G3 bad(std::vector<P3>{pt(o), pt(add(o, R3{4,0,0})), pt(add(o, R3{1,1,0})), pt(add(o, R3{0,4,0}))});
    thrown = false;
    const G3 cut = polyOf(SH[3], 2, o, Frame3{{1,0,0},{0,0,1},{0,-1,0}});
    try { if (sym_bool("first")) intersect(bad, cut, eps); else intersect(cut, bad, eps); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "polygons that are not convex are refused");
}
