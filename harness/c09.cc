// C09: intersections of planes, lines and segments
#include "geo.hh"
#include <variant>
#include <frackit/geometry/sphere.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/precision/defaultepsilon.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using L3 = Line<double,3>;
using PL = Plane<double,3>;
template<class T, class V> static const T* alt(const V& v) { return std::get_if<T>(&v); }
template<class V> static bool isEmpty(const V& v) { return alt<EmptyIntersection<3>>(v) != nullptr; }
static double cl(double x) { return x < 0 ? -x : x; }

HARNESS(c09_planes)
{
#ifdef THOROUGH
    const Frame3 f = symFrame("q");
#else
    const Frame3 f = symFrameX("q");
#endif
    const P3 o = symPoint("ox","oy","oz", 20);
    double a[2]; sym_unit2("angle", a);
    const double x = sym_real("x",-20,20), y = sym_real("y",-20,20), z = sym_real("z",-20,20), eps = sym_real("eps", 1e-6, 1);
    const bool par = sym_bool("parallel");
    if (!par) sym_assume(a[1] > 1e-2 || a[1] < -1e-2);
    const bool opp = par && sym_bool("opposite");
    const PL p(o, dir(f.w));
    const P3 b = pt(add(r3(o), f.at(x, y, z)));
    const PL q(b, par ? dir(mul(f.w, opp ? -1.0 : 1.0)) : dir(f.at(a[1], 0, a[0])));
    const auto r = intersect(p, q, eps);
    if (par)
    {
        if (sym_force(z <= 0.999*eps && z >= -0.999*eps))
        {
            const auto pl = alt<PL>(r);
            sym_assert(pl != nullptr, "coinciding planes intersect in the plane");
            if (pl) { near3(r3(pl->supportingPoint()), r3(o), eps, "coinciding planes intersect in the plane"); near3(r3(pl->normal()), f.w, 1e-6, "coinciding planes intersect in the plane"); }
        }
        else if (sym_force(z > 1.001*eps || z < -1.001*eps)) sym_assert(isEmpty(r), "distinct parallel planes do not intersect");
        sym_assert(isEmptyIntersection(r) == isEmpty(r), "empty intersections are recognised");
        return;
    }
    const auto l = alt<L3>(r);
    sym_assert(l != nullptr, "planes that are not parallel intersect in a line");
    if (!l) return;
    sym_assert(!isEmptyIntersection(r), "empty intersections are recognised");
    const R3 s = sub(r3(l->supportingPoint()), r3(o)), d = r3(l->direction());
    const double tol = 1e-4;
    sym_near(dot(s, f.w), 0, tol, "the line of two planes lies in the first one");
    sym_near(dot(sub(s, f.at(x,y,z)), f.at(a[1], 0, a[0])), 0, tol, "the line of two planes lies in the second one");
    sym_near(dot(d, f.w), 0, tol, "the line of two planes runs along the first one");
    sym_near(dot(d, f.at(a[1], 0, a[0])), 0, tol, "the line of two planes runs along the second one");
}
HARNESS(c09_plane_line)
{
    const Frame3 f = symFrame("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    double a[2]; sym_unit2("angle", a);
    const double x = sym_real("x",-20,20), y = sym_real("y",-20,20), z = sym_real("z",-20,20), eps = sym_real("eps", 1e-6, 1);
    const bool par = sym_bool("parallel");
    if (!par) sym_assume(a[1] > 1e-2 || a[1] < -1e-2);
    const PL p(o, dir(f.w));
    const R3 s = f.at(x, y, z), d = par ? f.u : f.at(a[0], 0, a[1]);
    const L3 l(pt(add(r3(o), s)), dir(d));
    const auto r = sym_bool("swap") ? intersect(l, p, eps) : intersect(p, l, eps);
    if (par)
    {
        if (sym_force(z < 0.999*eps && z > -0.999*eps))
        {
            const auto m = alt<L3>(r);
            sym_assert(m != nullptr, "a line in the plane is its intersection");
            if (m) { near3(r3(m->supportingPoint()), r3(l.supportingPoint()), 0, "a line in the plane is its intersection"); near3(r3(m->direction()), r3(l.direction()), 0, "a line in the plane is its intersection"); }
        }
        else if (sym_force(z > 1.001*eps || z < -1.001*eps)) sym_assert(isEmpty(r), "a line parallel to the plane but off it does not intersect");
        return;
    }
    const auto q = alt<P3>(r);
    sym_assert(q != nullptr, "a line that is not parallel to a plane meets it in a point");
    if (!q) return;
    const R3 h = sub(r3(*q), r3(o));
    sym_near(dot(h, f.w), 0, 1e-4, "the intersection point lies in the plane");
    const R3 k = cross(sub(h, s), d);
    sym_near(dot(k, f.u), 0, 1e-3, "the intersection point lies on the line"); sym_near(dot(k, f.v), 0, 1e-3, "the intersection point lies on the line"); sym_near(dot(k, f.w), 0, 1e-3, "the intersection point lies on the line");
}
// two segments: the first along u, the second crossing its line at x (offset z), reaching from -m to n; s, t proportions of positions
HARNESS(c09_segments)
{
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
    const P3 o = symPoint("ox","oy","oz", 20);
    const double l = sym_real("len", 0.5, 20), x = sym_real("x", -30, 50), z = sym_real("z", -5, 5), m = sym_real("m", -20, 20), n = sym_real("n", 0.5, 40), eps = sym_real("eps", 1e-5, 1e-2);
    static const double C[4] = {0.0, 0.6, -0.28, -0.96}, S[4] = {1.0, 0.8, -0.96, 0.28};
    const long k = sym_choice("angle", 4);
    const R3 d = f.at(C[k], S[k], 0);
    const S3 s1(o, pt(add(r3(o), f.at(l, 0, 0))));
    const R3 c = f.at(x, 0, z);
    const S3 s2(pt(add(r3(o), sub(c, mul(d, m)))), pt(add(r3(o), add(c, mul(d, n-m)))));
    const double mg = 5.0*eps;
    if (sym_bool("meet"))
    {
        // clear crossing, or an end of one segment inside the other, or common ends
        sym_assume(z == 0.0);
        const long kind = sym_choice("kind", 4);
        if (kind == 0) sym_assume(x > mg && x < l-mg && m > mg && m < n-mg);
        if (kind == 1) { sym_assume(m == 0.0); sym_assume(x > mg && x < l-mg); }
        if (kind == 2) { sym_assume(x == 0.0); sym_assume(m > mg && m < n-mg); }
        if (kind == 3) { sym_assume(x == 0.0); sym_assume(m == 0.0); }
        const auto r = sym_bool("swap") ? intersect(s2, s1, eps) : intersect(s1, s2, eps);
        const auto p = alt<P3>(r);
        sym_assert(p != nullptr, "segments that cross meet in a point");
        if (p) near3(sub(r3(*p), r3(o)), c, 1.01*eps, "the meeting point lies on both segments");
    }
    else
    {
        sym_assume(z > mg || z < -mg || x < -mg || x > l+mg || m < -mg || m > n+mg);
        // no common end within the tolerance: distance along the first line or beyond
        const auto r = intersect(s1, s2, eps);
        const double near = 1.1*eps;
        bool corners = false;
        const P3 *A[2] = {&s1.source(), &s1.target()}, *B[2] = {&s2.source(), &s2.target()};
        for (auto a : A) for (auto b : B) if (sq(sub(r3(*a), r3(*b))) < near*near) corners = true;
        sym_assert(corners || isEmpty(r), "segments apart do not intersect");
    }
}
HARNESS(c09_collinear)
{
    const Frame3 f = symFrameZ("q");
    const P3 o = symPoint("ox","oy","oz", 20);
    const double l = sym_real("len", 0.5, 20), a = sym_real("a", -30, 30), b = sym_real("b", 0.5, 20), z = sym_real("z", -1, 1), eps = sym_real("eps", 1e-5, 1e-2);
    const bool rev = sym_bool("reverse");
    const double lo = a, hi = a + b, mg = 1.1*eps;
    const S3 s1(o, pt(add(r3(o), f.at(l, 0, 0))));
    const P3 p = pt(add(r3(o), f.at(lo, 0, z))), q = pt(add(r3(o), f.at(hi, 0, z)));
    const S3 s2 = rev ? S3(q, p) : S3(p, q);
    if (sym_force(z != 0.0))
    {
        sym_assume(z > mg || z < -mg);
        sym_assert(isEmpty(intersect(s1, s2, eps)), "parallel segments apart do not intersect");
        return;
    }
    const auto r = intersect(s1, s2, eps);
    const double c = lo > 0 ? lo : 0, d = hi < l ? hi : l;        // the overlap
    if (sym_force(d - c > 2*mg))
    {
        const auto s = alt<S3>(r);
        sym_assert(s != nullptr, "overlapping segments intersect in a segment");
        if (!s) return;
        double u = dot(sub(r3(s->source()), r3(o)), f.u), v = dot(sub(r3(s->target()), r3(o)), f.u);
        if (u > v) { const double t = u; u = v; v = t; }
        sym_near(u, c, mg, "the intersection of overlapping segments is the overlap"); sym_near(v, d, mg, "the intersection of overlapping segments is the overlap");
        near3(cross(sub(r3(s->source()), r3(o)), f.u), R3{0,0,0}, 1e-4, "the intersection of overlapping segments is the overlap");
    }
    else if (sym_force(c - d > 2*mg)) sym_assert(isEmpty(r), "segments of one line that do not overlap do not intersect");
    else if (sym_force(c == d))
    {
        const auto t = alt<P3>(r);
        sym_assert(t != nullptr, "segments of one line that touch meet in their common end");
        if (t) { sym_near(dot(sub(r3(*t), r3(o)), f.u), c, mg, "segments of one line that touch meet in their common end"); }
    }
}
// the default tolerance is the smaller one of both
HARNESS(c09_default)
{
    const P3 o = symPoint("ox","oy","oz", 20);
    const double z = sym_real("z", 0, 1e-3), l = sym_real("l", 0.5, 20), m = sym_real("m", 0.5, 20);
    const PL p(o, D3(V3(0.0,0.0,1.0))), q(pt(add(r3(o), R3{1,2,z})), D3(V3(0.0,0.0,1.0)));
    const double e = defaultEpsilon(p), g = defaultEpsilon(q);
    const bool same = alt<PL>(intersect(p, q)) != nullptr;
    const double t = e < g ? e : g;
    if (sym_force(z < 0.99*t)) sym_assert(same, "planes closer than the default tolerance coincide");
    else if (sym_force(z > 1.01*t)) sym_assert(!same, "planes further apart than the default tolerance are distinct");
    const S3 s1(o, pt(add(r3(o), R3{l,0,0}))), s2(pt(add(r3(o), R3{0,0,z})), pt(add(r3(o), R3{m,0,z})));
    const double es = 1e-7*(l < m ? l : m);
    if (sym_force(z < 0.9*es)) sym_assert(!isEmpty(intersect(s1, s2)), "parallel segments closer than the default tolerance overlap");
    else if (sym_force(z > 1.1*es + 1e-6)) sym_assert(isEmpty(intersect(s1, s2)), "parallel segments further apart than the default tolerance do not intersect");
}
// pairs without an algorithm are refused
HARNESS(c09_refuse)
{
    const Sphere<double> s(P3(0,0,0), 1.0), t(P3(0,0,1), 1.0);
    int thrown = 0;
    try { intersect(s, t); } catch (const std::runtime_error&) { ++thrown; }
    try { intersect(s, t, 1e-3); } catch (const std::runtime_error&) { ++thrown; }
    try { intersect(Box<double>(0,0,0,1,1,1), s); } catch (const std::runtime_error&) { ++thrown; }
    try { intersect(L3(P3(0,0,0), D3(V3(1.0,0.0,0.0))), Box<double>(0,0,0,1,1,1), 1e-3); } catch (const std::runtime_error&) { ++thrown; }
    sym_assert(thrown == 4, "pairs of geometries without an intersection algorithm are refused");
}
