// C13: constraints between entities
#include "geo.hh"
#include <variant>
#include <memory>
#include <algorithm>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/occ/breputilities.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/disk.hh>
using S3 = Frackit::Segment<double,3>;
using E3 = Frackit::Ellipse<double,3>;
using A3 = Frackit::EllipseArc<double,3>;

// Entities with an arbitrary intersection, distance and boundary.  The boundary of entity k is the plane x = bnd[k].
namespace H {
using Part = std::variant<P3, S3, A3, E3, TopoDS_Edge, TopoDS_Face, Frackit::EmptyIntersection<3>>;
template<int d> struct Ent { int k = 0; static constexpr int myDimension() { return d; } static constexpr int worldDimension() { return 3; } using ctype = double; std::string name() const { return "entity"; } };
static std::vector<Part> parts;
static double bnd[2], ellipseDist[2], between[6][6], angle, givenEps;
static bool useEps; static int nIs, nDist, nAngle;
static const double tol = 1e-3;
template<int d> std::vector<Part> intersect(const Ent<d>& a, const Ent<d>& b)
{ ++nIs; sym_assert(!useEps, "a tolerance that was set is used"); return parts; }
template<int d> std::vector<Part> intersect(const Ent<d>& a, const Ent<d>& b, double eps)
{ ++nIs; sym_assert(useEps && eps == givenEps, "the tolerance that was set is used, the default one otherwise"); return parts; }
template<int d> double computeDistance(const Ent<d>& a, const Ent<d>& b) { ++nDist; return between[a.k][b.k]; }
static double off(double x, int k) { const double d = x - bnd[k]; return d < 0 ? -d : d; }
template<int d> double computeDistanceToBoundary(const P3& p, const Ent<d>& e) { return off(p.x(), e.k); }
template<int d> double computeDistanceToBoundary(const E3& p, const Ent<d>& e) { return ellipseDist[e.k]; }
template<int d> bool pointOnGeometryBoundary(const P3& p, const Ent<d>& e) { return off(p.x(), e.k) < tol; }
template<int d> bool pointOnGeometryBoundary(const P3& p, const Ent<d>& e, double eps) { return off(p.x(), e.k) < eps; }
struct Angle
{
    template<class A, class B, class I> double operator()(const A& a, const B& b, const I& is) const
    { ++nAngle; sym_assert(is.size() == parts.size(), "the angle is that of the intersection found"); return angle; }
};
}
#include <frackit/entitynetwork/constraints.hh>
using namespace Frackit;
using C = EntityNetworkConstraints<double, H::Angle>;

// one part of the intersection, and what the statement says about it
struct Expect { int dim; double mag; bool near[2]; bool refused; };
static void away(double a, double b, double t = 1e-6) { sym_assume((a > b + t) | (a < b - t)); }
static double far(double x, int k) { return H::off(x, k); }
// admissible end of a part: on the boundary or not closer than the threshold
static bool endOk(double x, int k, double thr) { away(far(x, k), H::tol); away(far(x, k), thr); return far(x, k) < H::tol || far(x, k) >= thr; }
static Expect addPart(long kind, double thr, const char* n1, const char* n2, bool dist = true)
{
    Expect e{0, 0, {true, true}, false};
    if (kind == 0)
    {
        const double x = sym_real(n1, -10, 10);
        H::parts.push_back(P3(x, 1, 2));
        if (dist) for (int k = 0; k < 2; ++k) e.near[k] = endOk(x, k, thr);
    }
    else if (kind == 1 || kind == 4)
    {
        // along x, or of free length at one distance
        const bool along = dist && sym_bool("along");
        const double x = sym_real(n1, -10, 10), l = sym_real(n2, 0.1, 5), y = along ? x + l : x;
        const P3 a(x, 0, 1), b = along ? P3(y, 0, 1) : P3(x, l, 1);
        if (kind == 1) H::parts.push_back(S3(a, b));
        else H::parts.push_back(OCCUtilities::getShape(S3(a, b)));
        e.dim = 1; e.mag = l;
        if (dist) for (int k = 0; k < 2; ++k) { e.near[k] = endOk(x, k, thr); if (along && e.near[k]) e.near[k] = endOk(y, k, thr); }
    }
    else if (kind == 2)
    {
        // a half circle of radius 4 around (sx,0,0), from (sx+4,..) to (sx-4,..)
        const double s = sym_real(n1, -10, 10);
        const E3 c(P3(s, 0, 0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 4, 4);
        const P3 a(s + 4, 0, 0), b(s - 4, 0, 0);
        H::parts.push_back(A3(c, a, b));
        e.dim = 1; e.mag = 4*M_PI;
        for (int k = 0; k < 2; ++k)
        {
            const double x[5] = {s + 4, s + 4*std::sqrt(0.5), s, s - 4*std::sqrt(0.5), s - 4};
            bool on[2];
            for (int i = 0; i < 5; ++i) away(far(x[i], k), thr);
            for (int i = 0; i < 2; ++i) { away(far(x[4*i], k), H::tol); on[i] = far(x[4*i], k) < H::tol; }
            bool ok = true;
            if (on[0] || on[1]) { for (int i = 0; i < 2; ++i) if (!on[i] && far(x[4*i], k) < thr) ok = false; }
            else for (int i = 0; i < 5; ++i) if (far(x[i], k) < thr) ok = false;
            e.near[k] = ok;
        }
    }
    else if (kind == 3)
    {
        H::parts.push_back(E3(P3(0, 0, 0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 4, 4));
        e.dim = 1; e.mag = 8*M_PI;
        for (int k = 0; k < 2; ++k) { away(H::ellipseDist[k], thr); e.near[k] = H::ellipseDist[k] >= thr; }
    }
    else if (kind == 5)
    {
        const Quadrilateral<double,3> q(P3(0,0,0), P3(4,0,0), P3(0,3,0), P3(4,3,0));
        TopoDS_Face f = OCCUtilities::getShape(q);
#ifdef OCCFAKE_HXX
        f.n->mass = 12; f.n->hasMass = true;
#endif
        H::parts.push_back(f);
        e.dim = 2; e.mag = 12; e.refused = true;
    }
    else H::parts.push_back(EmptyIntersection<3>());
    return e;
}
static void world()
{
    H::parts.clear(); H::nIs = H::nDist = H::nAngle = 0;
    H::bnd[0] = sym_real("b0", -12, 12); H::bnd[1] = sym_real("b1", -12, 12);
    H::ellipseDist[0] = sym_real("e0", 0, 10); H::ellipseDist[1] = sym_real("e1", 0, 10);
    H::angle = sym_real("angle", 0, 1.6);
    H::between[0][1] = H::between[1][0] = sym_real("between", 0, 10);
    H::useEps = false;
}
template<int d> static int ask(const C& c)
{
    H::Ent<d> a, b; a.k = 0; b.k = 1;
    try { return c.evaluate(a, b) ? 1 : 0; } catch (const std::runtime_error&) { return 2; }
}
struct Given { bool dist, angle, mag, isDist, equi; double d, a, m, i; };
static int expected(const Given& g, const std::vector<Expect>& e, const std::vector<bool>& empty, int dim)
{
    if (!g.dist && !g.angle && !g.mag && !g.isDist) return 1;
    bool none = true;
    for (bool x : empty) none = none && x;
    if (none)
    {
        if (!g.dist) return 1;
        away(H::between[0][1], g.d);
        return H::between[0][1] >= g.d;
    }
    bool ok = true;
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        if (empty[i]) continue;
        if (!g.equi && e[i].dim >= dim) ok = false;
        if (g.mag && e[i].dim > 0) { away(e[i].mag, g.m); if (e[i].mag < g.m) ok = false; }
    }
    if (g.angle) { away(H::angle, g.a); if (H::angle < g.a) ok = false; }
    if (!ok) return 0;
    if (g.isDist)
    {
        bool near = true, refused = false;
        for (std::size_t i = 0; i < e.size(); ++i)
        {
            if (empty[i]) continue;
            if (e[i].refused) refused = true;
            else if (!e[i].near[0] || !e[i].near[1]) near = false;
        }
        if (refused) return near ? 2 : 3;      // 3: refused or rejected, whichever comes first
        return near;
    }
    return 1;
}
static void compare(int got, int want)
{
    if (want == 3) sym_assert(got != 1, "an intersection that violates a constraint is not admissible");
    else if (want == 2) sym_assert(got == 2, "boundary distances of faces are refused");
    else sym_assert(got == want, want ? "entities that fulfil all constraints are admissible" : "entities that violate a constraint are not admissible");
}
static Given active(C& c, bool equi)
{
    Given g;
    g.d = sym_real("minDist", 0.1, 9); g.a = sym_real("minAngle", 0.1, 1.5); g.m = sym_real("minMag", 0.1, 30); g.i = sym_real("minIsDist", 0.01, 5);
    g.dist = sym_bool("dist"); g.angle = sym_bool("useAngle"); g.mag = sym_bool("mag"); g.isDist = sym_bool("isDist");
    if (g.dist) c.setMinDistance(g.d);
    if (g.angle) c.setMinIntersectingAngle(g.a);
    if (g.mag) c.setMinIntersectionMagnitude(g.m);
    if (g.isDist) c.setMinIntersectionDistance(g.i);
    g.equi = equi; if (g.equi) c.allowEquiDimensionalIntersections(true);
    return g;
}
// every combination of constraints with one part
HARNESS(c13_single)
{
    world();
    static const int K[6] = {0,1,3,4,5,6};
    const long kind = K[sym_choice("kind", 6)];
    // surfaces, surfaces that may overlap, lines
    const long what = kind == 0 || kind == 4 || kind == 6 ? 0 : sym_choice("what", 3);
    const bool lines = what == 2;
    if (kind == 1 || kind == 4) H::bnd[sym_bool("other")] = 900;
    C c; const Given g = active(c, what == 1);
    std::vector<Expect> e; std::vector<bool> empty;
    e.push_back(addPart(kind, g.i, "x", "l", g.isDist)); empty.push_back(kind == 6);
    const int r = lines ? ask<1>(c) : ask<2>(c);
    compare(r, expected(g, e, empty, lines ? 1 : 2));
}
// arcs: one of the boundaries is far away
HARNESS(c13_arc)
{
    world();
    const bool other = sym_bool("other");
    H::bnd[other] = 900;
    C c; Given g; g.dist = g.angle = g.mag = g.equi = false; g.isDist = true; g.d = g.a = g.m = 0; g.i = sym_real("minIsDist", 0.01, 5);
    c.setMinIntersectionDistance(g.i);
    const bool lines = sym_bool("lines");
    std::vector<Expect> e; std::vector<bool> empty{false};
    e.push_back(addPart(2, g.i, "x", "l"));
    if (sym_bool("mag")) { g.mag = true; g.m = sym_real("minMag", 0.1, 30); c.setMinIntersectionMagnitude(g.m); }
    compare(lines ? ask<1>(c) : ask<2>(c), expected(g, e, empty, lines ? 1 : 2));
}
// two parts: each has to be admissible
HARNESS(c13_parts)
{
    world();
    C c; const Given g = active(c, false);
    static const int K[8][2] = {{0,1},{1,0},{1,5},{5,0},{6,1},{0,3},{1,4},{4,1}};
    const long k = sym_choice("kinds", 6);
    H::bnd[1] = 900;
    std::vector<Expect> e; std::vector<bool> empty;
    for (int i = 0; i < 2; ++i) { e.push_back(addPart(K[k][i], g.i, i ? "x" : "y", i ? "l" : "m", g.isDist)); empty.push_back(K[k][i] == 6); }
    compare(ask<2>(c), expected(g, e, empty, 2));
}
// setting, changing and dropping constraints
HARNESS(c13_settings)
{
    world();
    C c; Given g; g.dist = g.angle = g.mag = g.isDist = g.equi = false; g.d = g.a = g.m = g.i = 1;
    static const char* N[4] = {"v0","v1","v2","v3"};
    for (int i = 0; i < 3; ++i)
    {
        const double v = sym_real(N[i], 0.1, 9);
        switch (sym_choice("action", 11))
        {
            case 0: c.setMinDistance(v); g.dist = true; g.d = v; break;
            case 1: c.setMinIntersectingAngle(v); g.angle = true; g.a = v; break;
            case 2: c.setMinIntersectionMagnitude(v); g.mag = true; g.m = v; break;
            case 3: c.setMinIntersectionDistance(v); g.isDist = true; g.i = v; break;
            case 4: c.neglectMinDistance(); g.dist = false; break;
            case 5: c.neglectMinIntersectionAngle(); g.angle = false; break;
            case 6: c.neglectMinIntersectionMagnitude(); g.mag = false; break;
            case 7: c.neglectMinIntersectionDistance(); g.isDist = false; break;
            case 8: g.equi = !g.equi; c.allowEquiDimensionalIntersections(g.equi); break;
            case 9: H::useEps = true; H::givenEps = v; c.setIntersectionEpsilon(v); break;
            default: H::useEps = false; c.setDefaultIntersectionEpsilon(); break;
        }
    }
    const double x = 3, l = 6;
    H::bnd[0] = H::bnd[1] = 0;
    std::vector<Expect> e; std::vector<bool> empty{false};
    const long what = sym_choice("what", 3);
    const bool none = what == 0; empty[0] = none;
    if (none) { H::parts.push_back(EmptyIntersection<3>()); e.push_back(Expect{0, 0, {true, true}, false}); }
    else
    {
        H::parts.push_back(S3(P3(x,0,0), P3(x,l,0)));
        away(x, g.i);
        e.push_back(Expect{1, l, {x >= g.i, x >= g.i}, false});
    }
    const bool lines = what == 2;
    const C copy(c);
    compare(lines ? ask<1>(copy) : ask<2>(copy), expected(g, e, empty, lines ? 1 : 2));
}
// sets of entities: all pairs
HARNESS(c13_sets)
{
    world(); H::parts.push_back(EmptyIntersection<3>());
    C c; const double d = sym_real("minDist", 0.1, 9); c.setMinDistance(d);
    static const char* N[6] = {"d00","d01","d10","d11","d20","d21"};
    using E = H::Ent<2>;
    const long n = sym_choice("n", 4), m = sym_choice("m", 3);
    std::vector<E> s, t;
    for (long i = 0; i < n; ++i) { E e; e.k = int(i); s.push_back(e); }
    for (long i = 0; i < m; ++i) { E e; e.k = int(3+i); t.push_back(e); }
    bool all = true, first = true;
    for (auto& r : H::between) for (double& v : r) v = 100;
    for (long i = 0; i < n; ++i)
        for (long j = 0; j < m; ++j)
        {
            const double v = sym_real(N[2*i+j], 0, 10);
            away(v, d);
            H::between[i][3+j] = H::between[3+j][i] = v;
            if (v < d) { all = false; if (j == 0) first = false; }
        }
    const long how = sym_choice("how", 3);
    if (how == 0) sym_assert(c.evaluate(s, t) == all, "two sets are admissible when all pairs are");
    else if (m > 0) sym_assert((how == 1 ? c.evaluate(s, t[0]) : c.evaluate(t[0], s)) == first, "an entity is admissible for a set when it is for all its entities");
}
