// C18: samplers of polygons and quadrilaterals
#include "geo.hh"
#include <random>
#include <memory>
#include <cassert>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
using namespace Frackit;

struct Centers : public PointSampler<P3> { P3 p; int* n; P3 operator()() override { ++*n; return p; } };
// strike angle, dip angle, strike length, dip length, number of corners: the first draws are useless
static double strike, dip, len[2], badLen; static int bad[2], drawn[2], badCorners, corners, cornersDrawn;
struct Strike { template<class G> double operator()(G&) { return strike; } };
struct Dip { template<class G> double operator()(G&) { return dip; } };
template<int i> struct Len { template<class G> double operator()(G&) { return drawn[i]++ < bad[i] ? badLen : len[i]; } };
struct Num { template<class G> int operator()(G&) { return cornersDrawn++ < badCorners ? 2 : corners; } };
struct Traits
{
    using StrikeAngleDistribution = Strike; using DipAngleDistribution = Dip;
    using StrikeLengthDistribution = Len<0>; using DipLengthDistribution = Len<1>;
    using NumCornersDistribution = Num;
};
using Poly = Polygon<double, 3>; using Quad = Quadrilateral<double, 3>;
using PS = PolygonSampler<3, double, Traits>; using QS = QuadrilateralSampler<3, double, Traits>;
// the draws from the unit interval: first all x values, then all y values
static double xs[8], ys[8]; static int at, num;
static double unitDraw() { const int k = at++; return k < num ? xs[k] : ys[k-num]; }

struct Input { P3 c; int calls = 0; };
static void begin(int n) { at = 0; num = n; corners = n; drawn[0] = drawn[1] = 0; cornersDrawn = 0; shadow::uniform = unitDraw; }
static void settings(bool anySize)
{
    bad[0] = bad[1] = 0; badCorners = 0; badLen = -1;
    strike = sym_angle("strike", -M_PI, 2*M_PI); dip = sym_angle("dip", -M_PI, M_PI);
    len[0] = anySize ? sym_real("strikeLength", 0.5, 30) : 2; len[1] = anySize ? sym_real("dipLength", 0.5, 30) : 3;
}
// coordinates of the corners in the sampled plane (along dip, along strike)
static void plane(R3& e1, R3& e2, R3& n)
{
    const double cs = std::cos(strike), ss = std::sin(strike), cd = std::cos(dip), sd = std::sin(dip);
    // x axis turned by the strike angle, and tilted about the strike direction
    e1 = R3{cs*cd, ss*cd, -sd}; e2 = R3{-ss, cs, 0};
    n = cross(e1, e2);
}
template<class At> static void shape(const At& corner, int n, R3 center, double tol)
{
    R3 e1, e2, nn; plane(e1, e2, nn);
    double u[8], v[8];
    for (int i = 0; i < n; ++i)
    {
        const R3 d = sub(corner(i), center);
        u[i] = dot(d, e1); v[i] = dot(d, e2);
        // the center of the bounding box lies in the plane of the polygon only by chance: check differences
        if (i > 0) sym_near(dot(sub(corner(i), corner(0)), nn), 0.0, tol, "the corners lie in the plane of the strike and dip angle");
    }
    double uMin = u[0], uMax = u[0], vMin = v[0], vMax = v[0];
    for (int i = 1; i < n; ++i)
    {
        uMin = std::min(uMin, u[i]); uMax = std::max(uMax, u[i]);
        vMin = std::min(vMin, v[i]); vMax = std::max(vMax, v[i]);
    }
    sym_le(uMax-uMin, len[1], tol, "not larger than the length in dip direction"); sym_le(0.8*len[1], uMax-uMin, tol, "about as large as the length in dip direction");
    sym_le(vMax-vMin, len[0], tol, "not larger than the length in strike direction"); sym_le(0.8*len[0], vMax-vMin, tol, "about as large as the length in strike direction");
    for (int i = 0; i < n; ++i)
    {
        const int j = (i+1)%n, k = (i+2)%n;
        sym_le(0.0, (u[j]-u[i])*(v[k]-v[j]) - (v[j]-v[i])*(u[k]-u[j]), tol*30, "convex");
    }
}
template<class At> static void centred(const At& corner, int n, R3 c, double tol)
{
    R3 lo = corner(0), hi = corner(0);
    for (int i = 1; i < n; ++i)
    {
        const R3 p = corner(i);
        lo = {std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)};
        hi = {std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)};
    }
    near3(mul(add(lo, hi), 0.5), c, tol, "the bounding box is centred at the sampled point");
}
static const double tables[5][2][8] = {
    {{0.05, 0.5, 0.95}, {0.4, 0.02, 0.97}},
    {{0.3, 0.6, 0.5, 0.4}, {0.45, 0.8, 0.05, 0.92}},
    {{0.95, 0.2, 0.01, 0.7}, {0.5, 0.25, 0.75, 0.6}},
    {{0.5, 0.1, 0.85, 0.3, 0.95}, {0.2, 0.9, 0.4, 0.65, 0.05}},
    {{0.12, 0.52, 0.31, 0.77, 0.64, 0.99, 0.02}, {0.93, 0.42, 0.08, 0.22, 0.35, 0.61, 0.71}}};
static const int sizes[5] = {3, 4, 4, 5, 7};
static void table(long k) { for (int i = 0; i < sizes[k]; ++i) { xs[i] = tables[k][0][i]; ys[i] = tables[k][1][i]; } begin(sizes[k]); }

// any size and orientation, given draws
static void sized(bool quad)
{
    settings(true);
    const long k = quad ? 1+sym_choice("draws", 2) : sym_choice("draws", 4);
    table(k);
    Centers ctr; int calls = 0; ctr.p = symPoint("x", "y", "z", 50); ctr.n = &calls;
    if (quad)
    {
        const Quad q = QS(ctr, Strike(), Dip(), Len<0>(), Len<1>())();
        const int ring[4] = {0, 1, 3, 2};
        auto c = [&] (int i) { return r3(q.corner(ring[i])); };
        shape(c, 4, r3(ctr.p), 1e-5);
    }
    else
    {
        const auto p = PS(ctr, Strike(), Dip(), Len<0>(), Len<1>(), Num()).sampleCorners();
        sym_assert(int(p.size()) == sizes[k], "as many corners as drawn");
        auto c = [&] (int i) { return r3(p[i]); };
        shape(c, sizes[k], r3(ctr.p), 1e-5);
    }
    sym_assert(calls == 1, "one center");
}
HARNESS(c18_polygon_size) { sized(false); }
HARNESS(c18_quad_size) { sized(true); }

// fixed size: centre and retries
HARNESS(c18_center)
{
    settings(false);
    const long k = sym_choice("draws", 2);
    table(k);
    Centers ctr; int calls = 0; ctr.p = symPoint("x", "y", "z", 50); ctr.n = &calls;
    if (k == 1)
    {
        const Quad q = QS(ctr, Strike(), Dip(), Len<0>(), Len<1>())();
        centred([&] (int i) { return r3(q.corner(i)); }, 4, r3(ctr.p), 1e-6);
    }
    else
    {
        const auto p = PS(ctr, Strike(), Dip(), Len<0>(), Len<1>(), Num()).sampleCorners();
        centred([&] (int i) { return r3(p[i]); }, int(p.size()), r3(ctr.p), 1e-6);
    }
}
HARNESS(c18_retries)
{
    settings(true);
    strike = 0; dip = 0;
    const long which = sym_choice("which", 3);
    static const int times[5] = {1, 2, 40, 99, 150};
    const int n = times[sym_choice("times", 5)];
    badLen = sym_real("bad", -5, 0);
    if (which == 2) badCorners = n; else bad[which] = n;
    table(1);
    Centers ctr; int calls = 0; ctr.p = P3(1, 2, 3); ctr.n = &calls;
    bool thrown = false;
    std::vector<P3> p;
    try { p = PS(ctr, Strike(), Dip(), Len<0>(), Len<1>(), Num()).sampleCorners(); } catch (const std::runtime_error&) { thrown = true; }
    if (n < 100) { sym_assert(!thrown, "draws that cannot be used are repeated"); shape([&] (int i) { return r3(p[i]); }, 4, R3{1,2,3}, 1e-5); }
    else sym_assert(thrown, "hopeless distributions are an error");
}
// the polygon itself; two samples are independent
HARNESS(c18_polygon)
{
    settings(false);
    table(0);
    Centers ctr; int calls = 0; ctr.p = symPoint("x", "y", "z", 20); ctr.n = &calls;
    PS s(ctr, Strike(), Dip(), Len<0>(), Len<1>(), Num());
    dip = 0;
    const Poly p = s();
    sym_assert(p.numCorners() == 3, "as many corners as drawn"); sym_assert(p.isConvex(), "the polygon is convex");
    shape([&] (int i) { return r3(p.corner(i)); }, 3, r3(ctr.p), 1e-5);
    begin(3);
    dip = sym_angle("dip2", 0, 1);
    const auto q = s.sampleCorners();
    sym_assert(q.size() == 3, "as many corners as drawn");
    shape([&] (int i) { return r3(q[i]); }, 3, r3(ctr.p), 1e-5);
}
// any draws: n values per direction, in one of several orders
static void ordered(double* v, int n, const int* order)
{
    // distinct values, rank r of the n
    double prev = 0;
    double sorted[8];
    for (int r = 0; r < n; ++r) { sorted[r] = sym_real("draw", 0, 1); if (r > 0) sym_assume(sorted[r] >= prev + 3e-2); prev = sorted[r]; }
    for (int i = 0; i < n; ++i) v[i] = sorted[order[i]];
}
static const int orders3[3][3] = {{0,1,2}, {1,2,0}, {2,0,1}};
static const int orders4[4][4] = {{0,1,2,3}, {2,0,3,1}, {1,3,2,0}, {0,2,1,3}};
// one direction any draws, the other one given ones
static void anyDraws(int n, long k, bool alongX)
{
    settings(false);
    strike = 0; dip = 0; len[0] = len[1] = 1;
    table(k);
    double* v = alongX ? xs : ys;
#ifdef THOROUGH
    const long o = sym_choice("order", n);
#else
    const long o = n == 3 ? sym_choice("order", 3) : sym_choice("order", 2);
#endif
    ordered(v, n, n == 3 ? orders3[o] : orders4[o]);
    Centers ctr; int calls = 0; ctr.p = P3(1, 2, 3); ctr.n = &calls;
    const auto p = PS(ctr, Strike(), Dip(), Len<0>(), Len<1>(), Num()).sampleCorners();
    sym_assert(int(p.size()) == n, "as many corners as drawn");
    shape([&] (int i) { return r3(p[i]); }, n, R3{1,2,3}, 1e-5);
}
HARNESS(c18_triangle_draws) { anyDraws(3, 0, sym_bool("x")); }
HARNESS(c18_quad_draws) { anyDraws(4, 1+sym_choice("table", 2), false); }
HARNESS(c18_quad_draws_x) { anyDraws(4, 1, true); }
// the former implementation for quadrilaterals: four edge lengths
static double edgeDraws[12]; static int edgeAt;
static double edgeDraw(double, double) { sym_assert(edgeAt < 12, "no more draws than needed"); return edgeDraws[edgeAt++]; }
HARNESS(c18_quad_edges)
{
    settings(false);
    const double least = sym_real("least", 0.01, 5);
    // one of the lengths is drawn again
    const long again = sym_choice("again", 6);
    double use[4]; int n = 0;
    for (int i = 0; i < 4; ++i)
    {
        if (again == i) { edgeDraws[n] = sym_real("short", -5, 5); sym_assume(edgeDraws[n] < least); ++n; }
        if (again == 4 && i == 2) for (int k = 0; k < 2; ++k) { edgeDraws[n] = sym_real("short", -5, 5); sym_assume(edgeDraws[n] < least); ++n; }
        use[i] = edgeDraws[n++] = sym_real("edge", 0.01, 20);
        sym_assume(use[i] >= least);
    }
    while (n < 12) edgeDraws[n++] = least + 1;
    edgeAt = 0; shadow::normal = edgeDraw;
    Centers ctr; int calls = 0; ctr.p = symPoint("x", "y", "z", 50); ctr.n = &calls;
    const Quad q = QS(ctr, Strike(), Dip(), std::normal_distribution<double>(1, 1), least)();
    sym_assert(calls == 1, "one center");
    sym_assert(edgeAt == (again == 5 ? 4 : again == 4 ? 6 : 5), "lengths below the minimum are drawn again");
    R3 e1, e2, nn; plane(e1, e2, nn);
    double u[4], v[4];
    for (int i = 0; i < 4; ++i)
    {
        const R3 d = sub(r3(q.corner(i)), r3(ctr.p));
        u[i] = dot(d, e1); v[i] = dot(d, e2);
        sym_near(dot(d, nn), 0.0, 1e-6, "the corners lie in the plane of the strike and dip angle");
    }
    sym_near(u[0], -use[0]/2, 1e-6, "half the length to either side of the center"); sym_near(u[2], -use[0]/2, 1e-6, "half the length to either side of the center");
    sym_near(u[1], use[1]/2, 1e-6, "half the length to either side of the center"); sym_near(u[3], use[1]/2, 1e-6, "half the length to either side of the center");
    sym_near(v[2]-v[0], use[2], 1e-6, "edges of the lengths drawn"); sym_near(v[3]-v[1], use[3], 1e-6, "edges of the lengths drawn");
    sym_near(v[0]+v[2], 0.0, 1e-6, "symmetric"); sym_near(v[1]+v[3], 0.0, 1e-6, "symmetric");
    shadow::normal = nullptr;
}
// the default distributions
static double someAngle(double mean, double) { return mean; }
HARNESS(c18_default)
{
    using N = std::normal_distribution<double>; using U = std::uniform_real_distribution<double>;
    settings(false); strike = 0; dip = 0;
    Centers ctr; int calls = 0; ctr.p = symPoint("x", "y", "z", 50); ctr.n = &calls;
    table(1 + sym_choice("draws", 2));
    // four corners; the lengths are drawn from the unit interval as well, after the coordinates
    ys[4] = sym_real("u", 0.1, 1); ys[5] = sym_real("v", 0.1, 1);
    shadow::normal = someAngle;
    len[0] = 2 + 3*ys[4]; len[1] = 1 + 4*ys[5];
    const Quad q = QuadrilateralSampler<3>(ctr, N(0, 1), N(0, 1), U(2, 5), U(1, 5))();
    const int ring[4] = {0, 1, 3, 2};
    shape([&] (int i) { return r3(q.corner(ring[i])); }, 4, r3(ctr.p), 1e-5);
    shadow::normal = nullptr;
}
