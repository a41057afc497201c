// C17: samplers of points and disks
#include "geo.hh"
#include <random>
#include <memory>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
using namespace Frackit;

// distributions over a range, the draws are given by the harness
static double draws[3][2]; static int drawn[3];
template<int i> struct Range
{
    double lo, hi;
    Range(double a, double b) : lo(a), hi(b) {}
    template<class G> double operator()(G&) { return draws[i][drawn[i]++]; }
    static double lo_, hi_;
};
static double lows[3], highs[3];
template<int i> struct Noted : public Range<i>
{ Noted(double a, double b) : Range<i>(a, b) { lows[i] = a; highs[i] = b; } };
struct Traits { using DistributionBase1 = Noted<0>; using DistributionBase2 = Noted<1>; using DistributionBase3 = Noted<2>; };
static void start() { for (int i = 0; i < 3; ++i) drawn[i] = 0; }

struct BoxIn { double v[6]; };
static BoxIn box()
{
    BoxIn b;
    const char* n[3] = {"bx", "by", "bz"}; const char* m[3] = {"lx", "ly", "lz"};
    for (int i = 0; i < 3; ++i) { b.v[i] = sym_real(n[i], -50, 50); b.v[i+3] = b.v[i] + sym_real(m[i], 0.1, 50); }
    return b;
}
HARNESS(c17_box)
{
    const BoxIn b = box();
    const Box<double> bx(b.v[0], b.v[1], b.v[2], b.v[3], b.v[4], b.v[5]);
    start();
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) draws[i][k] = sym_real("draw", -500, 500);
    auto s = makePointSampler<Traits>(bx);
    for (int i = 0; i < 3; ++i) sym_assert((lows[i] == b.v[i]) & (highs[i] == b.v[i+3]), "the distributions span the box");
    for (int k = 0; k < 2; ++k)
    {
        const auto p = s();
        near3(r3(p), R3{draws[0][k], draws[1][k], draws[2][k]}, 1e-9, "the coordinates drawn are those of the point");
    }
}
HARNESS(c17_box_uniform)
{
    const BoxIn b = box();
    auto s = makeUniformPointSampler(Box<double>(b.v[0], b.v[1], b.v[2], b.v[3], b.v[4], b.v[5]));
    for (int k = 0; k < 2; ++k)
    {
        const auto p = s();
        sym_le(b.v[0], p.x(), 1e-9, "within the box"); sym_le(p.x(), b.v[3], 1e-9, "within the box");
        sym_le(b.v[1], p.y(), 1e-9, "within the box"); sym_le(p.y(), b.v[4], 1e-9, "within the box");
        sym_le(b.v[2], p.z(), 1e-9, "within the box"); sym_le(p.z(), b.v[5], 1e-9, "within the box");
    }
    const auto p = s();
    sym_assert(Box<double>(b.v[0], b.v[1], b.v[2], b.v[3], b.v[4], b.v[5]).contains(p, 1e-6), "contained in the box");
}
// cylinders in any orientation
struct CylIn { Frame3 f; R3 c; double r, h; };
static CylIn cyl()
{
    CylIn c{symFrame("q"), r3(symPoint("x", "y", "z", 50)), sym_real("radius", 0.1, 20), sym_real("height", 0.1, 50)};
    return c;
}
using Cyl = Cylinder<double>; using Hollow = HollowCylinder<double>;
static Cyl make(const CylIn& c) { return Cyl(Disk<double>(pt(c.c), dir(c.f.u), dir(c.f.v), c.r, c.r), c.h); }
// point p has the polar coordinates given in the frame of the bottom face
template<class P> static void polar(const CylIn& c, const P& p, double r2, double phi, double h)
{
    const R3 d = sub(r3(p), c.c);
    sym_near(dot(d, c.f.w), h, 1e-6, "the height drawn");
    const double a = dot(d, c.f.u), b = dot(d, c.f.v);
    sym_near(a*a+b*b, r2, 1e-6, "the squared radius drawn");
    const double r = std::sqrt(r2);
    sym_near(a, r*std::cos(phi), 1e-6, "the angle drawn"); sym_near(b, r*std::sin(phi), 1e-6, "the angle drawn");
}
HARNESS(c17_cylinder)
{
    const CylIn c = cyl();
    start();
    for (int k = 0; k < 2; ++k) { draws[0][k] = sym_real("r2", 0, 400); draws[1][k] = sym_angle("phi", 0, 2*M_PI); draws[2][k] = sym_real("h", 0, 50); }
    const auto cy = make(c);
    auto s = makePointSampler<Traits>(cy);
    sym_assert((lows[0] == 0.0) & (lows[1] == 0.0) & (lows[2] == 0.0), "the distributions start at zero");
    sym_near(highs[0], c.r*c.r, 1e-6, "up to the squared radius"); sym_assert(highs[1] == 2*M_PI, "up to the full angle");
    sym_near(highs[2], c.h, 1e-9, "up to the height");
    for (int k = 0; k < 2; ++k) polar(c, s(), draws[0][k], draws[1][k], draws[2][k]);
}
HARNESS(c17_cylinder_uniform)
{
    const CylIn c = cyl();
    const auto cy = make(c);
    auto s = makeUniformPointSampler(cy);
    const auto p = s();
    const R3 d = sub(r3(p), c.c);
    const double h = dot(d, c.f.w);
    sym_le(0.0, h, 1e-9, "above the bottom"); sym_le(h, c.h, 1e-9, "below the top");
    sym_le(sq(d)-h*h, c.r*c.r, 1e-6, "within the radius");
}
// axes in the coordinate planes
static CylIn hollow()
{
    CylIn c = cyl();
    double q[2]; sym_unit2("t", q);
    const long k = sym_choice("plane", 3);
    c.f.w = k == 0 ? R3{0, q[0], q[1]} : k == 1 ? R3{q[0], 0, q[1]} : R3{q[0], q[1], 0};
    return c;
}
HARNESS(c17_hollow)
{
    const CylIn c = hollow();
    const double ri = sym_real("inner", 0.05, 20);
    sym_assume(ri < c.r);
    const Hollow hc(pt(c.c), dir(c.f.w), ri, c.r, c.h);
    start();
    draws[0][0] = sym_real("r2", 0, 400); draws[1][0] = sym_angle("phi", 0, 2*M_PI); draws[2][0] = sym_real("h", 0, 50);
    auto s = makePointSampler<Traits>(hc);
    sym_near(lows[0], ri*ri, 1e-6, "from the squared inner radius"); sym_near(highs[0], c.r*c.r, 1e-6, "to the outer one");
    sym_assert((lows[1] == 0.0) & (highs[1] == 2*M_PI), "over the full angle");
    sym_assert(lows[2] == 0.0, "from the bottom"); sym_near(highs[2], c.h, 1e-9, "to the top");
    const R3 d = sub(r3(s()), c.c);
    const double h = dot(d, c.f.w);
    sym_near(h, draws[2][0], 1e-6, "the height drawn");
    sym_near(sq(d)-h*h, draws[0][0], 1e-6, "the squared radius drawn");
}
HARNESS(c17_hollow_uniform)
{
    const CylIn c = hollow();
    const double ri = sym_real("inner", 0.05, 20);
    sym_assume(ri < c.r);
    auto s = makeUniformPointSampler(Hollow(pt(c.c), dir(c.f.w), ri, c.r, c.h));
    const R3 d = sub(r3(s()), c.c);
    const double h = dot(d, c.f.w), r2 = sq(d)-h*h;
    sym_le(0.0, h, 1e-9, "above the bottom"); sym_le(h, c.h, 1e-9, "below the top");
    sym_le(r2, c.r*c.r, 1e-6, "within the outer radius"); sym_le(ri*ri, r2, 1e-6, "outside of the inner radius");
}
// disks
static double lens[2][3], ang[3];
static int lenDrawn[2];
template<int i> struct Len { template<class G> double operator()(G&) { sym_assert(lenDrawn[i] < 3, "no more draws than needed"); return lens[i][lenDrawn[i]++]; } };
template<int i> struct Ang { template<class G> double operator()(G&) { return ang[i]; } };
struct DiskTraits
{
    using MajorAxisLengthDistribution = Len<0>; using MinorAxisLengthDistribution = Len<1>;
    using XAngleDistribution = Ang<0>; using YAngleDistribution = Ang<1>; using ZAngleDistribution = Ang<2>;
};
struct Centers : public PointSampler<P3> { P3 p; int* n; P3 operator()() override { ++*n; return p; } };
static R3 rotX(R3 v, double c, double s) { return {v.x, c*v.y-s*v.z, s*v.y+c*v.z}; }
static R3 rotY(R3 v, double c, double s) { return {c*v.x+s*v.z, v.y, -s*v.x+c*v.z}; }
static R3 rotZ(R3 v, double c, double s) { return {c*v.x-s*v.y, s*v.x+c*v.y, v.z}; }
HARNESS(c17_disk)
{
    int calls = 0;
    Centers ctr; ctr.p = symPoint("cx", "cy", "cz", 50); ctr.n = &calls;
    for (int i = 0; i < 2; ++i)
    {
        lenDrawn[i] = 0;
        // lengths that are not positive are drawn again
        const long bad = sym_choice("bad", 3);
        for (long k = 0; k < bad; ++k) lens[i][k] = sym_real("bad", -5, 0);
        for (long k = bad; k < 3; ++k) lens[i][k] = sym_real("len", 0.01, 20);
    }
    ang[0] = sym_angle("alpha", -M_PI, M_PI); ang[1] = sym_angle("beta", -M_PI, M_PI); ang[2] = sym_angle("gamma", -M_PI, M_PI);
    DiskSampler<double, DiskTraits> s(ctr, {}, {}, {}, {}, {});
    const auto d = s();
    sym_assert(calls == 1, "one center per disk");
    near3(r3(d.center()), r3(ctr.p), 1e-9, "the center drawn");
    const double a = lens[0][lenDrawn[0]-1], b = lens[1][lenDrawn[1]-1];
    sym_assert(a > 0.0, "positive length"); sym_assert(b > 0.0, "positive length");
    sym_near(d.majorAxisLength(), a, 1e-9, "the length drawn for the major axis");
    if (sym_force(b <= a)) sym_near(d.minorAxisLength(), b, 1e-9, "the length drawn for the minor axis");
    else sym_near(d.minorAxisLength(), a, 1e-9, "the minor axis is not longer than the major one");
    const double cx = std::cos(ang[0]), sx = std::sin(ang[0]), cy = std::cos(ang[1]), sy = std::sin(ang[1]), cz = std::cos(ang[2]), sz = std::sin(ang[2]);
    auto rot = [&] (R3 v) { return rotZ(rotY(rotX(v, cx, sx), cy, sy), cz, sz); };
    near3(r3(d.majorAxis()), rot({1,0,0}), 1e-6, "major axis: x-axis turned about x, y and z");
    near3(r3(d.minorAxis()), rot({0,1,0}), 1e-6, "minor axis: y-axis turned about x, y and z");
    near3(r3(d.normal()), rot({0,0,1}), 1e-6, "normal: z-axis turned about x, y and z");
}
// the default traits
HARNESS(c17_disk_default)
{
    int calls = 0;
    Centers ctr; ctr.p = P3(1, 2, 3); ctr.n = &calls;
    using N = std::normal_distribution<double>;
    DiskSampler<> s(ctr, N(2, 0.2), N(1, 0.1), N(0, 0), N(0, 0), N(0, 0));
    const auto d = s();
    sym_assert((d.majorAxisLength() > 0.0) & (d.minorAxisLength() > 0.0), "positive lengths");
    sym_le(d.minorAxisLength(), d.majorAxisLength(), 1e-12, "the major axis is the longer one");
    sym_le(d.majorAxisLength(), 3.6, 1e-9, "the length drawn"); near3(r3(d.normal()), R3{0,0,1}, 1e-9, "no rotation");
}
// rotation of vectors
HARNESS(c17_rotate)
{
    const Frame3 f = symFrame("q");
    const double phi = sym_angle("phi", -2*M_PI, 2*M_PI);
    const double x = sym_real("x", -50, 50), y = sym_real("y", -50, 50), z = sym_real("z", -50, 50);
    const double c = std::cos(phi), s = std::sin(phi);
    const R3 want = f.at(c*x-s*y, s*x+c*y, z);
    V3 v = vec(f.at(x, y, z));
    if (sym_bool("vector"))
    {
        std::vector<V3> vs{v, vec(f.u), vec(f.w)};
        rotate(vs, dir(f.w), phi);
        near3(r3(vs[0]), want, 1e-6, "turned about the axis"); near3(r3(vs[1]), f.at(c, s, 0), 1e-6, "turned about the axis"); near3(r3(vs[2]), f.w, 1e-6, "the axis stays");
    }
    else { rotate(v, dir(f.w), phi); near3(r3(v), want, 1e-6, "turned about the axis"); }
}
HARNESS(c17_degrees)
{
    const double d = sym_real("deg", -1000, 1000);
    sym_near(toRadians(d)*180.0, d*M_PI, 1e-6, "degrees to radians");
    sym_near(toDegrees(toRadians(d)), d, 1e-9, "there and back");
    sym_near(toDegrees(d)*M_PI, d*180.0, 1e-3, "radians to degrees");
}
