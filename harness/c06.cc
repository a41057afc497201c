// C06: derived geometry: box corners/edges/faces, cylinder and hollow cylinder faces, magnitudes
#include "geo.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/magnitude/magnitude.hh>
using namespace Frackit;
static const double PI = 3.14159265358979323846;
using BX = Box<double>; using CY = Cylinder<double>; using HC = HollowCylinder<double>; using CS = CylinderSurface<double>; using C3 = Circle<double,3>; using K3 = Disk<double>;

struct BoxIn { double x0,y0,z0,x1,y1,z1; };
static BoxIn symBox(double m = 0.01)
{
    BoxIn b; b.x0 = sym_real("x0",-100,100); b.y0 = sym_real("y0",-100,100); b.z0 = sym_real("z0",-100,100);
    b.x1 = sym_real("x1",-100,100); b.y1 = sym_real("y1",-100,100); b.z1 = sym_real("z1",-100,100);
    sym_assume(b.x1 >= b.x0 + m); sym_assume(b.y1 >= b.y0 + m); sym_assume(b.z1 >= b.z0 + m);
    return b;
}
// bit k of the corner index selects the upper bound in direction k
static R3 boxCorner(const BoxIn& b, int i) { return {i & 1 ? b.x1 : b.x0, i & 2 ? b.y1 : b.y0, i & 4 ? b.z1 : b.z0}; }
HARNESS(c06_box)
{
    const BoxIn i = symBox(0.0);
    const BX b = sym_choice("ctor", 2) ? BX(P3(i.x0,i.y0,i.z0), P3(i.x1,i.y1,i.z1)) : BX(i.x0,i.y0,i.z0,i.x1,i.y1,i.z1);
    sym_assert(b.xMin() == i.x0 && b.yMin() == i.y0 && b.zMin() == i.z0 && b.xMax() == i.x1 && b.yMax() == i.y1 && b.zMax() == i.z1, "box keeps its bounds");
    near3(r3(b.center()), R3{0.5*(i.x0+i.x1), 0.5*(i.y0+i.y1), 0.5*(i.z0+i.z1)}, 1e-9, "box centre is the midpoint");
    sym_near(b.volume(), (i.x1-i.x0)*(i.y1-i.y0)*(i.z1-i.z0), 1e-6, "box volume");
    sym_near(computeVolume(b), (i.x1-i.x0)*(i.y1-i.y0)*(i.z1-i.z0), 1e-6, "box volume"); sym_near(computeMagnitude(b), (i.x1-i.x0)*(i.y1-i.y0)*(i.z1-i.z0), 1e-6, "box volume");
    sym_assert(b.numCorners() == 8 && b.numEdges() == 12 && b.numFaces() == 6, "box has 8 corners, 12 edges, 6 faces");
    for (int c = 0; c < 8; ++c) near3(r3(b.corner(c)), boxCorner(i, c), 0, "box corners");
}
// every edge joins two corners that differ in one direction; all 12 occur once
HARNESS(c06_box_edges)
{
    const BoxIn i = symBox(); const BX b(i.x0,i.y0,i.z0,i.x1,i.y1,i.z1);
    long seen[8][8] = {};
    for (int e = 0; e < 12; ++e)
    {
        const auto s = b.edge(e); int end[2];
        for (int k = 0; k < 2; ++k)
        {
            const R3 p = r3(k ? s.target() : s.source());
            const bool hx = sym_force(p.x == i.x1), hy = sym_force(p.y == i.y1), hz = sym_force(p.z == i.z1);
            end[k] = (hx ? 1 : 0) + (hy ? 2 : 0) + (hz ? 4 : 0);
            near3(p, boxCorner(i, end[k]), 0, "box edges end at corners");
        }
        const int d = end[0] ^ end[1];
        sym_assert(d == 1 || d == 2 || d == 4, "box edges join corners that differ in one direction");
        seen[end[0] < end[1] ? end[0] : end[1]][end[0] < end[1] ? end[1] : end[0]]++;
    }
    bool all = true;
    for (int a = 0; a < 8; ++a) for (int c = a+1; c < 8; ++c) { const int d = a ^ c; if (d == 1 || d == 2 || d == 4) all = all && seen[a][c] == 1; }
    sym_assert(all, "box edges are all twelve edges");
}
HARNESS(c06_box_faces)
{
    const BoxIn i = symBox(); const BX b(i.x0,i.y0,i.z0,i.x1,i.y1,i.z1);
    const R3 ext{i.x1-i.x0, i.y1-i.y0, i.z1-i.z0};
    long seen[6] = {};
    for (int f = 0; f < 6; ++f)
    {
        const auto q = b.face(f); int c[4]; int all = 7, any = 0;
        for (int k = 0; k < 4; ++k)
        {
            const R3 p = r3(q.corner(k));
            c[k] = (sym_force(p.x == i.x1) ? 1 : 0) + (sym_force(p.y == i.y1) ? 2 : 0) + (sym_force(p.z == i.z1) ? 4 : 0);
            near3(p, boxCorner(i, c[k]), 0, "box faces have box corners");
            all &= c[k]; any |= c[k];
        }
        int dirn = -1, up = 0;   // the face is the one where bit dirn is constant
        for (int k = 0; k < 3; ++k) { if (all & (1 << k)) { dirn = k; up = 1; } if (!(any & (1 << k))) { dirn = k; up = 0; } }
        sym_assert(dirn >= 0, "box faces lie in the sides of the box");
        if (dirn >= 0) seen[2*dirn+up]++;
        sym_assert(c[0] != c[3] && c[1] != c[2] && (c[0] ^ c[3]) == (c[1] ^ c[2]) && ((c[0] ^ c[3]) | (1 << (dirn < 0 ? 0 : dirn))) == 7, "box faces are rectangles with opposite corners paired");
        const double A = dirn == 0 ? ext.y*ext.z : dirn == 1 ? ext.x*ext.z : ext.x*ext.y;
        sym_near(q.area(), A, 1e-6, "box face area"); sym_near(computeArea(q), A, 1e-6, "box face area"); sym_near(computeMagnitude(q), A, 1e-6, "box face area");
        const R3 n = r3(q.supportingPlane().normal());
        const double nd = dirn == 0 ? n.x : dirn == 1 ? n.y : n.z;
        sym_near(nd*nd, 1.0, 1e-6, "box face normal is the direction of its side");
        sym_assert(q.isConvex(), "box faces are convex");
    }
    for (int k = 0; k < 6; ++k) sym_assert(seen[k] == 1, "box faces are all six sides");
}
HARNESS(c06_box_refuse)
{
    const double x0 = sym_real("x0",-100,100), y0 = sym_real("y0",-100,100), z0 = sym_real("z0",-100,100), x1 = sym_real("x1",-100,100), y1 = sym_real("y1",-100,100), z1 = sym_real("z1",-100,100);
    bool thrown = false;
    try { if (sym_choice("ctor", 2)) BX(P3(x0,y0,z0), P3(x1,y1,z1)); else BX(x0,y0,z0,x1,y1,z1); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown == sym_force(x1 < x0 || y1 < y0 || z1 < z0), "boxes are refused exactly when an upper bound is below a lower one");
}

struct Cyl { R3 o; Frame3 f; double r, h; };
static const bool FULL = true;
static Cyl symCyl(bool full)
{
    Cyl c; c.o = r3(symPoint("ox","oy","oz", 20)); c.f = full ? symFrame("f") : symFrameZ("f");
    if (!full) c.f = Frame3{c.f.v, c.f.w, c.f.u};
    c.r = sym_real("r", 0.1, 20); c.h = sym_real("h", 0.1, 20); return c;
}
static void basis(R3 u, R3 v, R3 w, R3 axis, const char* l)
{ near3(w, axis, 1e-6, l); near3(cross(u, v), w, 1e-6, l); sym_near(dot(u, u), 1.0, 1e-6, l); sym_near(dot(u, v), 0.0, 1e-6, l); }
template<class C> static void circle(const C& c, R3 o, R3 n, double r, const char* l)
{ near3(r3(c.center()), o, 1e-6, l); near3(r3(c.normal()), n, 1e-6, l); sym_near(c.majorAxisLength(), r, 1e-6, l); sym_near(c.minorAxisLength(), r, 1e-6, l);
  basis(r3(c.majorAxis()), r3(c.minorAxis()), r3(c.normal()), n, l); }
static void cylSurf(const CS& s, const Cyl& c, double r, const char* l)
{
    circle(s.lowerBoundingCircle(), c.o, c.f.w, r, l); circle(s.upperBoundingCircle(), add(c.o, mul(c.f.w, c.h)), c.f.w, r, l);
    sym_near(s.height(), c.h, 1e-6, l); sym_near(s.radius(), r, 1e-6, l); near3(r3(s.direction()), c.f.w, 1e-6, l);
    near3(r3(s.centerSegment().source()), c.o, 1e-6, l); near3(r3(s.centerSegment().target()), add(c.o, mul(c.f.w, c.h)), 1e-6, l);
    sym_near(s.area(), 2*PI*r*c.h, 1e-6, l); sym_near(computeArea(s), 2*PI*r*c.h, 1e-6, l); sym_near(computeMagnitude(s), 2*PI*r*c.h, 1e-6, l);
    basis(r3(s.base1()), r3(s.base2()), r3(s.base3()), c.f.w, l);
}
static void cyl(const CY& y, const Cyl& c, const char* l)
{
    circle(y.bottomFace(), c.o, c.f.w, c.r, l); circle(y.topFace(), add(c.o, mul(c.f.w, c.h)), c.f.w, c.r, l);
    sym_near(y.height(), c.h, 1e-6, l); sym_near(y.radius(), c.r, 1e-6, l); near3(r3(y.direction()), c.f.w, 1e-6, l);
    near3(r3(y.centerSegment().source()), c.o, 1e-6, l); near3(r3(y.centerSegment().target()), add(c.o, mul(c.f.w, c.h)), 1e-6, l);
    sym_near(y.volume(), PI*c.r*c.r*c.h, 1e-6, "cylinder volume"); sym_near(computeVolume(y), PI*c.r*c.r*c.h, 1e-6, "cylinder volume"); sym_near(computeMagnitude(y), PI*c.r*c.r*c.h, 1e-6, "cylinder volume");
    basis(r3(y.base1()), r3(y.base2()), r3(y.base3()), c.f.w, l);
}
HARNESS(c06_cylinder_disk)
{
    const Cyl c = symCyl(true);
    cyl(CY(K3(pt(c.o), dir(c.f.u), dir(c.f.v), c.r, c.r), c.h), c, "cylinder over a disk");
}
HARNESS(c06_cylinder_circle)
{
    const Cyl c = symCyl(FULL); const CY y(C3(pt(c.o), dir(c.f.w), c.r), c.h);
    cyl(y, c, "cylinder over a circle");
    cylSurf(y.lateralFace(), c, c.r, "lateral face of a cylinder");
}
HARNESS(c06_cylinder_z)
{
    Cyl c; c.o = R3{0,0,sym_real("z",-20,20)}; c.f = Frame3{{1,0,0},{0,1,0},{0,0,1}}; c.r = sym_real("r", 0.1, 20); c.h = sym_real("h", 0.1, 20);
    cyl(CY(c.r, c.h, c.o.z), c, "upright cylinder");
    Cyl d = c; d.o = R3{0,0,0}; cyl(CY(c.r, c.h), d, "upright cylinder");
    cylSurf(CS(c.r, c.h), d, c.r, "upright cylinder surface");
}
HARNESS(c06_cylinder_refuse)
{
    const Cyl c = symCyl(FULL); const double b = sym_real("b", 0.1, 20); sym_assume(c.r >= b);
    bool thrown = false;
    try { CY(K3(pt(c.o), dir(c.f.u), dir(c.f.v), c.r, b), c.h); } catch (const std::runtime_error&) { thrown = true; }
    if (sym_force(c.r == b)) sym_assert(!thrown, "circular disks are accepted as base");
    else if (sym_force(c.r - b > 1e-4)) sym_assert(thrown, "disks that are not circular are refused as base");
    else sym_skip();
}
HARNESS(c06_surface)
{
    const Cyl c = symCyl(FULL); const CS s(C3(pt(c.o), dir(c.f.w), c.r), c.h);
    cylSurf(s, c, c.r, "cylinder surface over a circle");
    cyl(s.cylinder(), c, "cylinder bounded by a surface");
}
HARNESS(c06_tangent)
{
    const Cyl c = symCyl(false); const CS s(C3(pt(c.o), dir(c.f.w), c.r), c.h);
    double d[2]; sym_unit2("d", d); const double q = sym_real("q", 0, 1);
    const R3 n = c.f.at(d[0], d[1], 0);
    const P3 p = pt(add(c.o, c.f.at(c.r*d[0], c.r*d[1], q*c.h)));
    const auto P = s.getTangentPlane(p);
    near3(r3(P.normal()), n, 1e-6, "tangent plane is normal to the radius"); near3(r3(P.supportingPoint()), r3(p), 1e-6, "tangent plane touches the surface at the point");
}
HARNESS(c06_hollow)
{
    const Cyl c = symCyl(FULL); const double ri = sym_real("ri", 0.05, 20); sym_assume(ri <= c.r);
    const HC h(pt(c.o), dir(c.f.w), ri, c.r, c.h);
    const R3 top = add(c.o, mul(c.f.w, c.h));
    circle(h.bottomInnerCircle(), c.o, c.f.w, ri, "inner bottom circle"); circle(h.topInnerCircle(), top, c.f.w, ri, "inner top circle");
    circle(h.bottomOuterCircle(), c.o, c.f.w, c.r, "outer bottom circle"); circle(h.topOuterCircle(), top, c.f.w, c.r, "outer top circle");
    cylSurf(h.innerLateralFace(), c, ri, "inner lateral face"); cylSurf(h.outerLateralFace(), c, c.r, "outer lateral face");
    circle(h.bottomOuterCircle(), c.o, c.f.w, c.r, "outer bottom circle"); circle(h.topOuterCircle(), top, c.f.w, c.r, "outer top circle");
    cyl(h.fullCylinder(), c, "full cylinder of a hollow cylinder");
    near3(r3(h.axis()), c.f.w, 1e-6, "hollow cylinder axis");
    near3(r3(h.centerSegment().source()), c.o, 1e-6, "hollow cylinder centre line"); near3(r3(h.centerSegment().target()), top, 1e-6, "hollow cylinder centre line");
    sym_assert(h.innerRadius() == ri && h.outerRadius() == c.r && h.height() == c.h, "hollow cylinder dimensions");
    sym_near(h.volume(), PI*c.h*(c.r*c.r - ri*ri), 1e-6, "hollow cylinder volume"); sym_near(computeVolume(h), PI*c.h*(c.r*c.r - ri*ri), 1e-6, "hollow cylinder volume"); sym_near(computeMagnitude(h), PI*c.h*(c.r*c.r - ri*ri), 1e-6, "hollow cylinder volume");
}
HARNESS(c06_hollow_z)
{
    const double ri = sym_real("ri", 0.05, 20), ro = sym_real("ro", 0.05, 20), H = sym_real("h", 0.1, 20);
    bool thrown = false;
    try
    {
        const HC h(ri, ro, H);
        circle(h.bottomInnerCircle(), R3{0,0,0}, R3{0,0,1}, ri, "upright hollow cylinder"); circle(h.topInnerCircle(), R3{0,0,H}, R3{0,0,1}, ri, "upright hollow cylinder");
        circle(h.topOuterCircle(), R3{0,0,H}, R3{0,0,1}, ro, "upright hollow cylinder"); circle(h.bottomOuterCircle(), R3{0,0,0}, R3{0,0,1}, ro, "upright hollow cylinder");
    }
    catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown == sym_force(ro < ri), "hollow cylinders are refused exactly when the outer radius is below the inner one");
}
HARNESS(c06_magnitude)
{
    const double r = sym_real("r", 0.1, 50), b = sym_real("b", 0.1, 50);
    const P3 o = symPoint("ox","oy","oz"); const Frame3 f = symFrame("f");
    sym_near(Sphere<double>(o, r).volume(), 4.0/3.0*PI*r*r*r, 1e-5, "sphere volume"); sym_near(computeVolume(Sphere<double>(o, r)), 4.0/3.0*PI*r*r*r, 1e-5, "sphere volume");
    sym_near(computeMagnitude(Sphere<double>(o, r)), 4.0/3.0*PI*r*r*r, 1e-5, "sphere volume");
    const P3 q = pt(add(r3(o), f.at(r, 0, 0)));
    sym_near(computeLength(Segment<double,3>(o, q)), r, 1e-6, "segment length"); sym_near(computeMagnitude(Segment<double,3>(q, o)), r, 1e-6, "segment length");
    sym_near(computeMagnitude(o), 0.0, 0, "points have no magnitude");
    const C3 c(o, D3(V3(0,0,1)), r);
    sym_near(computeLength(c), 2*PI*r, 1e-6, "circumference of a circle"); sym_near(computeMagnitude(c), 2*PI*r, 1e-6, "circumference of a circle");
    sym_assume(r >= b);
    const K3 k(o, dir(f.u), dir(f.v), r, b);
    sym_near(computeArea(k), PI*r*b, 1e-6, "disk area"); sym_near(computeMagnitude(k), PI*r*b, 1e-6, "disk area");
    const double L = computeLength(k.boundingEllipse()), L2 = computeMagnitude(k.boundingEllipse());
    sym_le(L, 2*PI*r, 1e-6, "an ellipse is not longer than its enclosing circle"); sym_le(2*PI*b, L, 1e-6, "an ellipse is not shorter than its inscribed circle");
    sym_near(L, L2, 1e-9, "the magnitude of a curve is its length");
    const EllipseArc<double,3> arc(k.boundingEllipse(), pt(add(r3(o), f.at(r,0,0))), pt(add(r3(o), f.at(r,0,0))));
    sym_near(computeLength(arc), L, 1e-6, "the full arc is as long as its ellipse"); sym_near(computeMagnitude(arc), L, 1e-6, "the full arc is as long as its ellipse");
}
