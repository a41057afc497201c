// C03: containment in boxes, spheres, cylinders, hollow cylinders, cylinder surfaces, disks
#include "geo.hh"
#include <memory>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/disk.hh>
using namespace Frackit;

HARNESS(c03_box)
{
    const double x0 = sym_real("x0",-50,50), y0 = sym_real("y0",-50,50), z0 = sym_real("z0",-50,50);
    const double a = sym_real("a",0.1,50), b = sym_real("b",0.1,50), c = sym_real("c",0.1,50);
    const Box<double> box(x0, y0, z0, x0+a, y0+b, z0+c);
    const P3 p = symPoint("px","py","pz", 120);
    const double eps = sym_real("eps", 1e-6, 5);
    const double u = p.x()-x0, v = p.y()-y0, w = p.z()-z0;
    // exact containment up to the tolerance, axis by axis
    if (sym_bool("in"))
    {
        sym_assume(u > -0.99*eps && u < a+0.99*eps && v > -0.99*eps && v < b+0.99*eps && w > -0.99*eps && w < c+0.99*eps);
        sym_assert(box.contains(p, eps), "box contains every point within the tolerance");
        sym_assume(u >= 0 && u <= a && v >= 0 && v <= b && w >= 0 && w <= c);
        sym_assert(box.contains(p), "box contains every point between its corners (default tolerance)");
    }
    else
    {
        const long k = sym_choice("side", 6);
        sym_assume(k==0 ? u < -1.01*eps : k==1 ? u > a+1.01*eps : k==2 ? v < -1.01*eps : k==3 ? v > b+1.01*eps : k==4 ? w < -1.01*eps : w > c+1.01*eps);
        sym_assert(!box.contains(p, eps), "box excludes every point further out than the tolerance");
        sym_assume(k==0 ? u < -1e-4 : k==1 ? u > a+1e-4 : k==2 ? v < -1e-4 : k==3 ? v > b+1e-4 : k==4 ? w < -1e-4 : w > c+1e-4);
        sym_assert(!box.contains(p), "box excludes every point outside (default tolerance)");
    }
}

HARNESS(c03_sphere)
{
    const P3 c = symPoint("cx","cy","cz"), p = symPoint("px","py","pz");
    const double r = sym_real("r", 0.1, 50), eps = sym_real("eps", 1e-6, 5);
    const Sphere<double> s(c, r);
    const double d2 = sq(sub(r3(p), r3(c)));
    near3(r3(s.center()), r3(c), 0, "sphere centre"); sym_near(s.radius(), r, 0, "sphere radius");
    if (sym_force(d2 <= r*r)) { sym_assert(s.contains(p, eps), "sphere contains its points"); sym_assert(s.contains(p), "sphere contains its points (default tolerance)"); }
    else if (sym_force(d2 > (r+1.01*eps)*(r+1.01*eps))) sym_assert(!s.contains(p, eps), "sphere excludes points further out than the tolerance");
    if (sym_force(d2 > (r+1e-3)*(r+1e-3))) sym_assert(!s.contains(p), "sphere excludes points outside (default tolerance)");
}

// p = base + z*axis + off*(radial unit vector), the radial vector orthogonal to the axis
struct CylPoint { P3 p; double z, off; };
static CylPoint cylPoint(const P3& c, const Frame3& f)
{
    double a[2]; sym_unit2("ang", a);
    const double z = sym_real("z", -60, 60), off = sym_real("off", 0, 60);
    return { pt(add(r3(c), f.at(off*a[0], off*a[1], z))), z, off };
}
template<class C> static void checkSolid(const C& g, const CylPoint& q, double rmin, double rmax, double h, const char* in, const char* out,
                                         const char* ind, const char* outd)
{
    const double eps = sym_real("eps", 1e-4, 2);
    if (sym_force(q.z > 1e-3 && q.z < h - 1e-3 && q.off <= rmax && q.off >= rmin))
    { sym_assert(g.contains(q.p, eps), in); sym_assert(g.contains(q.p), ind); }
    else if (sym_force(q.z < -1.01*eps || q.z > h + 1.01*eps)) sym_assert(!g.contains(q.p, eps), out);
    else if (sym_force(q.off > rmax + 1.01*eps)) sym_assert(!g.contains(q.p, eps), out);
    else if (sym_force(rmin > 0.0 && q.off < rmin && rmin*rmin - q.off*q.off > 1.01*eps*eps)) sym_assert(!g.contains(q.p, eps), out);
    else if (sym_force(q.z < -1e-3 || q.z > h + 1e-3 || q.off > rmax + 1e-3 || (rmin > 0.0 && rmin*rmin - q.off*q.off > 1e-3)))
        sym_assert(!g.contains(q.p), outd);
    else sym_skip();
}

HARNESS(c03_cylinder)
{
    const double r = sym_real("r", 0.1, 40), h = sym_real("h", 0.1, 40), zo = sym_real("zo", -20, 20);
    const Cylinder<double> c(r, h, zo);
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
    checkSolid(c, cylPoint(P3(0,0,zo), f), -1.0, r, h, "cylinder contains its points", "cylinder excludes points further out than the tolerance",
               "cylinder contains its points (default tolerance)", "cylinder excludes points outside (default tolerance)");
}
HARNESS(c03_cylinder_disk)
{
    const P3 c = symPoint("cx","cy","cz", 20);
    const Frame3 f = symFrame("f");
    const double r = sym_real("r", 0.1, 40), h = sym_real("h", 0.1, 40);
    const Cylinder<double> g(Disk<double>(c, dir(f.u), dir(f.v), r, r), h);
    checkSolid(g, cylPoint(c, f), -1.0, r, h, "oriented cylinder contains its points", "oriented cylinder excludes points further out than the tolerance",
               "oriented cylinder contains its points (default tolerance)", "oriented cylinder excludes points outside (default tolerance)");
}
HARNESS(c03_hollow)
{
    const double r = sym_real("r", 0.1, 40), t = sym_real("t", 0.1, 20), h = sym_real("h", 0.1, 40);
    const HollowCylinder<double> c(r, r+t, h);
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
    checkSolid(c, cylPoint(P3(0,0,0), f), r, r+t, h, "hollow cylinder contains its points", "hollow cylinder excludes points further out than the tolerance",
               "hollow cylinder contains its points (default tolerance)", "hollow cylinder excludes points outside (default tolerance)");
}
HARNESS(c03_hollow_axis)
{
    const P3 c = symPoint("cx","cy","cz", 20);
    const Frame3 f = symFrameZ("f");           // axis f.u in the x-y-plane
    const Frame3 g{f.v, f.w, f.u};
    const double r = sym_real("r", 0.1, 40), t = sym_real("t", 0.1, 20), h = sym_real("h", 0.1, 40);
    if (sym_force(f.u.x == 0.0 || f.u.y == 0.0)) sym_skip();
    sym_assume(f.u.x*f.u.x > 0.01);
    const HollowCylinder<double> hc(c, dir(f.u), r, r+t, h);
    checkSolid(hc, cylPoint(c, g), r, r+t, h, "oriented hollow cylinder contains its points", "oriented hollow cylinder excludes points further out than the tolerance",
               "oriented hollow cylinder contains its points (default tolerance)", "oriented hollow cylinder excludes points outside (default tolerance)");
}
// axes of every inclination: in a coordinate plane, and (skew) in none of them
static void tilted(const Frame3& g, bool solid)
{
    const P3 c = symPoint("cx","cy","cz", 20);
    const double r = sym_real("r", 0.1, 40), t = sym_real("t", 0.1, 20), h = sym_real("h", 0.1, 40);
    if (!solid) checkSolid(HollowCylinder<double>(c, dir(g.w), r, r+t, h), cylPoint(c, g), r, r+t, h, "oriented hollow cylinder contains its points", "oriented hollow cylinder excludes points further out than the tolerance",
               "oriented hollow cylinder contains its points (default tolerance)", "oriented hollow cylinder excludes points outside (default tolerance)");
    else checkSolid(Cylinder<double>(Circle<double,3>(c, dir(g.w), r), h), cylPoint(c, g), -1.0, r, h, "oriented cylinder contains its points", "oriented cylinder excludes points further out than the tolerance",
               "oriented cylinder contains its points (default tolerance)", "oriented cylinder excludes points outside (default tolerance)");
}
HARNESS(c03_tilt)
{
    double q[2]; sym_unit2("tilt", q);
    const bool xz = sym_bool("xz");
    if (sym_force(q[0]*q[0] < 1e-6)) sym_skip();
    tilted(xz ? Frame3{{0,1,0},{-q[1],0,q[0]},{q[0],0,q[1]}} : Frame3{{1,0,0},{0,q[1],-q[0]},{0,q[0],q[1]}}, sym_bool("solid"));
}
HARNESS(c03_skew)
{
    const Frame3 f = symFrame("f");
    if (sym_force(f.w.x == 0.0 || f.w.y == 0.0 || f.w.z == 0.0)) sym_skip();
    sym_assume(f.w.x*f.w.x + f.w.y*f.w.y > 0.01);
    tilted(f, sym_bool("solid"));
}
HARNESS(c03_surface)
{
    const double r = sym_real("r", 1.0, 40), h = sym_real("h", 0.1, 40);
    const CylinderSurface<double> c(r, h);
    const Frame3 f{{1,0,0},{0,1,0},{0,0,1}};
    const CylPoint q = cylPoint(P3(0,0,0), f);
    const double eps = sym_real("eps", 1e-4, 0.5);
    if (sym_force(q.z > 1e-3 && q.z < h - 1e-3 && q.off > r - 0.99*eps && q.off < r + 0.99*eps)) sym_assert(c.contains(q.p, eps), "cylinder surface contains points within the tolerance");
    else if (sym_force(q.z < -1.01*eps || q.z > h + 1.01*eps)) sym_assert(!c.contains(q.p, eps), "cylinder surface excludes points beyond its ends");
    else if (sym_force(q.off > r + 1.01*eps || q.off < r - 1.01*eps)) sym_assert(!c.contains(q.p, eps), "cylinder surface excludes points off the surface");
    else sym_skip();
    if (sym_force(q.off > r + 1e-3 || q.off < r - 1e-3)) sym_assert(!c.contains(q.p), "cylinder surface excludes points off the surface (default tolerance)");
}
HARNESS(c03_surface_on)
{
    const double r = sym_real("r", 1.0, 40), h = sym_real("h", 0.1, 40), z = sym_real("z", 0, 40);
    sym_assume(z > 1e-3 && z < h - 1e-3);
    const CylinderSurface<double> c(r, h);
    double a[2]; sym_unit2("ang", a);
    sym_assert(c.contains(P3(r*a[0], r*a[1], z)), "cylinder surface contains its points (default tolerance)");
}

// disk: semi axes a (major) and b (minor); point given in the disk's own coordinates
HARNESS(c03_disk)
{
    const P3 c = symPoint("cx","cy","cz", 20);
    const Frame3 f = symFrame("f");
    const double a = sym_real("a", 0.5, 20), b = sym_real("b", 0.5, 20);
    const Disk<double> d(c, dir(f.u), dir(f.v), a, b);
    const double x = sym_real("x", -30, 30), y = sym_real("y", -30, 30), z = sym_real("z", -5, 5);
    const P3 p = pt(add(r3(c), f.at(x, y, z)));
    const double eps = sym_real("eps", 1e-4, 0.5);
    const double e = x*x/(a*a) + y*y/(b*b);
    if (sym_force(z > 1.01*eps || z < -1.01*eps)) sym_assert(!d.contains(p, eps), "disk excludes points off its plane");
    else if (sym_force(z < 0.99*eps && z > -0.99*eps))
    {
        if (sym_force(e <= 1.0)) sym_assert(d.contains(p, eps), "disk contains points inside its ellipse");
        else if (sym_force(e > 1.0 + 1.01*eps*eps)) sym_assert(!d.contains(p, eps), "disk excludes points outside its ellipse");
        else sym_skip();
    }
    else sym_skip();
    if (sym_force(e > 1.0001)) { sym_assert(!d.contains(p), "disk excludes points outside its ellipse (default tolerance)");
                       sym_assert(!d.contains(p, false), "disk without plane check still excludes points outside its ellipse"); }
    else if (sym_force(e <= 1.0)) sym_assert(d.contains(p, false), "disk without plane check contains points inside its ellipse");
    if (sym_force(z > 1e-3)) sym_assert(!d.contains(p), "disk excludes points off its plane (default tolerance)");
}
HARNESS(c03_disk_in)
{
    const P3 c = symPoint("cx","cy","cz", 20);
    const Frame3 f = symFrame("f");
    const double a = sym_real("a", 0.5, 20), b = sym_real("b", 0.5, 20);
    const Disk<double> d(c, dir(f.u), dir(f.v), a, b);
    const double x = sym_real("x", -30, 30), y = sym_real("y", -30, 30);
    sym_assume(x*x/(a*a) + y*y/(b*b) <= 1.0);
    sym_assert(d.contains(pt(add(r3(c), f.at(x, y, 0.0)))), "disk contains points inside its ellipse (default tolerance)");
}
