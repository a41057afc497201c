// C21: the angle in which faces intersect: that of their tangent planes at the place of the intersection
#include "geo.hh"
#include <variant>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/intersection/intersectionangle.hh>
using namespace Frackit;
using K3 = Disk<double>;
static const IntersectionAngle<double> engine;
static void is(double a, double c, const char* l)
{
    if (c < 0) c = -c;
    sym_le(0.0, a, 1e-9, "the angle is not negative");
    sym_le(a, 1.5707963267949, 1e-9, "the angle is an acute or right one");
    sym_near(std::cos(a), c, 1e-6, l);
}
// a surface known at one point only
class At : public Geom_Surface
{
public:
    gp_Pnt p; double u, v; gp_Vec d1, d2;
    bool Parameters(const gp_Pnt& x, double& a, double& b, double& dist) const override
    {
        sym_assert((x.X() == p.X()) & (x.Y() == p.Y()) & (x.Z() == p.Z()), "the place on the surface is looked up for the intersection point");
        a = u; b = v; dist = 0; return true;
    }
    void D1(double a, double b, gp_Pnt& x, gp_Vec& du, gp_Vec& dv) const override
    {
        sym_assert((a == u) & (b == v), "the tangents are those at the intersection point");
        x = p; du = d1; dv = d2;
    }
};
static TopoDS_Face faceOn(Geom_Surface* s) { auto f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER); f.n->surface = s; return f; }
static At* at(const P3& p, R3 d1, R3 d2, const char* u, const char* v)
{ auto s = new At; s->p = gp_Pnt(p.x(), p.y(), p.z()); s->u = sym_real(u, -50, 50); s->v = sym_real(v, -50, 50); s->d1 = gp_Vec(d1.x, d1.y, d1.z); s->d2 = gp_Vec(d2.x, d2.y, d2.z); return s; }
// how the intersection is given
template<class A, class B, class X> static double ask(const A& a, const B& b, const X& x)
{
    using V = std::variant<TopoDS_Face, X>;
    const long k = sym_choice("as", 3);
    if (k == 0) return engine(a, b, x);
    if (k == 1) return engine(a, b, V(x));
    return engine(a, b, std::vector<V>{V(x)});
}
HARNESS(c21_face_point)
{
    const P3 p = symPoint("x","y","z", 20);
    double t[2]; sym_unit2("opening", t);
    const Frame3 f = symFrameZ("f");
    const double a = sym_real("a", 0.1, 9), b = sym_real("b", 0.1, 9), sh = sym_real("shear", -3, 3);
    const R3 d1 = mul(f.u, a), d2 = add(mul(f.v, b), mul(f.u, sh));            // tangents of the first face, not orthogonal, any length
    const R3 e1 = mul(f.at(0, t[0], t[1]), a), e2 = add(mul(f.u, b), mul(e1, sh));
    const TopoDS_Face one = faceOn(at(p, d1, d2, "u1", "v1")), two = faceOn(at(p, e1, e2, "u2", "v2"));
    const K3 disk(p, dir(f.u), dir(f.v), 3, 2);
    const long k = sym_choice("pair", 4);
    const double x = k == 0 ? ask(one, two, p) : k == 1 ? ask(two, one, p) : k == 2 ? ask(disk, two, p) : ask(two, disk, p);
    is(x, t[0], "faces touch in the angle between their tangent planes");
}
// a surface over the xy-plane whose slope is smallest at x = k
class Slope : public Geom_Surface
{
public:
    double m, g, k, off; bool flat;
    bool Parameters(const gp_Pnt& x, double& a, double& b, double& dist) const override { a = 2.0*x.X() + off; b = x.Y() - 1.0; dist = 0; return true; }
    void D1(double a, double b, gp_Pnt& x, gp_Vec& du, gp_Vec& dv) const override
    {
        const double X = 0.5*(a - off);
        double d = X - k; if (d < 0) d = -d;
        x = gp_Pnt(X, b + 1.0, 0); du = gp_Vec(0.5, 0, 0); dv = gp_Vec(0, 1, flat ? 0.0 : m + g*d);
    }
};
HARNESS(c21_face_edge)
{
    const double off = sym_real("off", -5, 5), y = sym_real("y", -9, 9);
    const long k = sym_choice("smallest", 5); const bool flip = sym_bool("flip");
    auto s = new Slope, z = new Slope;
    s->m = sym_real("m", 0.1, 2); s->g = 0.25; s->k = 2.0*k; s->off = off; s->flat = false;
    *z = *s; z->flat = true; z->off = sym_real("off2", -5, 5);
    const TopoDS_Face one = faceOn(s), two = faceOn(z);
    const K3 disk(P3(4, y, 0), D3(V3(1,0,0)), D3(V3(0,1,0)), 9, 9);
    const gp_Pnt a(0, y, 0), b(8, y, 0);
    const TopoDS_Edge e = flip ? occ::lineEdge(b, a) : occ::lineEdge(a, b);
    const long w = sym_choice("pair", 4);
    const double x = w == 0 ? ask(one, two, e) : w == 1 ? ask(two, one, e) : w == 2 ? ask(disk, one, e) : ask(one, disk, e);
    const double c = std::cos(x);
    sym_le(0.0, x, 1e-9, "the angle is not negative"); sym_le(x, 1.5707963267949, 1e-9, "the angle is an acute or right one");
    sym_near(c*c*(1 + s->m*s->m), 1, 1e-6, "the smallest angle at the ends, the middle and the quarters of the edge");
}
HARNESS(c21_face_face)
{
    const P3 p = symPoint("x","y","z", 20);
    double t[2]; sym_unit2("opening", t); sym_assume(t[0] > 0);
    const R3 d1{1,0,0}, d2{0,1,0}, e1{0,t[0],t[1]};
    const TopoDS_Face one = faceOn(at(p, d1, d2, "u1", "v1")), two = faceOn(at(p, d1, e1, "u2", "v2")), common = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER);
    const K3 disk(p, D3(V3(1,0,0)), D3(V3(0,1,0)), 3, 2);
    const long k = sym_choice("pair", 3);
    const double x = k == 0 ? engine(one, two, common) : k == 1 ? engine(disk, two, common) : engine(two, disk, common);
    sym_assert(x == 0.0, "geometries that share a face enclose no angle");
    using V = std::variant<P3, TopoDS_Face>;
    const double m = k == 0 ? engine(one, two, std::vector<V>{V(p), V(common)}) : k == 1 ? engine(disk, two, std::vector<V>{V(common), V(p)}) : engine(two, disk, std::vector<V>{V(p), V(common)});
    sym_assert(m == 0.0, "the smallest of several angles");
    const double q = engine(disk, two, std::vector<P3>{p, p});
    is(q, t[0], "the smallest of several angles");
}
