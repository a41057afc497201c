// C11: intersections of cylinder surfaces with disks, quadrilaterals and polygons
#include "geo.hh"
#include <variant>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/geometry/cylindersurface.hh>
using namespace Frackit;
using S3 = Segment<double,3>;
using K3 = Disk<double>;
using Q3 = Quadrilateral<double,3>;
using G3 = Polygon<double,3>;
using C3 = Circle<double,3>;
using E3 = Ellipse<double,3>;
using A3 = EllipseArc<double,3>;
using CS = CylinderSurface<double>;
template<class T, class V> static const T* alt(const V& v) { return std::get_if<T>(&v); }
template<class V> static bool isEmpty(const V& v) { return v.size() == 1 && alt<EmptyIntersection<3>>(v[0]) != nullptr; }

// a plane through the point c of the axis of a cylinder around o, spanned by e1 (steepest) and e2
struct Setup { Frame3 f; R3 o; double r, h, eps; R3 c, e1, e2, n; double A; };
static Frame3 axis(bool turned)
{
    double p[2] = {0, 1}, q[2];
#ifdef THOROUGH
    const long k = sym_choice("axis", 3); turned = true;
    if (k == 2) sym_unit2("axis", p);
#else
    const long k = sym_choice("axis", 2);
#endif
    if (turned) sym_unit2("turn", q); else { q[0] = sym_bool("turn") ? 0 : 1; q[1] = 1 - q[0]; }
    const R3 w = k == 1 ? R3{1,0,0} : R3{0,p[0],p[1]}, a = k == 1 ? R3{0,1,0} : R3{1,0,0}, b = cross(w, a);
    return Frame3{add(mul(a, q[0]), mul(b, q[1])), add(mul(a, -q[1]), mul(b, q[0])), w};
}
static CS surface(const Setup& s) { return CS(C3(pt(s.o), dir(s.f.w), s.r), s.h); }
static Setup setup(bool parallel, bool turned = false)
{
    Setup s;
    s.f = axis(turned); s.o = r3(symPoint("ox","oy","oz", 10));
    // sizes whose sections have exact coordinates
    s.r = 300; s.h = 2000; s.eps = sym_real("eps", 1e-6, 1e-4);
    const double z = sym_real("z", 900, 1100);
    s.c = add(s.o, mul(s.f.w, z));
    static const double C[4] = {1.0, 0.8, 0.6, 0.8}, S[4] = {0.0, 0.6, 0.8, -0.6};
    const long k = parallel ? 0 : sym_choice("tilt", 4);
    if (parallel) { s.e1 = s.f.w; s.e2 = s.f.v; s.n = s.f.u; s.A = 0; return s; }
    s.A = s.r/C[k];
    s.e1 = s.f.at(C[k], 0, S[k]); s.e2 = s.f.v; s.n = cross(s.e1, s.e2);
    return s;
}
// extent of the faces: free only in the thorough tier (areas and centres of free faces bring in many square roots)
static void size(double& X, double& Y)
{
#ifdef THOROUGH
    X = sym_real("X", 600, 900); Y = sym_real("Y", 400, 900);
#else
    X = sym_bool("big") ? 900 : 600; Y = X;
#endif
}
static R3 on(const Setup& s, double x, double y) { return add(s.c, add(mul(s.e1, x), mul(s.e2, y))); }

// ---- what OpenCascade finds in a scenario
#ifdef OCCFAKE_HXX
static gp_Pnt gp(R3 a) { return gp_Pnt(a.x, a.y, a.z); }
// the part of the ellipse of the setup on the positive side of a line of its plane: sx*x + sy*y >= k
class ArcCurve : public Geom_Curve
{
    Setup s; double sx, sy, k; gp_Pnt t0, t1;
public:
    ArcCurve(const Setup& s_, double a, double b, double c, gp_Pnt p, gp_Pnt q) : s(s_), sx(a), sy(b), k(c), t0(p), t1(q) {}
    double FirstParameter() const override { return 0; }
    double LastParameter() const override { return 1; }
    double DistanceTo(const gp_Pnt& p) const override
    {
        const R3 d = sub(R3{p.X(), p.Y(), p.Z()}, s.c);
        const double x = dot(d, s.e1), y = dot(d, s.e2), z = dot(d, s.n);
        const double off = x*x/(s.A*s.A) + y*y/(s.r*s.r) - 1.0;
        if (sx*x + sy*y >= k)
        {
            if (z < 1e-5 && z > -1e-5 && off < 1e-5 && off > -1e-5) return 0.0;
            return s.r;                                     // off the curve, further than any tolerance here
        }
        const double a = p.Distance(t0), b = p.Distance(t1);
        return a < b ? a : b;
    }
};
static struct { std::vector<TopoDS_Shape> inside, outer, on, cut; bool active; } scn;
static TopoDS_Shape wireOf(const std::vector<TopoDS_Shape>& e, bool closed)
{ auto w = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); w.n->kids = e; w.n->closed = closed; return w; }
static TopoDS_Shape faceOf(const std::vector<TopoDS_Shape>& e)
{ auto f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_FACE); f.n->kids.push_back(wireOf(e, true)); return f; }
static TopoDS_Shape lineOf(R3 a, R3 b) { return occ::lineEdge(gp(a), gp(b)); }
static TopoDS_Shape arcOf(const Setup& s, R3 a, R3 b, double sx, double sy, double k)
{
    auto e = occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_ELLIPSE);
    e.n->kids.push_back(occ::vertex(gp(a))); e.n->kids.push_back(occ::vertex(gp(b)));
    e.n->curve = new ArcCurve(s, sx, sy, k, gp(a), gp(b)); e.n->u1 = 1;
    return e;
}
static bool everywhere(const TopoDS_Shape&, double* b) { for (int i = 0; i < 3; ++i) { b[i] = -1e5; b[i+3] = 1e5; } return true; }
static void answer(occ::Op op, const std::vector<TopoDS_Shape>& a, const std::vector<TopoDS_Shape>& t, double fuzzy, occ::Result& r)
{
    if (a.size() != 1 || t.size() != 1 || !(fuzzy > 0)) { occ::unmodelled("boolean operation"); return; }
    const auto k = a[0].n->kind, l = t[0].n->kind;
    if (op == occ::COMMON && k == occ::K_FACE && l == occ::K_CYLINDER) r.shape = occ::compound(scn.inside);
    else if (op == occ::COMMON && k == occ::K_WIRE && l == occ::K_CYLFACE)
    {
        bool part = false;
        for (const auto& f : scn.inside) for (const auto& w : f.n->kids) if (w.IsSame(a[0])) part = true;
        r.shape = occ::compound(part ? scn.on : scn.outer);
    }
    else if (op == occ::CUT && k == occ::K_WIRE && l == occ::K_CYLFACE)
    {
        std::vector<TopoDS_Shape> e = a[0].n->kids;
        for (const auto& x : scn.cut) e.push_back(x);
        r.shape = occ::compound(e);
    }
    else occ::unmodelled("boolean operation");
}
static void begin() { occ::boolean = answer; occ::bounds = everywhere; scn.inside.clear(); scn.outer.clear(); scn.on.clear(); scn.cut.clear(); }
#endif

using IS = Intersection<CS, Q3>;
// the result as points, segments, arcs and ellipses
struct Parts { std::vector<P3> p; std::vector<S3> s; std::vector<A3> a; std::vector<E3> e; bool empty = false; };
template<class V> static Parts parts(const V& is)
{
    Parts r;
    for (const auto& v : is)
        std::visit([&r] (const auto& g)
        {
            using T = std::decay_t<decltype(g)>;
            if constexpr (std::is_same_v<T, P3>) r.p.push_back(g);
            else if constexpr (std::is_same_v<T, S3>) r.s.push_back(g);
            else if constexpr (std::is_same_v<T, A3>) r.a.push_back(g);
            else if constexpr (std::is_same_v<T, E3>) r.e.push_back(g);
            else r.empty = true;
        }, v);
    return r;
}
// (polygons only where the root of their characteristic length is rational)
// face with the given corners (counter-clockwise) as quadrilateral or polygon, in either order of the arguments
static Parts meet(const Setup& s, const R3* c, bool both)
{
    const CS cyl = surface(s);
    const bool swap = sym_bool("swap");
    if (both && sym_bool("polygon"))
    {
        const G3 g(std::vector<P3>{pt(c[0]), pt(c[1]), pt(c[2]), pt(c[3])});
        return swap ? parts(intersect(g, cyl, s.eps)) : parts(intersect(cyl, g, s.eps));
    }
    const Q3 q(pt(c[0]), pt(c[1]), pt(c[3]), pt(c[2]));
    return swap ? parts(intersect(q, cyl, s.eps)) : parts(intersect(cyl, q, s.eps));
}
static void rect(const Setup& s, double x0, double x1, double y0, double y1, R3* c) { c[0] = on(s, x0, y0); c[1] = on(s, x1, y0); c[2] = on(s, x1, y1); c[3] = on(s, x0, y1); }
static void theEllipse(const Setup& s, const Parts& p)
{
    const char* L = "a face that covers the cross section of a cylinder meets its surface in the whole ellipse";
    sym_assert(p.e.size() == 1 && p.p.empty() && p.s.empty() && p.a.empty() && !p.empty, L);
    if (p.e.size() != 1) return;
    const E3& e = p.e[0];
    const R3 d = sub(r3(e.center()), s.c);
    sym_near(dot(d, s.e1), 0, 1e-3, L); sym_near(dot(d, s.e2), 0, 1e-3, L); sym_near(dot(d, s.n), 0, 1e-3, L);
    sym_near(e.majorAxisLength(), s.A, 1e-3, L); sym_near(e.minorAxisLength(), s.r, 1e-3, L);
    sym_near(dot(r3(e.majorAxis()), s.n), 0, 1e-3, L); sym_near(dot(r3(e.minorAxis()), s.n), 0, 1e-3, L);
    if (s.A > s.r) { sym_near(dot(r3(e.majorAxis()), s.e2), 0, 1e-3, L); sym_near(dot(r3(e.minorAxis()), s.e1), 0, 1e-3, L); }
}
HARNESS(c11_ellipse)
{
    const Setup s = setup(false, true);
    R3 c[4];
    double X, Y; size(X, Y);
    const double dx = sym_bool("moved") ? 75 : 0, dy = dx;
    rect(s, -X+dx, X+dx, -Y+dy, Y+dy, c);
#ifdef OCCFAKE_HXX
    begin();
    const auto e = occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_ELLIPSE);
    const auto v = occ::vertex(gp(on(s, s.A, 0)));
    e.n->kids.push_back(v); e.n->kids.push_back(v); e.n->closed = true;
    scn.inside.push_back(faceOf({e})); scn.on.push_back(wireOf({e}, true));
#endif
    theEllipse(s, meet(s, c, true));
}
HARNESS(c11_disk_ellipse)
{
    // a disk that covers the cross section, or just fills it
    const Setup s = setup(false, true);
    const double g = sym_bool("fills") ? 1.0 : 2.0;
    const K3 d = g == 1.0 ? K3(pt(s.c), dir(s.e1), dir(s.e2), s.A, s.r) : K3(pt(on(s, 50, -30)), dir(s.e2), dir(mul(s.e1, -1.0)), 1200, 1000);
#ifdef OCCFAKE_HXX
    begin();
    const auto e = occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_ELLIPSE);
    const auto v = occ::vertex(gp(on(s, s.A, 0)));
    e.n->kids.push_back(v); e.n->kids.push_back(v); e.n->closed = true;
    scn.inside.push_back(faceOf({e})); scn.on.push_back(wireOf({e}, true));
#endif
    theEllipse(s, sym_bool("swap") ? parts(intersect(d, surface(s), s.eps)) : parts(intersect(surface(s), d, s.eps)));
}
static bool local(const Setup& s, R3 p, double x, double y, double tol)
{
    const R3 d = sub(p, s.c);
    const double a = dot(d, s.e1) - x, b = dot(d, s.e2) - y, c = dot(d, s.n);
    return a < tol && a > -tol && b < tol && b > -tol && c < tol && c > -tol;
}
HARNESS(c11_arc)
{
    // the face ends in a line across the cross section
    const Setup s = setup(false);
    static const double N[3] = {15, -7, 0}, M[3] = {20, 24, 25};
    const long k = sym_choice("cut", 3), side = sym_choice("side", 4);
    double X, Y; size(X, Y);
    // three chords of the unit circle, in 25ths
    const double CA = N[k]*s.A/25, DA = M[k]*s.A/25, CR = N[k]*s.r/25, DR = M[k]*s.r/25;
    R3 c[4]; double t[4], m[2], sx = 0, sy = 0;
    if (side == 0) { sx = 1;  rect(s, CA, X, -Y, Y, c);  t[0] = CA;  t[1] = -DR; t[2] = CA;  t[3] = DR;  m[0] = s.A;  m[1] = 0; }
    if (side == 1) { sx = -1; rect(s, -X, -CA, -Y, Y, c); t[0] = -CA; t[1] = DR; t[2] = -CA; t[3] = -DR; m[0] = -s.A; m[1] = 0; }
    if (side == 2) { sy = 1;  rect(s, -X, X, CR, Y, c);  t[0] = DA;  t[1] = CR;  t[2] = -DA; t[3] = CR;  m[0] = 0; m[1] = s.r; }
    if (side == 3) { sy = -1; rect(s, -X, X, -Y, -CR, c); t[0] = -DA; t[1] = -CR; t[2] = DA; t[3] = -CR; m[0] = 0; m[1] = -s.r; }
#ifdef OCCFAKE_HXX
    begin();
    const R3 p = on(s, t[0], t[1]), q = on(s, t[2], t[3]);
    const auto line = lineOf(p, q), arc = sym_bool("sense") ? arcOf(s, p, q, sx, sy, (sx != 0 ? CA : CR)) : arcOf(s, q, p, sx, sy, (sx != 0 ? CA : CR));
    scn.inside.push_back(faceOf({line, arc})); scn.on.push_back(wireOf({arc}, false)); scn.cut.push_back(line);
#else
    sym_bool("sense");
#endif
    const Parts r = meet(s, c, false);
    const char* L = "a face that covers part of the cross section meets the surface in that arc";
    sym_assert(r.a.size() == 1 && r.p.empty() && r.s.empty() && r.e.empty() && !r.empty, L);
    if (r.a.size() != 1) return;
    const A3& a = r.a[0];
    sym_assert(local(s, r3(a.getPoint(0)), t[0], t[1], 1e-3) && local(s, r3(a.getPoint(1)), t[2], t[3], 1e-3), L);
    sym_assert(local(s, r3(a.getPoint(0.5)), m[0], m[1], 1e-3), L);
}
HARNESS(c11_strip)
{
    // a strip across the cross section: two arcs
    const Setup s = setup(false);
    double X, Y; size(X, Y);
    const double x = 4*s.A/5, y = 3*s.r/5;
    R3 c[4]; rect(s, -X, X, -y, y, c);
#ifdef OCCFAKE_HXX
    begin();
    const R3 p0 = on(s, x, -y), p1 = on(s, x, y), p2 = on(s, -x, y), p3 = on(s, -x, -y);
    const auto l0 = lineOf(p3, p0), l1 = lineOf(p1, p2), a0 = arcOf(s, p0, p1, 1, 0, x), a1 = sym_bool("sense") ? arcOf(s, p2, p3, -1, 0, x) : arcOf(s, p3, p2, -1, 0, x);
    scn.inside.push_back(faceOf({l0, a0, l1, a1})); scn.on.push_back(wireOf({a0}, false)); scn.on.push_back(wireOf({a1}, false)); scn.cut.push_back(l0); scn.cut.push_back(l1);
#else
    sym_bool("sense");
#endif
    const Parts r = meet(s, c, false);
    const char* L = "a strip across the cross section meets the surface in two arcs";
    sym_assert(r.a.size() == 2 && r.p.empty() && r.s.empty() && r.e.empty() && !r.empty, L);
    if (r.a.size() != 2) return;
    const bool first = local(s, r3(r.a[0].getPoint(0.5)), s.A, 0, 1e-3);
    const A3 &a = r.a[first ? 0 : 1], &b = r.a[first ? 1 : 0];
    sym_assert(local(s, r3(a.getPoint(0.5)), s.A, 0, 1e-3) && local(s, r3(b.getPoint(0.5)), -s.A, 0, 1e-3), L);
    sym_assert(local(s, r3(a.getPoint(0)), x, -y, 1e-3) && local(s, r3(a.getPoint(1)), x, y, 1e-3), L);
    sym_assert(local(s, r3(b.getPoint(0)), -x, y, 1e-3) && local(s, r3(b.getPoint(1)), -x, -y, 1e-3), L);
}
// local coordinates of a face parallel to the axis: x along the axis from the base, y across
static Setup upright(double d)
{
    Setup s = setup(true);
    s.c = add(s.o, mul(s.f.u, d));
    return s;
}
static bool isSeg(const Setup& s, const S3& g, double x0, double x1, double y)
{
    return (local(s, r3(g.source()), x0, y, 1e-3) && local(s, r3(g.target()), x1, y, 1e-3)) || (local(s, r3(g.source()), x1, y, 1e-3) && local(s, r3(g.target()), x0, y, 1e-3));
}
HARNESS(c11_upright)
{
    static const double D[4] = {180, -240, 0, -84}, W[4] = {240, 180, 300, 288};
    const long k = sym_choice("cut", 4);
    const Setup s = upright(D[k]);
    const double x0 = sym_real("x0", -900, 1900), x1 = sym_real("x1", 100, 2900); sym_assume(x1 > x0 + 1);
    sym_assume(x0 > 0.1 || x0 < -0.1); sym_assume(x1 > 2000.1 || x1 < 1999.9);
    const bool half = sym_bool("half");                    // the face ends on the way
    double X, Y; size(X, Y);
    const double y0 = half ? (sym_bool("beyond") ? 50 : -75) : -Y;
    R3 c[4]; rect(s, x0, x1, y0, Y, c);
    const double lo = x0 > 0 ? x0 : 0, hi = x1 < 2000 ? x1 : 2000, w = W[k];
#ifdef OCCFAKE_HXX
    begin();
    const auto right = lineOf(on(s, lo, w), on(s, hi, w)), left = lineOf(on(s, hi, half ? y0 : -w), on(s, lo, half ? y0 : -w));
    const auto bottom = lineOf(on(s, lo, half ? y0 : -w), on(s, lo, w)), top = lineOf(on(s, hi, w), on(s, hi, half ? y0 : -w));
    scn.inside.push_back(faceOf({bottom, right, top, left})); scn.on.push_back(wireOf({right}, false));
    if (!half) scn.on.push_back(wireOf({left}, false));
    if (x0 > 0) scn.cut.push_back(bottom);
    if (x1 < 2000) scn.cut.push_back(top);
#endif
    const Parts r = meet(s, c, false);
    const char* L = "a face parallel to the axis of a cylinder meets its surface in the lines it covers";
    sym_assert(r.s.size() == (half ? 1 : 2) && r.p.empty() && r.a.empty() && r.e.empty() && !r.empty, L);
    if (half) { if (r.s.size() == 1) sym_assert(isSeg(s, r.s[0], lo, hi, w), L); }
    else if (r.s.size() == 2) sym_assert((isSeg(s, r.s[0], lo, hi, w) && isSeg(s, r.s[1], lo, hi, -w)) || (isSeg(s, r.s[1], lo, hi, w) && isSeg(s, r.s[0], lo, hi, -w)), L);
}
HARNESS(c11_touch)
{
    // outside, touching along an edge of the face or in one of its corners; inside, touching in a corner; not touching
    const long kind = sym_choice("kind", 4);
    const Setup s = upright(0);
    R3 c[4];
    const double x = sym_real("x", 100, 1900), l = sym_real("l", 0.5, 90), y = s.r;
    if (kind == 0) { const double x1 = x + l; sym_assume(x1 < 1999); rect(s, x, x1, y, y + l, c); }
    else if (kind == 1) { c[0] = on(s, x, y); c[1] = on(s, x - l, y + l); c[2] = on(s, x, y + 2*l); c[3] = on(s, x + l, y + l); }
    else if (kind == 2) { const double m = l/2; c[0] = on(s, x, y); c[1] = on(s, x + m, y - m); c[2] = on(s, x, y - l); c[3] = on(s, x - m, y - m); }
    else { const double gap = sym_real("gap", 0.01, 300); c[0] = on(s, x, y + gap); c[1] = on(s, x - l, y + gap + l); c[2] = on(s, x, y + gap + 2*l); c[3] = on(s, x + l, y + gap + l); }
#ifdef OCCFAKE_HXX
    begin();
    if (kind == 0) scn.outer.push_back(wireOf({lineOf(c[1], c[0])}, false));
    if (kind == 2) scn.inside.push_back(faceOf({lineOf(c[0], c[1]), lineOf(c[1], c[2]), lineOf(c[2], c[3]), lineOf(c[3], c[0])}));
#endif
    const Parts r = meet(s, c, false);
    if (kind == 0)
    {
        const char* L = "a face that touches the surface along an edge meets it there";
        sym_assert(r.s.size() == 1 && r.p.empty() && r.a.empty() && r.e.empty() && !r.empty, L);
        if (r.s.size() == 1) sym_assert(isSeg(s, r.s[0], x, x + l, y), L);
    }
    else if (kind == 3) sym_assert(r.empty && r.p.empty() && r.s.empty() && r.a.empty() && r.e.empty(), "a face off the surface does not intersect it");
    else
    {
        const char* L = "a face that touches the surface in a corner meets it in that one point";
        sym_assert(r.p.size() == 1 && r.s.empty() && r.a.empty() && r.e.empty() && !r.empty, L);
        if (r.p.size() == 1) sym_assert(local(s, r3(r.p[0]), x, y, 1e-3), L);
    }
}
HARNESS(c11_inside)
{
    // a face within the cylinder that does not reach its surface
    const Setup s = setup(false, true);
    const double l = sym_real("l", 0.2, 180);
    R3 c[4]; rect(s, -l, l, -l, l, c);
#ifdef OCCFAKE_HXX
    begin();
    scn.inside.push_back(faceOf({lineOf(c[0], c[1]), lineOf(c[1], c[2]), lineOf(c[2], c[3]), lineOf(c[3], c[0])}));
#endif
    const Parts r = meet(s, c, false);
    sym_assert(r.empty && r.p.empty() && r.s.empty() && r.a.empty() && r.e.empty(), "a face within the cylinder that does not reach its surface does not intersect it");
}
HARNESS(c11_apart)
{
    // apart in some direction by more than the tolerance: nothing, whatever the kind of face
    const long dirn = sym_choice("dir", 6), kind = sym_choice("kind", 3);
    const R3 o = r3(symPoint("ox","oy","oz", 10));
    const double gap = sym_real("gap", 0.01, 5), eps = sym_real("eps", 1e-6, 1e-4);
    const CS cyl(C3(pt(o), D3(V3(0.0,0.0,1.0)), 2), 5);
    static const double lo[3] = {-2, -2, 0}, hi[3] = {2, 2, 5};
    const int k = int(dirn/2);
    double m[3] = {0, 0, 1};
    m[k] = dirn % 2 ? hi[k] + gap + 1 : lo[k] - gap - 1;
    const R3 c = add(o, R3{m[0], m[1], m[2]});
    const R3 a{1,0,0}, b{0,0,1};
    bool none = false;
    const P3 p[4] = {pt(add(c, sub(mul(a,-1.0), b))), pt(add(c, sub(a, b))), pt(add(c, add(a, b))), pt(add(c, sub(b, a)))};
    if (kind == 0) none = isEmpty(intersect(cyl, Q3(p[0], p[1], p[3], p[2]), eps));
    if (kind == 1) none = isEmpty(intersect(cyl, G3(std::vector<P3>{p[0], p[1], p[2], p[3]}), eps));
    if (kind == 2) none = isEmpty(intersect(cyl, K3(pt(c), dir(a), dir(b), 1, 1), eps));
    sym_assert(none, "a face apart from the surface does not intersect it");
}
HARNESS(c11_refuse)
{
    const R3 o = r3(symPoint("ox","oy","oz", 10));
    const double eps = sym_real("eps", 1e-6, 1e-4);
    const CS cyl(C3(pt(o), D3(V3(0.0,0.0,1.0)), 2), 5);
    bool thrown = false;
    const P3 p[4] = {pt(add(o, R3{-4,-4,1})), pt(add(o, R3{4,-4,1})), pt(add(o, R3{-2,-2,1})), pt(add(o, R3{-4,4,1}))};
    try { if (sym_bool("polygon")) intersect(cyl, G3(std::vector<P3>{p[0], p[1], p[2], p[3]}), eps); else intersect(Q3(p[0], p[1], p[3], p[2]), cyl, eps); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "faces that are not convex are refused");
}
