#include "c04.hh"
HARNESS(c04_triangle)
{
    const Place pl = placed(); Pt2 c[3]; convex(c, 3);
    const T3 t(pl(c[0]), pl(c[1]), pl(c[2]));
    const double A2 = area2(c, 3);
    sym_near(t.area(), 0.5*A2, 1e-6, "triangle area");
    near3(r3(t.center()), r3(pl({(c[1].x+c[2].x)/3.0, (c[1].y+c[2].y)/3.0})), 1e-6, "triangle centre");
    near3(r3(t.normal()), pl.f.w, 1e-6, "triangle normal by the right-hand rule");
    for (int i = 0; i < 3; ++i)
    {
        near3(r3(t.corner(i)), r3(pl(c[i])), 0, "triangle corners");
        near3(r3(t.edge(i).source()), r3(pl(c[i])), 0, "triangle edges connect consecutive corners");
        near3(r3(t.edge(i).target()), r3(pl(c[(i+1)%3])), 0, "triangle edges connect consecutive corners");
    }
}
HARNESS(c04_triangle_plane)
{
    const Place pl = placedSimple(); Pt2 c[3]; convex(c, 3);
    sym_assume(pl.f.w.x*pl.f.w.x > 0.01); sym_assume(pl.f.w.y*pl.f.w.y > 0.01);
    const T3 t(pl(c[0]), pl(c[1]), pl(c[2]));
    near3(r3(t.supportingPlane().normal()), pl.f.w, 1e-6, "triangle plane normal");
    near3(r3(t.supportingPlane().supportingPoint()), r3(pl(c[0])), 1e-6, "triangle plane passes through the corners");
}
HARNESS(c04_triangle_contains)
{
    const Place pl = placedSimple(); Pt2 c[3]; convex(c, 3);
    sym_assume(pl.f.w.x*pl.f.w.x > 0.01); sym_assume(pl.f.w.y*pl.f.w.y > 0.01);
    const T3 t(pl(c[0]), pl(c[1]), pl(c[2]));
    contain(t, pl, c, 3, "triangle contains its points", "triangle excludes points outside");
}
HARNESS(c04_triangle_off)
{
    const Place pl = placedSimple(); Pt2 c[3]; convex(c, 3);
    sym_assume(pl.f.w.x*pl.f.w.x > 0.01); sym_assume(pl.f.w.y*pl.f.w.y > 0.01);
    const T3 t(pl(c[0]), pl(c[1]), pl(c[2]));
    offPlane(t, pl, sub(r3(t.corner(0)), r3(t.center())), "triangle excludes points off its plane");
}

HARNESS(c04_quad)
{
    const Place pl = placed(); Pt2 c[4]; convex(c, 4);
    const Q3 q(pl(c[0]), pl(c[1]), pl(c[3]), pl(c[2]));
    common(q, pl, c, 4, "quadrilateral area", "quadrilateral centre is the centroid", "quadrilateral plane");
    sym_assert(q.isConvex(), "convex quadrilaterals are convex");
    const int e[4][2] = {{0,1},{1,2},{0,3},{3,2}};   // edges in terms of the counter clockwise corners
    for (int i = 0; i < 4; ++i)
    {
        near3(r3(q.corner(i)), r3(pl(c[i == 2 ? 3 : i == 3 ? 2 : i])), 0, "quadrilateral corners");
        near3(r3(q.edge(i).source()), r3(pl(c[e[i][0]])), 0, "quadrilateral edges form its boundary");
        near3(r3(q.edge(i).target()), r3(pl(c[e[i][1]])), 0, "quadrilateral edges form its boundary");
    }
}
HARNESS(c04_quad_contains)
{
    const Place pl = placedSimple(); Pt2 c[4]; convex(c, 4);
    const Q3 q(pl(c[0]), pl(c[1]), pl(c[3]), pl(c[2]));
    contain(q, pl, c, 4, "quadrilateral contains its points", "quadrilateral excludes points outside");
}
HARNESS(c04_quad_default)
{
    const Place pl = placedSimple(); Pt2 c[4]; convex(c, 4);
    const Q3 q(pl(c[0]), pl(c[1]), pl(c[3]), pl(c[2]));
    containDefault(q, pl, c, 4, sub(r3(q.corner(0)), r3(q.corner(3))), "quadrilateral contains its points (default tolerance)", "quadrilateral excludes points outside (default tolerance)");
}
HARNESS(c04_quad_off)
{
    const Place pl = placedSimple(); Pt2 c[4]; convex(c, 4);
    const Q3 q(pl(c[0]), pl(c[1]), pl(c[3]), pl(c[2]));
    offPlane(q, pl, sub(r3(q.corner(0)), r3(q.corner(3))), "quadrilateral excludes points off its plane");
}
// a point inside a convex ring takes the place of an extra corner: exactly there the ring is reflex
static void reflex(Pt2* c, int n)
{
    Pt2 h[6]; convex(h, n-1);
    const Pt2 q{sym_real("rx",-10,10), sym_real("ry",-10,10)};
    for (int i = 0; i < n-1; ++i) sym_assume(orient(h[i], h[(i+1)%(n-1)], q) > 0.05);
    const long k = sym_choice("k", n);
    for (int i = 0; i < n-1; ++i) c[(k+1+i)%n] = h[i];
    c[k] = q;
}
HARNESS(c04_quad_concave)
{
    const Place pl = placedSimple(); Pt2 c[4]; reflex(c, 4);
    const Q3 q(pl(c[0]), pl(c[1]), pl(c[3]), pl(c[2]));
    sym_assert(!q.isConvex(), "quadrilaterals with a reflex corner are not convex");
}

template<int n> static void poly()
{
    const Place pl = n <= 4 ? placed() : placedSimple(); Pt2 c[6]; convex(c, n);
    std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pl(c[i]));
    const G3 g(v);
    sym_assert(g.numCorners() == n && g.numEdges() == n, "polygon corner and edge counts");
    sym_assert(g.isConvex(), "convex polygons are convex");
    common(g, pl, c, n, "polygon area", "polygon centre is the centroid", "polygon plane");
    for (int i = 0; i < n; ++i)
    {
        near3(r3(g.corner(i)), r3(pl(c[i])), 0, "polygon corners");
        near3(r3(g.edge(i).source()), r3(pl(c[i])), 0, "polygon edges connect consecutive corners");
        near3(r3(g.edge(i).target()), r3(pl(c[(i+1)%n])), 0, "polygon edges connect consecutive corners");
    }
}
HARNESS(c04_poly3) { poly<3>(); }
HARNESS(c04_poly4) { poly<4>(); }
HARNESS(c04_poly5) { poly<5>(); }
template<int n> static void polyContains()
{
    const Place pl = placedSimple(); Pt2 c[6]; convex(c, n);
    std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pl(c[i]));
    const G3 g(v);
    contain(g, pl, c, n, "polygon contains its points", "polygon excludes points outside");
}
HARNESS(c04_poly4_contains) { polyContains<4>(); }
HARNESS(c04_poly5_contains) { polyContains<5>(); }
HARNESS(c04_poly_default)
{
    const Place pl = placedSimple(); Pt2 c[3]; convex(c, 3);
    std::vector<P3> v; for (int i = 0; i < 3; ++i) v.push_back(pl(c[i]));
    const G3 g(v);
    containDefault(g, pl, c, 3, sub(r3(g.corner(0)), r3(g.center())), "polygon contains its points (default tolerance)", "polygon excludes points outside (default tolerance)");
}
template<int n> static void polyOff(int mode)
{
    const Place pl = placedSimple(); Pt2 c[n]; convex(c, n);
    std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pl(c[i]));
    const G3 g(v); offPlane(g, pl, sub(r3(g.corner(0)), r3(g.center())), "polygon excludes points off its plane", mode);
}
HARNESS(c04_poly_off) { polyOff<4>(2); }
HARNESS(c04_poly_off_default) { polyOff<3>(1); }
template<int n> static void polyConcave()
{
    const Place pl = placedSimple(); Pt2 c[6]; reflex(c, n);
    std::vector<P3> v; for (int i = 0; i < n; ++i) v.push_back(pl(c[i]));
    const G3 g(v);
    sym_assert(!g.isConvex(), "polygons with a reflex corner are not convex");
    bool t1 = false, t2 = false;
    try { g.area(); } catch (const std::runtime_error&) { t1 = true; }
    try { g.contains(v[0], 0.1); } catch (const std::runtime_error&) { t2 = true; }
    sym_assert(t1 && t2, "area and containment of non-convex polygons are refused");
}
HARNESS(c04_poly4_concave) { polyConcave<4>(); }
HARNESS(c04_poly5_concave) { polyConcave<5>(); }
HARNESS(c04_poly_few)
{
    std::vector<P3> v; const long n = sym_choice("n", 3);
    for (long i = 0; i < n; ++i) v.push_back(P3(i, i*i, 0));
    bool t = false;
    try { G3 g(v); } catch (const std::runtime_error&) { t = true; }
    sym_assert(t, "fewer than three corners are refused");
}
