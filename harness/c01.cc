// C01: point / vector / direction algebra
#include "geo.hh"
using namespace Frackit;

HARNESS(c01_points)
{
    const P3 a = symPoint("ax","ay","az"), b = symPoint("bx","by","bz");
    const V3 v(a, b);
    near3(r3(v), sub(r3(b), r3(a)), 1e-9, "vector from a to b is b-a");
    near3(r3(a + v), r3(b), 1e-9, "a + (b-a) = b");
    near3(r3(b - v), r3(a), 1e-9, "b - (b-a) = a");
    P3 c(a); c += v; near3(r3(c), r3(b), 1e-9, "+= moves the point");
    c -= v; near3(r3(c), r3(a), 1e-9, "-= undoes +=");
    near3(r3(a), r3(a), 0, "operands unchanged");
    const double s = sym_real("s", -50, 50);
    P3 d(a); d *= s; near3(r3(d), mul(r3(a), s), 1e-9, "scaling a point multiplies its coordinates");
    sym_assume(s > 0.01);
    d /= s; near3(r3(d), r3(a), 1e-6, "dividing undoes scaling");
    const V3 w(b, a);
    near3(r3(w), mul(r3(v), -1.0), 1e-9, "reversing the points negates the vector");
    const P3 o; near3(r3(o), R3{0,0,0}, 0, "default point is the origin");
    const V3 z; near3(r3(z), R3{0,0,0}, 0, "default vector is zero");
}

HARNESS(c01_equal)
{
    const P3 a = symPoint("ax","ay","az"), b = symPoint("bx","by","bz");
    const double eps = sym_real("eps", 1e-6, 10.0);
    const R3 d = sub(r3(a), r3(b));
    const double q = sq(d);
    const bool e = a.isEqual(b, eps);
    if (sym_force(q < eps*eps*0.99)) sym_assert(e, "closer than eps: equal");
    else if (sym_force(q > eps*eps*1.01)) sym_assert(!e, "further than eps: not equal");
    else sym_skip();
    sym_assert(e == b.isEqual(a, eps), "isEqual is symmetric");
    sym_assert(a.isEqual(a, eps), "isEqual is reflexive");
    sym_assert(a.isEqual(a), "isEqual with the default tolerance is reflexive");
}

HARNESS(c01_equal_default)
{
    const P3 a = symPoint("ax","ay","az"), b = symPoint("bx","by","bz");
    const double q = sq(sub(r3(a), r3(b)));
    if (sym_force(q > 1e-10)) sym_assert(!a.isEqual(b), "default tolerance separates points further apart than 1e-5");
    else if (sym_force(q < 1e-16)) sym_assert(a.isEqual(b), "default tolerance identifies points closer than 1e-8");
    else sym_skip();
}

HARNESS(c01_vectors)
{
    const V3 a = symVector("ax","ay","az"), b = symVector("bx","by","bz");
    near3(r3(a + b), add(r3(a), r3(b)), 1e-9, "vector sum");
    near3(r3(a - b), sub(r3(a), r3(b)), 1e-9, "vector difference");
    sym_near(a*b, dot(r3(a), r3(b)), 1e-6, "scalar product");
    sym_near(a.squaredLength(), sq(r3(a)), 1e-6, "squared length");
    const double l = a.length();
    sym_assert(l >= 0.0, "length is not negative");
    sym_near(l*l, sq(r3(a)), 1e-6, "length is the root of the squared length");
    const double s = sym_real("s", -50, 50);
    V3 c(a); c *= s; near3(r3(c), mul(r3(a), s), 1e-9, "scaling a vector");
    sym_assume(s > 0.01);
    c /= s; near3(r3(c), r3(a), 1e-6, "dividing undoes scaling");
}

HARNESS(c01_cross)
{
    const V3 a = symVector("ax","ay","az", 20), b = symVector("bx","by","bz", 20), c = symVector("cx","cy","cz", 20);
    const V3 x = crossProduct(a, b);
    near3(r3(x), cross(r3(a), r3(b)), 1e-6, "cross product components");
    sym_near(x*a, 0.0, 1e-4, "cross product is orthogonal to its first factor");
    sym_near(x*b, 0.0, 1e-4, "cross product is orthogonal to its second factor");
    near3(r3(crossProduct(b, a)), mul(r3(x), -1.0), 1e-6, "cross product is antisymmetric");
    const double bp = boxProduct(a, b, c);
    sym_near(bp, dot(r3(a), cross(r3(b), r3(c))), 1e-3, "box product is the determinant");
    sym_near(boxProduct(b, c, a), bp, 1e-3, "box product is cyclic");
    if (sym_force(bp > 1e-3)) sym_assert(isRightHandSystem(a, b, c), "positive determinant: right-handed");
    else if (sym_force(bp < -1e-3)) sym_assert(!isRightHandSystem(a, b, c), "negative determinant: not right-handed");
}

HARNESS(c01_direction)
{
    const V3 v = symVector("x","y","z");
    const R3 r = r3(v);
    sym_assume(sq(r) > 1e-6);
    D3 d(v);
    const R3 u = r3(d);
    sym_near(sq(u), 1.0, 1e-6, "a direction has unit length");
    near3(mul(u, v.length()), r, 1e-6, "a direction scaled with the length gives the vector");
    zero3(cross(u, r), 1e-6, "a direction is parallel to its vector");
    sym_assert(dot(u, r) > 0, "a direction points where its vector points");
    const double s = sym_real("s", -50, 50);
    near3(r3(d*s), mul(u, s), 1e-6, "direction times scalar");
    d.invert();
    near3(r3(d), mul(u, -1.0), 1e-9, "invert flips every component");
    d.invert();
    near3(r3(d), u, 1e-9, "inverting twice restores the direction");
    near3(r3(V3(d)), u, 1e-9, "a vector made from a direction has its components");
}

HARNESS(c01_lowdim)
{
    const double a = sym_real("a",-100,100), b = sym_real("b",-100,100), c = sym_real("c",-100,100), e = sym_real("e",-100,100);
    const double s = sym_real("s",-50,50);
    { const P2 p(a,b), q(c,e); const V2 v(p,q);
      sym_near(v.x(), c-a, 1e-9, "2d: vector from points"); sym_near(v.y(), e-b, 1e-9, "2d: vector from points");
      P2 m = p + v; sym_near(m.x(), c, 1e-9, "2d: p + (q-p) = q"); sym_near(m.y(), e, 1e-9, "2d: p + (q-p) = q");
      m -= v; sym_near(m.x(), a, 1e-9, "2d: -= undoes +"); sym_near(m.y(), b, 1e-9, "2d: -= undoes +");
      const V2 w(a,b);
      sym_near((v+w).x(), c, 1e-9, "2d: sum"); sym_near((v-w).y(), e-b-b, 1e-9, "2d: difference");
      sym_near(v*w, (c-a)*a + (e-b)*b, 1e-6, "2d: scalar product");
      sym_near(crossProduct(v,w), (c-a)*b - (e-b)*a, 1e-6, "2d: cross product");
      V2 t(w); t *= s; sym_near(t.y(), b*s, 1e-9, "2d: scaling");
      if (sym_force(a*a + b*b > 1e-4)) {
        D2 d(w); sym_near(d.x()*d.x()+d.y()*d.y(), 1.0, 1e-6, "2d: unit direction");
        sym_near(d.x()*b - d.y()*a, 0.0, 1e-6, "2d: direction parallel to the vector"); sym_assert(d.x()*a + d.y()*b > 0, "2d: same sense");
        const double dx = d.x(), dy = d.y(); sym_near((d*s).x(), dx*s, 1e-6, "2d: direction times scalar");
        d.invert(); sym_near(d.x(), -dx, 1e-9, "2d: invert"); sym_near(d.y(), -dy, 1e-9, "2d: invert"); }
    }
    { const P1 p(a), q(b); const V1 v(p,q); sym_near(v.x(), b-a, 1e-9, "1d: vector from points");
      sym_near((p+v).x(), b, 1e-9, "1d: p + (q-p) = q"); sym_near((q-v).x(), a, 1e-9, "1d: q - (q-p) = p");
      if (sym_force(a > 0.01)) { D1 d{V1(a)}; sym_near(d.x(), 1.0, 1e-9, "1d: unit direction"); d.invert(); sym_near(d.x(), -1.0, 1e-9, "1d: invert"); }
      else if (sym_force(a < -0.01)) { D1 d{V1(a)}; sym_near(d.x(), -1.0, 1e-9, "1d: unit direction"); } }
}

// parallelism: w = s*v with s of either sign, or w clearly not parallel to v
HARNESS(c01_parallel)
{
    const V3 v = symVector("x","y","z", 10);
    sym_assume(v.squaredLength() > 1e-2);
    const double s = sym_real("s", -20, 20);
    if (sym_bool("same"))
    {
        sym_assume(s > 0.05);
        V3 w(v); w *= s;
        sym_assert(v.isParallel(w), "parallel vectors of equal sense are parallel");
        sym_assert(w.isParallel(v), "parallelism is symmetric");
    }
    else
    {
        sym_assume(s < -0.05);
        V3 w(v); w *= s;
        sym_assert(v.isParallel(w), "vectors of opposite sense are parallel");
    }
}

HARNESS(c01_not_parallel)
{
    // w = a*v + h*g with g orthogonal to v
    const V3 v = unitVec("v");
    const double a = sym_real("a", -10, 10), h = sym_real("h", -10, 10);
    const R3 g{-v.y(), v.x(), 0.0};
    const V3 w(a*v.x() + h*g.x, a*v.y() + h*g.y, a*v.z() + h*g.z);
    const double off2 = h*h*(v.x()*v.x() + v.y()*v.y());
    sym_assume(off2 > 0.0001*a*a && off2 > 0.0001);
    sym_assert(!v.isParallel(w), "vectors enclosing more than 0.01 rad are not parallel");
    sym_assert(!w.isParallel(v), "vectors enclosing more than 0.01 rad are not parallel");
}

HARNESS(c01_orthogonal)
{
    const V3 v = symVector("x","y","z");
    const R3 r = r3(v);
    sym_assume(sq(r) > 1e-6);
    if (sym_force(r.x != 0.0)) sym_assume(r.x*r.x > 1e-4);
    if (sym_force(r.y != 0.0)) sym_assume(r.y*r.y > 1e-4);
    if (sym_force(r.z != 0.0)) sym_assume(r.z*r.z > 1e-4);
    const R3 o = r3(makeOrthogonalVector(v));
    sym_near(dot(o, r), 0.0, 1e-6, "makeOrthogonalVector is orthogonal to its argument");
    sym_assert(sq(o) > 1e-12, "makeOrthogonalVector is not the zero vector");
}
