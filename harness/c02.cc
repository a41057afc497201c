// C02: lines, planes, segments: projections and frames
#include "geo.hh"
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/segment.hh>
using namespace Frackit;
using L3 = Line<double,3>; using PL = Plane<double,3>; using S3 = Segment<double,3>;

HARNESS(c02_line)
{
    const P3 s = symPoint("sx","sy","sz"), p = symPoint("px","py","pz");
    const D3 d = symDirection("d");
    const L3 l(s, d);
    near3(r3(l.supportingPoint()), r3(s), 0, "a line keeps its support point");
    near3(r3(l.direction()), r3(d), 0, "a line keeps its direction");
    const P3 q = l.projection(p);
    sym_near(dot(sub(r3(p), r3(q)), r3(d)), 0.0, 1e-6, "the projection offset is orthogonal to the line");
    zero3(cross(sub(r3(q), r3(s)), r3(d)), 1e-6, "the projection lies on the line");
    near3(r3(l.projection(q)), r3(q), 1e-6, "line projection is idempotent");
    const double t = sym_real("t", -100, 100);
    const R3 o = add(r3(s), mul(r3(d), t));
    sym_le(sq(sub(r3(p), r3(q))), sq(sub(r3(p), o)), 1e-6, "the projection is the closest point of the line");
}

HARNESS(c02_line_contains)
{
    const P3 s = symPoint("sx","sy","sz"), p = symPoint("px","py","pz");
    const D3 d = symDirection("d");
    const L3 l(s, d);
    const R3 v = sub(r3(p), r3(s));
    const double h = dot(v, r3(d)), dist2 = sq(v) - h*h;
    const double eps = sym_real("eps", 1e-6, 5);
    if (sym_force(dist2 < eps*eps*0.98)) sym_assert(l.contains(p, eps), "line contains points closer than the tolerance");
    else if (sym_force(dist2 > eps*eps*1.02)) sym_assert(!l.contains(p, eps), "line excludes points further away than the tolerance");
    else sym_skip();
    if (sym_force(dist2 > 1e-4)) sym_assert(!l.contains(p), "line with the default tolerance excludes distant points");
}

HARNESS(c02_plane)
{
    const P3 s = symPoint("sx","sy","sz"), p = symPoint("px","py","pz");
    const D3 n = symDirection("n");
    // the library picks the first non-zero component of the normal
    const R3 r = r3(n);
    if (sym_force(r.x != 0.0)) sym_assume(r.x*r.x > 1e-2);
    else if (sym_force(r.y != 0.0)) sym_assume(r.y*r.y > 1e-2);
    const PL pl(s, n);
    near3(r3(pl.supportingPoint()), r3(s), 0, "a plane keeps its support point");
    near3(r3(pl.normal()), r, 0, "a plane keeps its normal");
    const R3 b1 = r3(pl.base1()), b2 = r3(pl.base2());
    sym_near(sq(b1), 1.0, 1e-6, "plane basis: first vector has unit length");
    sym_near(sq(b2), 1.0, 1e-6, "plane basis: second vector has unit length");
    sym_near(dot(b1, r), 0.0, 1e-6, "plane basis: first vector is orthogonal to the normal");
    sym_near(dot(b2, r), 0.0, 1e-6, "plane basis: second vector is orthogonal to the normal");
    sym_near(dot(b1, b2), 0.0, 1e-6, "plane basis: vectors are orthogonal");
    near3(cross(b1, b2), r, 1e-6, "plane basis: right-handed with the normal");
}

HARNESS(c02_plane_projection)
{
    const P3 s = symPoint("sx","sy","sz"), p = symPoint("px","py","pz");
    const D3 b1(V3(1,0,0)), b2(V3(0,1,0)), n = symDirection("n");
    const PL pl(s, b1, b2, n);     // the projection only uses support point and normal
    near3(r3(pl.base1()), R3{1,0,0}, 0, "a plane keeps its first basis vector");
    near3(r3(pl.base2()), R3{0,1,0}, 0, "a plane keeps its second basis vector");
    near3(r3(pl.normal()), r3(n), 0, "a plane keeps its normal");
    const R3 r = r3(n);
    const P3 q = pl.projection(p);
    sym_near(dot(sub(r3(q), r3(s)), r), 0.0, 1e-6, "the projection lies in the plane");
    zero3(cross(sub(r3(p), r3(q)), r), 1e-6, "the projection offset is parallel to the normal");
    near3(r3(pl.projection(q)), r3(q), 1e-6, "plane projection is idempotent");
    const P3 p2 = symPoint("tx","ty","tz");
    const auto sg = pl.projection(S3(p, p2));
    near3(r3(sg.source()), r3(q), 1e-9, "segment projection: source");
    near3(r3(sg.target()), r3(pl.projection(p2)), 1e-9, "segment projection: target");
    const double dist = dot(sub(r3(p), r3(s)), r);
    const double eps = sym_real("eps", 1e-6, 5);
    if (sym_force(dist < eps*0.99 && dist > -eps*0.99)) sym_assert(pl.contains(p, eps), "plane contains points closer than the tolerance");
    else if (sym_force(dist > eps*1.01)) { sym_assert(!pl.contains(p, eps), "plane excludes points above the tolerance"); }
    else if (sym_force(dist < -eps*1.01)) { sym_assert(!pl.contains(p, eps), "plane excludes points below the tolerance"); }
    if (sym_force(dist > 1e-5)) sym_assert(!pl.contains(p), "plane with the default tolerance excludes distant points");
}

HARNESS(c02_plane_line)
{
    const P3 s = symPoint("sx","sy","sz"), p = symPoint("px","py","pz");
    const D3 n = symDirection("n"), d = symDirection("d");
    const PL pl(s, D3(V3(1,0,0)), D3(V3(0,1,0)), n);
    const double c = dot(r3(n), r3(d));
    sym_assume(c*c < 0.99);
    const L3 l = pl.projection(L3(p, d));
    near3(r3(l.supportingPoint()), r3(pl.projection(p)), 1e-6, "line projection: support point is projected");
    sym_near(dot(r3(l.direction()), r3(n)), 0.0, 1e-6, "line projection: direction lies in the plane");
    sym_near(sq(r3(l.direction())), 1.0, 1e-6, "line projection: unit direction");
    // direction = normalised d - (d.n)n
    const R3 f = sub(r3(d), mul(r3(n), c));
    zero3(cross(r3(l.direction()), f), 1e-5, "line projection: direction is the projected direction");
    sym_assert(dot(r3(l.direction()), f) > 0, "line projection: direction keeps its sense");
}

HARNESS(c02_plane3)
{
    const P3 a = symPoint("ax","ay","az", 10);
    double o[3]; sym_unit3("u", o); const R3 u{o[0],o[1],o[2]};
    sym_unit3("v", o); const R3 v{o[0],o[1],o[2]};
    const double s = sym_real("s", 0.1, 10), t = sym_real("t", 0.1, 10);
    const R3 x = cross(u, v);
    sym_assume(sq(x) > 0.01);
    const P3 b(a.x()+s*u.x, a.y()+s*u.y, a.z()+s*u.z), c(a.x()+t*v.x, a.y()+t*v.y, a.z()+t*v.z);
    const PL pl(a, b, c);
    const R3 n = r3(pl.normal()), b1 = r3(pl.base1()), b2 = r3(pl.base2());
    sym_near(sq(n), 1.0, 1e-6, "plane from points: unit normal");
    sym_near(dot(n, sub(r3(b), r3(a))), 0.0, 1e-6, "plane from points: contains the second point");
    sym_near(dot(n, sub(r3(c), r3(a))), 0.0, 1e-6, "plane from points: contains the third point");
    near3(r3(pl.supportingPoint()), r3(a), 0, "plane from points: support is the first point");
    sym_assert(dot(n, x) > 0, "plane from points: normal sense by the right-hand rule");
    sym_near(sq(b1), 1.0, 1e-6, "plane from points: unit basis");
    sym_near(dot(b1, n), 0.0, 1e-6, "plane from points: basis in the plane");
    sym_near(dot(b2, n), 0.0, 1e-6, "plane from points: basis in the plane");
    sym_near(dot(b1, b2), 0.0, 1e-6, "plane from points: orthogonal basis");
    sym_near(sq(b2), 1.0, 1e-6, "plane from points: unit basis");
}

HARNESS(c02_segment)
{
    const P3 a = symPoint("ax","ay","az");
    const D3 d = symDirection("d");
    const double len = sym_real("len", 0.01, 100);
    const P3 b(a.x()+len*d.x(), a.y()+len*d.y(), a.z()+len*d.z());
    const S3 s(a, b);
    near3(r3(s.source()), r3(a), 0, "segment source"); near3(r3(s.target()), r3(b), 0, "segment target");
    sym_near(s.length(), len, 1e-6, "segment length");
    sym_near(s.squaredLength(), len*len, 1e-6, "segment squared length");
    near3(r3(s.direction()), r3(d), 1e-6, "segment direction");
    near3(r3(s.center()), mul(add(r3(a), r3(b)), 0.5), 1e-6, "segment centre");
    near3(r3(s.getReversed().source()), r3(b), 0, "reversed source"); near3(r3(s.getReversed().target()), r3(a), 0, "reversed target");
    near3(r3(s.getPoint(0.0)), r3(a), 1e-6, "parameter 0 is the source"); near3(r3(s.getPoint(1.0)), r3(b), 1e-6, "parameter 1 is the target");
    const double t = sym_real("t", 0, 1);
    near3(r3(s.getPoint(t)), add(r3(a), mul(r3(d), len*t)), 1e-6, "segment parameter is proportional to arc length");
    const L3 l = s.supportingLine();
    near3(r3(l.direction()), r3(d), 1e-6, "supporting line direction");
    near3(r3(l.supportingPoint()), r3(a), 1e-6, "supporting line passes through the source");
}

// a point given in the segment's own coordinates: t along, h off the line in direction e
HARNESS(c02_segment_contains)
{
    const P3 a = symPoint("ax","ay","az", 10);
    const D3 d = symDirection("d");
    const double len = sym_real("len", 0.5, 20), eps = sym_real("eps", 1e-4, 0.2);
    const P3 b(a.x()+len*d.x(), a.y()+len*d.y(), a.z()+len*d.z());
    const S3 s(a, b);
    const double t = sym_real("t", -30, 30), h = sym_real("h", -5, 5);
    // e: a vector orthogonal to d
    const R3 g{-d.y(), d.x(), 0.0};
    const P3 p(a.x()+t*d.x()+h*g.x, a.y()+t*d.y()+h*g.y, a.z()+t*d.z()+h*g.z);
    const double off2 = h*h*(d.x()*d.x() + d.y()*d.y());
    if (sym_force(off2 > eps*eps*1.02)) sym_assert(!s.contains(p, eps), "segment excludes points off its line");
    else if (sym_force(off2 < eps*eps*0.98))
    {
        if (sym_force(t > 1e-3 && t < len - 1e-3)) sym_assert(s.contains(p, eps), "segment contains points between its ends");
        else if (sym_force(t < -1.01*eps || t > len + 1.01*eps)) sym_assert(!s.contains(p, eps), "segment excludes points beyond its ends");
        else if (sym_force(t*t + off2 < 0.98*eps*eps)) sym_assert(s.contains(p, eps), "segment contains points within the tolerance of its source");
        else if (sym_force((t-len)*(t-len) + off2 < 0.98*eps*eps)) sym_assert(s.contains(p, eps), "segment contains points within the tolerance of its target");
        else sym_skip();
    }
    else sym_skip();
}

HARNESS(c02_segment_online)
{
    const P3 a = symPoint("ax","ay","az", 10);
    const D3 d = symDirection("d");
    const double len = sym_real("len", 0.5, 20);
    const P3 b(a.x()+len*d.x(), a.y()+len*d.y(), a.z()+len*d.z());
    const S3 s(a, b);
    const double t = sym_real("t", -30, 30);
    const P3 p(a.x()+t*d.x(), a.y()+t*d.y(), a.z()+t*d.z());
    const bool chk = sym_bool("chk");
    const double eps = sym_real("eps", 1e-4, 0.2);
    if (sym_force(t > 1e-3 && t < len - 1e-3)) { sym_assert(s.contains(p, chk), "segment contains its interior points (default tolerance)");
                                     sym_assert(s.contains(p, eps, chk), "segment contains its interior points"); }
    else if (sym_force(t < -1e-3 || t > len + 1e-3)) { sym_assert(!s.contains(p, chk), "segment excludes the line beyond its ends (default tolerance)");
        if (sym_force(t < -1.01*eps || t > len + 1.01*eps)) sym_assert(!s.contains(p, eps, chk), "segment excludes the line beyond its ends"); }
    else sym_skip();
    sym_assert(s.contains(a) && s.contains(b), "segment contains its end points");
}
