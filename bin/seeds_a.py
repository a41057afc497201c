#!/usr/bin/env python3
"""regenerates the planted changes of the geometry classes (C01-C06)"""
from mkseed import make
H = '''#include <cmath>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <string>
#include <algorithm>
#include <limits>
'''
make("a01-direction-unit", "C01",
     [("frackit/geometry/direction.hh", '''    Direction(const Frackit::Vector<ctype, 3>& v)
    {
        auto vNorm = v;
        vNorm /= v.length();
''', '''    Direction(const Frackit::Vector<ctype, 3>& v)
    {
        auto vNorm = v;

        // skip the square root for vectors that are normalized already
        const auto l2 = v.squaredLength();
        if (l2 < 1.0 - 1e-2 || l2 > 1.0 + 1e-2)
            vNorm /= v.length();
''')], "a vector whose length is close to, but not equal to one", "directions built from almost normalized vectors are not unit vectors", H + '''
#include <frackit/geometry/direction.hh>
#include <frackit/geometry/vector.hh>
using namespace Frackit;
int main()
{
    Vector<double,3> v(0.6, 0.8, 0.06);
    Direction<double,3> d(v);
    const double l = d.x()*d.x() + d.y()*d.y() + d.z()*d.z();
    return std::abs(l - 1.0) < 1e-9 ? 0 : 1;
}
''')
make("a03-hollow-tilt", "C03",
     [("frackit/geometry/hollowcylinder.hh", '''        const auto squaredDist = Vector(proj, p).squaredLength();
        const auto squaredEps = eps*eps;
''', '''        // the distance to the axis is known without projection for vertical cylinders
        const auto d = Vector(bottomInnerCircle_.center(), p);
        const bool isVertical = axis().z() > 1.0 - 1e-3;
        const auto squaredDist = isVertical ? d.x()*d.x() + d.y()*d.y()
                                            : Vector(proj, p).squaredLength();
        const auto squaredEps = eps*eps;
''')], "an axis that is slightly tilted against the vertical", "containment in almost vertical hollow cylinders is evaluated as if they were vertical", H + '''
#include <frackit/geometry/hollowcylinder.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using D = Direction<double,3>; using V = Vector<double,3>;
    HollowCylinder<double> c(P(0,0,0), D(V(0.03,0.0,1.0)), 0.5, 1.0, 20.0);
    const auto m = c.centerSegment().getPoint(0.9);
    return !c.contains(P(m.x(), m.y(), m.z()), 1e-3) && c.contains(P(m.x(), m.y() + 0.7, m.z()), 1e-3) ? 0 : 1;
}
''')
make("a04-polygon-last-corner", "C04",
     [("frackit/geometry/polygon.hh", '''        for (std::size_t i = 0; i < numEdges()-1; ++i)
        {
            const auto n = crossProduct(''', '''        for (std::size_t i = 0; i < numEdges()-2; ++i)
        {
            const auto n = crossProduct(''')], "a polygon whose only reflex corner is the last one",
     "polygons with a reflex last corner are reported as convex", H + '''
#include <frackit/geometry/polygon.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>;
    std::vector<P> c({P(0,0,0), P(4,0,0), P(4,4,0), P(0,4,0), P(1,2,0)});
    Polygon<double,3> p(c);
    return p.isConvex() ? 1 : 0;
}
''')
make("a05-arc-wrap", "C05",
     [("frackit/geometry/ellipsearc.hh", '''            return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
''', '''            return angle >= sourceAngle_ - eps || angle <= std::fmod(targetAngle_ + eps, M_PI);
''')], "an arc that passes the angle zero and whose target lies beyond pi",
     "arcs that run through the zero angle lose the points close to their target", H + '''
#include <frackit/geometry/ellipsearc.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using D = Direction<double,3>; using V = Vector<double,3>;
    Ellipse<double,3> e(P(0,0,0), D(V(1,0,0)), D(V(0,1,0)), 2.0, 1.0);
    auto at = [&] (double a) { return e.getPointFromAngle(a); };
    EllipseArc<double,3> arc(e, at(5.0), at(4.0));
    return arc.contains(at(3.5), 1e-3) ? 0 : 1;
}
''')
make("a06-box-back-face", "C06",
     [("frackit/geometry/box.hh", "Quadrilateral(corner(2), corner(3), corner(6), corner(7)); // back", "Quadrilateral(corner(3), corner(2), corner(6), corner(7)); // back (outward normal)")],
     "the edges or the shape of the back face of a box are used", "the back face of a box is a self-intersecting quadrilateral whose edges are the diagonals", H + '''
#include <frackit/geometry/box.hh>
using namespace Frackit;
int main()
{
    Box<double> b(0,0,0,1,2,3);
    for (unsigned int f = 0; f < 6; ++f)
        for (unsigned int e = 0; e < 4; ++e)
        {
            bool found = false;
            const auto s = b.face(f).edge(e);
            for (unsigned int i = 0; i < 12; ++i)
            {
                const auto t = b.edge(i);
                if ((s.source().isEqual(t.source()) && s.target().isEqual(t.target())) || (s.source().isEqual(t.target()) && s.target().isEqual(t.source()))) found = true;
            }
            if (!found) return 1;
        }
    return 0;
}
''')
make("a07-quad-area", "C04",
     [("frackit/geometry/quadrilateral.hh", "center_ += d1; center_ += d2; center_ /= area_;", "center_ += d1; center_ += d2; center_ /= 2.0*std::max(t1.area(), 0.5*area_);")],
     "a quadrilateral whose first triangle is larger than the second one (no parallelogram, and the opposite order goes unnoticed)",
     "the centroid of such quadrilaterals is scaled towards the origin", H + '''
#include <frackit/geometry/quadrilateral.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>;
    Quadrilateral<double,3> q(P(1,1,0), P(5,1,0), P(1,2,0), P(5,4,0));
    // centroid of the trapezoid: parallel sides 1 and 3, distance 4
    const double x = 1.0 + 4.0*(1.0 + 2.0*3.0)/(3.0*(1.0+3.0));
    return std::abs(q.center().x() - x) < 1e-9 ? 0 : 1;
}
''')
make("a08-plane-basis", "C02",
     [("frackit/geometry/plane.hh", '''        base1_ = Vector(p1, p2);
        normal_ = crossProduct(Vector(base1_), Vector(p1, p3));
''', '''        base1_ = Vector(p1, p2);
        const auto v = Vector(p1, p3);

        // build up the normal from the better conditioned pair of edges
        if (Vector(base1_)*v < 0.0) normal_ = crossProduct(v, Vector(p3, p2));
        else normal_ = crossProduct(Vector(base1_), v);
''')], "three points that enclose an obtuse angle at the first one",
     "the normal of a plane through three points points the wrong way", H + '''
#include <frackit/geometry/plane.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>;
    Plane<double,3> p(P(0,0,0), P(1,0,0), P(-0.5,1,0));
    return p.normal().z() > 0.5 ? 0 : 1;
}
''')
