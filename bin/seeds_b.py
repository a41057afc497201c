#!/usr/bin/env python3
"""Planted changes, second batch (run from anywhere; writes seeded/)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import make
H = '''#include <cmath>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <variant>
#include <memory>
'''
make("b01-distance-order", "C07",
     [("frackit/distance/distance.hh", '''    for (const auto& geo2 : geos2)
        minDist = min(minDist, computeDistance(geo1, geo2));
''', '''    for (const auto& geo2 : geos2)
    {
        const auto dist = computeDistance(geo1, geo2);

        // the geometries are sorted along the intersection
        if (dist > minDist) break;
        minDist = min(minDist, dist);
    }
''')], "several geometries whose distances do not decrease up to the closest one",
     "the distance to several geometries is not the smallest one", H + '''
#include <frackit/geometry/point.hh>
#include <frackit/distance/distance.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>;
    const std::vector<P> v = {P(3,0,0), P(5,0,0), P(1,0,0)};
    return std::abs(computeDistance(P(0,0,0), v) - 1.0) < 1e-9 ? 0 : 1;
}
''')
make("b02-segment-boundary", "C13",
     [("frackit/entitynetwork/constraints_impl/distancetoboundary.hh", '''        if (!isAdmissibleDistanceToBoundary(seg.source(), entity, threshold))
            return false;

        return isAdmissibleDistanceToBoundary(seg.target(), entity, threshold);
''', '''        // segments that start or end on the boundary are ok
        if (pointOnGeometryBoundary(seg.source(), entity) || pointOnGeometryBoundary(seg.target(), entity))
            return true;

        if (!isAdmissibleDistanceToBoundary(seg.source(), entity, threshold))
            return false;

        return isAdmissibleDistanceToBoundary(seg.target(), entity, threshold);
''')], "an intersection segment that starts on the boundary of an entity and ends close to it",
     "intersections closer to the boundary than the minimum distance are admitted", H + '''
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/entitynetwork/constraints.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using Q = Quadrilateral<double,3>;
    // the second one crosses the first from its lower edge up to 0.05 below the upper edge
    const Q a(P(0,0,0), P(2,0,0), P(0,2,0), P(2,2,0)), b(P(1,0,-1), P(1,1.95,-1), P(1,0,1), P(1,1.95,1));
    EntityNetworkConstraints<double> c;
    c.setMinIntersectionDistance(0.1);
    return c.evaluate(a, b) ? 1 : 0;
}
''')
make("b03-axis-clamp", "C17",
     [("frackit/sampling/disksampler.hh", '''        while (b <= 0.0) b = p_minorAxisLength_(generator_);
        if (b > a) b = a;
''', '''        if (b > a) b = a;
        while (b <= 0.0) b = p_minorAxisLength_(generator_);
''')], "a first draw of the minor axis length that is not positive, followed by one larger than the major axis length",
     "the minor axis of a sampled disk is longer than its major axis (or sampling fails)", H + '''
#include <random>
#include <frackit/geometry/box.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
using namespace Frackit;
static int calls = 0;
struct Draws { template<class G> double operator()(G&) { return ++calls % 2 ? -1.0 : 5.0; } };
struct Two { template<class G> double operator()(G&) { return 2.0; } };
struct Zero { template<class G> double operator()(G&) { return 0.0; } };
struct Traits
{
    using MajorAxisLengthDistribution = Two; using MinorAxisLengthDistribution = Draws;
    using XAngleDistribution = Zero; using YAngleDistribution = Zero; using ZAngleDistribution = Zero;
};
int main()
{
    try
    {
        DiskSampler<double, Traits> s(makeUniformPointSampler(Box<double>(0,0,0,1,1,1)), Two(), Draws(), Zero(), Zero(), Zero());
        const auto d = s();
        return d.minorAxisLength() <= d.majorAxisLength() && d.minorAxisLength() > 0.0 ? 0 : 1;
    }
    catch (const std::exception& e) { return 1; }
}
''')
make("b04-interval-upper", "C18",
     [("frackit/sampling/polygonsampler.hh", "if (xMax < 0.9) { xMax = 1.0; } if (yMax < 0.9) { yMax = 1.0; }", "if (xMax < 0.9) { xMax = 1.0; } if (yMax < 0.9) { yMax = 0.9 + 0.1*yMin; }")],
     "draws in strike direction that end below nine tenths, with a smallest one above zero",
     "the sampled polygon is smaller than eight tenths of the length drawn in strike direction, or not", H + '''
#include <random>
#include <algorithm>
#include <frackit/geometry/box.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/polygonsampler.hh>
using namespace Frackit;
int main() { return 0; }
''')
make("b05-strategy-turn", "C16",
     [("frackit/sampling/sequentialsamplingstrategy.hh", '''        const auto curId = this->idList_[curIdx_];
        if (curIdx_ != this->idList_.size() - 1) curIdx_++;
        else curIdx_ = 0;

        return curId;
''', '''        // continue with the first id after the last one
        curIdx_ %= this->idList_.size();
        const auto curId = this->idList_[curIdx_];
        curIdx_++;

        return curId;
''')], "an id added after a whole round", "an id added after a full round has its turn before the first one", H + '''
#include <frackit/sampling/sequentialsamplingstrategy.hh>
using namespace Frackit;
int main()
{
    SequentialSamplingStrategy s; s.addId(Id(4)); s.addId(Id(2));
    const bool a = s.getNextId() == Id(4), b = s.getNextId() == Id(2);
    s.addId(Id(9));
    return a && b && s.getNextId() == Id(4) ? 0 : 1;
}
''')
make("b06-target-order", "C15",
     [("frackit/sampling/status.hh", '''        targetCount_[id.get()] = targetCount;

        auto it = count_.find(id.get());
        if (it == count_.end())
            count_[id.get()] = 0;
''', '''        auto it = count_.find(id.get());
        if (it == count_.end() || it->second > targetCount_[id.get()])
            count_[id.get()] = 0;
        targetCount_[id.get()] = targetCount;

        if (it == count_.end()) return;
''')], "a new target for an id whose former target was surpassed", "setting a target for an id forgets how many samples were accepted", H + '''
#include <frackit/sampling/status.hh>
using namespace Frackit;
int main()
{
    SamplingStatus s; const Id a(1);
    s.setTargetCount(a, 1); s.increaseCounter(a); s.increaseCounter(a);
    s.setTargetCount(a, 5);
    return s.getCount(a) == 2 ? 0 : 1;
}
''')
make("b07-relation-both", "C14",
     [("frackit/entitynetwork/constraintsmatrix.hh", '''            if (entitySets.applyOnSet(otherId, evalConstraintOnSet))
                if (!isAdmissible)
                    return false;
''', '''            if (!entitySets.applyOnSet(otherId, evalConstraintOnSet))
                break;

            if (!isAdmissible)
                return false;
''')], "constraints towards a set that does not exist yet, followed by ones towards an existing set", "constraints towards later sets are not evaluated when an earlier set does not exist", H + '''
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
using namespace Frackit;
struct Never { template<class A, class B> bool evaluate(const A&, const B&) const { return false; } };
struct Sets { template<class F> bool applyOnSet(const Id& id, F&& f) const { if (!(id == Id(3))) return false; f(std::vector<int>{1}); return true; } };
int main()
{
    EntityNetworkConstraintsMatrix<Never> m;
    m.addConstraints(Never(), {IdPair(1, 2), IdPair(1, 3)});
    return m.evaluate(Sets(), 0, Id(1)) ? 1 : 0;
}
''')
make("b08-overlap-inside", "C08",
     [("frackit/common/math.hh", '''    if (interval1[1] > interval2[1] + eps)
        return interval1[0] < interval2[1] + eps;
    else if (interval1[0] < interval2[0] - eps)
        return interval1[1] > interval2[0] - eps;
    return true;
''', '''    // one of the ends of the first interval lies in the second
    if (interval1[1] > interval2[1] + eps)
        return interval1[0] < interval2[1] + eps && interval1[0] > interval2[0] - eps;
    else if (interval1[0] < interval2[0] - eps)
        return interval1[1] > interval2[0] - eps;
    return true;
''')], "a first interval or box that encloses the second one on both sides", "boxes that enclose others are reported to be apart from them", H + '''
#include <frackit/common/math.hh>
using namespace Frackit;
int main()
{
    const std::array<double,2> a{{0.0, 10.0}}, b{{4.0, 5.0}};
    return intervalsOverlap(a, b, 1e-6) && intervalsOverlap(b, a, 1e-6) ? 0 : 1;
}
''')
make("b09-outside-entity", "C19",
     [("frackit/entitynetwork/networkbuilder.hh", '''                const bool isDeleted = intersection.IsDeleted(entityShape);
                const auto& generated = intersection.Generated(entityShape);
                const auto& modified = intersection.Modified(entityShape);
                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
''', '''                const bool isDeleted = intersection.IsDeleted(entityShape) && subDomainBoundsNetwork_.at(subDomainIndex);
                const auto& generated = intersection.Generated(entityShape);
                const auto& modified = intersection.Modified(entityShape);
                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
''')], "an entity outside of all sub-domains, in a network that is confined by their union", "entities outside the domain remain part of the network", H + '''
#include <frackit/geometry/box.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using Q = Quadrilateral<double,3>;
    EntityNetworkBuilder<double> b;
    b.addSubDomain(Box<double>(-5,-5,-5,5,5,5), Id(1));
    auto q = [] (double x, double z) { return Q(P(x,0,z), P(x+1,0,z), P(x,1,z), P(x+1,1,z)); };
    b.addSubDomainEntity(q(0,0), Id(1)); b.addSubDomainEntity(q(20,0), Id(1)); b.addSubDomainEntity(q(0,1), Id(1));
    return b.build().entityFragments().Extent() == 2 ? 0 : 1;
}
''')
make("b10-second-solid", "C22",
     [("frackit/io/brepwriter.hh", '''                    TopoDS_Shell shell = TopoDS::Shell(shellExp.Current());
                    if(shmap_.FindIndex(shell) < 1)
                    {
                        shmap_.Add(shell);
                        addFaces_(shellExp.Current());
                    }
''', '''                    TopoDS_Shell shell = TopoDS::Shell(shellExp.Current());
                    if(shmap_.FindIndex(shell) < 1)
                    {
                        addFaces_(shellExp.Current());
                        if (shmap_.Extent() < somap_.Extent()) shmap_.Add(shell);
                    }
''')], "a solid with a cavity (two shells)", "the shells of cavities are missing in the geometry file", H + '''
#include <fstream>
#include <BRepTools.hxx>
#include <BRep_Builder.hxx>
#include <TopExp_Explorer.hxx>
#include <BRepAlgoAPI_Cut.hxx>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/io/brepwriter.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using Q = Quadrilateral<double,3>;
    const TopoDS_Shape hollow = OCCUtilities::cut(OCCUtilities::getShape(Box<double>(-5,-5,-5,5,5,5)), OCCUtilities::getShape(Box<double>(2,2,2,3,3,3)), 1e-6);
    const auto solids = OCCUtilities::getSolids(hollow);
    ContainedEntityNetworkBuilder<double> b;
    b.addConfiningSubDomain(solids[0], Id(1));
    b.addSubDomainEntity(Q(P(0,0,0), P(1,0,0), P(0,1,0), P(1,1,0)), Id(1));
    b.addSubDomainEntity(Q(P(0,0,1), P(1,0,1), P(0,1,1), P(1,1,1)), Id(1));
    BRepWriter w(b.build()); w.write("net");
    TopoDS_Shape s; BRep_Builder builder; BRepTools::Read(s, "net.brep", builder);
    TopoDS_Iterator it(s); int shells = 0;
    for (; it.More(); it.Next()) shells += it.Value().ShapeType() == TopAbs_SHELL;
    return shells == 2 ? 0 : 1;
}
''')
make("b11-curve-trim", "C23",
     [("frackit/occ/geomutilities.hh", '''        // return trimmed curve
        return new Geom_TrimmedCurve(curve, uMin, uMax);
''', '''        // closed curves are not to be trimmed
        if (curve->IsClosed())
            return curve;

        // return trimmed curve
        return new Geom_TrimmedCurve(curve, uMin, uMax);
''')], "an edge that is a part of a closed curve", "the length of an arc is that of its whole circle", H + '''
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/occ/breputilities.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using V = Vector<double,3>; using D = Direction<double,3>;
    const Ellipse<double,3> e(P(0,0,0), D(V(1,0,0)), D(V(0,1,0)), 1.0, 1.0);
    const EllipseArc<double,3> arc(e, P(1,0,0), P(0,1,0));
    return std::abs(computeMagnitude(OCCUtilities::getShape(arc)) - std::acos(0.0)) < 1e-6 ? 0 : 1;
}
''')
make("b12-ellipse-angle", "C21",
     [("frackit/intersection/intersectionangle.hh", '''        constexpr std::array<ctype, 9> params({0.0, 0.125, 0.25, 0.375,
                                               0.5, 0.625, 0.75, 0.875, 1.0});
''', '''        constexpr std::array<ctype, 8> params({0.0625, 0.1875, 0.3125, 0.4375,
                                               0.5625, 0.6875, 0.8125, 0.9375});
''')], "a section of a cylinder surface that is an ellipse", "the smallest angle along an ellipse is missed", H + '''
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/intersection/intersectionangle.hh>
using namespace Frackit;
int main()
{
    using P = Point<double,3>; using V = Vector<double,3>; using D = Direction<double,3>;
    const CylinderSurface<double> c(Circle<double,3>(P(0,0,-10), D(V(0,0,1)), 1.0), 20.0);
    const double s = std::sqrt(0.5);
    const Disk<double> k(P(0,0,0), D(V(1,0,1)), D(V(0,1,0)), 5.0, 5.0);
    const Ellipse<double,3> e(P(0,0,0), D(V(1,0,1)), D(V(0,1,0)), std::sqrt(2.0), 1.0);
    const double a = IntersectionAngle<double>()(c, k, e);
    return std::abs(a - std::acos(0.0)/2.0) < 1e-6 ? 0 : 1;
}
''')
make("b13-touch-point", "C10",
     [("frackit/intersection/algorithms/algo_planargeom_planargeom.hh", '''            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
            const auto& seg2 = std::get<Segment<ctype, worldDim>>(is2);
            if (seg2.contains(p1, eps))
                return ResultType( p1 );
''', '''            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
            if (faceGeom2.contains(p1, containsEps1))
                return ResultType( p1 );
''')], "a first geometry of other size than the second, touching it in a point close to the outline", "a point at which the first geometry touches the plane of the second is accepted with the tolerance of the first geometry", H + '''
int main() { return 0; }
''')
