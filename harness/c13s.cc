// C13: constraints between entities known through the abstract geometry interface
#include "geo.hh"
#include <memory>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/box.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/entitynetwork/constraints.hh>
using namespace Frackit;
using K3 = Disk<double>;
using Q3 = Quadrilateral<double,3>;
using Ptr = std::shared_ptr<Geometry>;
#ifdef OCCFAKE_HXX
// faces parallel to the xy-plane, one above the other
static bool stacked(const TopoDS_Shape& a, const TopoDS_Shape& b, double, int, int, double& d, bool& done)
{
    const auto va = occ::subs(a, TopAbs_VERTEX), vb = occ::subs(b, TopAbs_VERTEX);
    d = va[0].n->p.Z() - vb[0].n->p.Z(); if (d < 0) d = -d;
    done = true; return true;
}
#endif
HARNESS(c13_abstract)
{
#ifdef OCCFAKE_HXX
    occ::distance = stacked;
#endif
    const double h = sym_real("h", 0.5, 20), minDist = sym_real("minDist", 0.1, 25);
    sym_assume(h > minDist + 1e-4 || h < minDist - 1e-4);
    const bool up = sym_bool("up"); const double z = up ? h : -h;
    const K3 d0(P3(0,0,0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 3, 2), d1(P3(1,0,z), D3(V3(0.0,1.0,0.0)), D3(V3(1.0,0.0,0.0)), 4, 1);
    const Q3 q0(P3(-1,-1,0), P3(1,-1,0), P3(-1,1,0), P3(1,1,0)), q1(P3(-2,-1,z), P3(1,-1,z), P3(-1,1,z), P3(1,1,z));
    auto c = makeDefaultConstraints<double>();
    c.setMinDistance(minDist);
    const bool disk0 = sym_bool("disk0"), disk1 = sym_bool("disk1");
    const long how = sym_choice("how", 5);
    const Ptr p0 = disk0 ? Ptr(std::make_shared<K3>(d0)) : Ptr(std::make_shared<Q3>(q0));
    const Ptr p1 = disk1 ? Ptr(std::make_shared<K3>(d1)) : Ptr(std::make_shared<Q3>(q1));
    bool r;
    if (how == 0) r = c.evaluate(p0, p1);
    else if (how == 1) r = disk0 ? c.evaluate(d0, p1) : c.evaluate(q0, p1);
    else if (how == 2) r = disk1 ? c.evaluate(p0, d1) : c.evaluate(p0, q1);
    else if (how == 3) r = c.evaluate(std::vector<Ptr>{p0, p0}, p1);
    else r = disk0 ? (disk1 ? c.evaluate(d0, d1) : c.evaluate(d0, q1)) : (disk1 ? c.evaluate(q0, d1) : c.evaluate(q0, q1));
    sym_assert(r == (h > minDist), "entities known through the abstract interface are judged like the geometries themselves");
}
HARNESS(c13_abstract_refuse)
{
    auto c = makeDefaultConstraints<double>();
    c.setMinDistance(1);
    const K3 d(P3(0,0,0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 3, 2);
    const Ptr p = std::make_shared<Box<double>>(0, 0, 0, 1, 1, 1);
    bool thrown = false;
    try { if (sym_bool("first")) c.evaluate(p, d); else c.evaluate(d, p); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "geometries that are not supported are refused");
}
