// C20: builders refuse what does not fit together, use the tolerance asked for and do not hide failures
#include "geo.hh"
#include <iostream>
#include <sstream>
#include <frackit/entitynetwork/networkbuilder.hh>
using namespace Frackit;
using Shapes = std::vector<TopoDS_Shape>;
static bool has(const Shapes& v, const TopoDS_Shape& s) { for (const auto& x : v) if (x.IsSame(s)) return true; return false; }
// what was written to the terminal
struct Output
{
#ifdef SHADOW_IO_HH
    std::size_t n;
    Output() : n(std::cout.text.size()) {}
    std::string text() const { return std::cout.text.substr(n); }
#else
    std::stringbuf buf; std::streambuf* old;
    Output() : old(std::cout.rdbuf(&buf)) {}
    ~Output() { std::cout.rdbuf(old); }
    std::string text() const { return buf.str(); }
#endif
};
static Shapes commonArgs, fragmentArgs; static int commons, fragments, fuses; static double used[4]; static int n; static int failing;
static void answer(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{
    if (n < 4) used[n] = fuzzy; else sym_fail("more boolean operations than needed");
    if (op == occ::COMMON) { ++commons; commonArgs = a; }
    if (op == occ::FRAGMENT) { ++fragments; fragmentArgs = a; }
    if (op == occ::FUSE) { ++fuses; r.shape = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); }
    r.done = n != failing;
    ++n;
}
static void world() { occ::boolean = answer; commons = fragments = fuses = n = 0; failing = -1; commonArgs.clear(); fragmentArgs.clear(); }
template<class F> static bool throws(F&& f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }

// a shape of some dimension
static const char* NAME[4] = {"vertex", "edge", "face", "solid"};
template<class B> static void add(B& b, int what, int dim, std::size_t id)
{
    auto go = [&] (const auto& s) { if (what == 0) b.addSubDomainEntity(s, Id(id)); else if (what == 1) b.addSubDomain(s, Id(id)); else b.addConfiningSubDomain(s, Id(id)); };
    if (dim == 0) go(occ::fresh<TopoDS_Vertex>(TopAbs_VERTEX, occ::K_OTHER));
    if (dim == 1) go(occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_OTHER));
    if (dim == 2) go(occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER));
    if (dim == 3) go(occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER));
}
static void addPlain(EntityNetworkBuilder<double>& b, int dim)
{
    if (dim == 0) b.addEntity(occ::fresh<TopoDS_Vertex>(TopAbs_VERTEX, occ::K_OTHER));
    if (dim == 1) b.addEntity(occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_OTHER));
    if (dim == 2) b.addEntity(occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER));
    if (dim == 3) b.addEntity(occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER));
}
template<class B> static void history(int steps, int lowest)
{
    world();
    B b;
    const bool plain = std::is_same<typename B::EntityNetwork, EntityNetwork>::value;
    int entityDim = -1, domainDim = -1; bool taken[2] = {false, false};
    static const std::size_t ids[2] = {0, 7};
    for (int s = 0; s < steps; ++s)
    {
        const long what = sym_choice("call", plain ? 4 : 3), dim = lowest + sym_choice("dim", 4 - lowest);
        const long k = what == 3 ? 0 : sym_choice("id", 2);
        bool bad;
        if (what == 0 || what == 3) bad = (entityDim >= 0 && dim != entityDim) || (domainDim >= 0 && dim >= domainDim);
        else bad = (entityDim >= 0 && dim <= entityDim) || (domainDim >= 0 && dim != domainDim) || taken[k];
        bool thrown;
        if constexpr (std::is_same<typename B::EntityNetwork, EntityNetwork>::value) thrown = throws([&] { if (what == 3) addPlain(b, int(dim)); else add(b, int(what), int(dim), ids[k]); });
        else thrown = throws([&] { add(b, int(what), int(dim), ids[k]); });
        sym_assert(thrown == bad, "entities have one dimension, sub-domains have one that is larger, and their ids differ");
        if (bad) continue;
        if (what == 0 || what == 3) entityDim = dim; else { domainDim = dim; taken[k] = true; }
    }
    sym_assert(!b.isBuilt(), "nothing is built yet");
    sym_assert(throws([&] { b.network(); }), "there is no network before it is built");
}
#ifdef THOROUGH
#define LOWEST 0
#else
#define LOWEST 1
#endif
HARNESS(c20_history) { history<EntityNetworkBuilder<double>>(2, 0); }
HARNESS(c20_history_contained) { history<ContainedEntityNetworkBuilder<double>>(3, LOWEST); }

// failures of the boolean operations and the state of the builder
template<class B> static void failures()
{
    world();
    const bool contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    B b; b.setEpsilon(1e-3);
    const bool orphan = sym_bool("orphan"), bound = sym_bool("bound"), two = sym_bool("two");
    add(b, bound ? 2 : 1, 3, 1); if (two) add(b, 1, 3, 2);
    add(b, 0, 2, 1); if (orphan) add(b, 0, 2, 9);
    failing = int(sym_choice("failing", 4)) - 1;
    const int total = 2 + (!bound && two ? 1 : 0);
    bool ok; std::string text;
    { Output o; ok = !throws([&] { b.build(); }); text = o.text(); }
    sym_assert(ok == (failing < 0 || failing >= total), "operations that fail are reported as errors");
    sym_assert(b.isBuilt() == ok, "a network is built only if that succeeded");
    sym_assert(throws([&] { b.network(); }) == !ok, "there is no network before it is built");
    sym_assert((text.find("no sub-domain") != std::string::npos) == (contained && orphan), "networks without a sub-domain are warned about");
    if (ok) { b.clear(); sym_assert(!b.isBuilt() && throws([&] { b.network(); }), "cleared builders hold no network"); }
    else
    {
        n = 0; failing = -1;
        Output o;
        sym_assert(!throws([&] { b.build(); }) && b.isBuilt(), "the network can be built once the failure is gone");
    }
    // a failed rebuild does not leave the former network
    if (ok && sym_bool("rebuild"))
    {
        n = 0; failing = -1; Output o;
        add(b, 1, 3, 4); add(b, 0, 2, 4); b.build(); sym_assert(b.isBuilt(), "the network is built");
        n = 0; failing = 0;
        sym_assert(throws([&] { b.build(); }) && !b.isBuilt() && throws([&] { b.network(); }), "a network is built only if that succeeded");
    }
}
HARNESS(c20_failures) { failures<EntityNetworkBuilder<double>>(); }
HARNESS(c20_failures_contained) { failures<ContainedEntityNetworkBuilder<double>>(); }

// the tolerance used
static TopoDS_Shape boxed[6]; static double size[6]; static int nb;
static bool bounds(const TopoDS_Shape& s, double* b)
{
    for (int i = 0; i < nb; ++i) if (boxed[i].IsSame(s)) { for (int k = 0; k < 6; ++k) b[k] = 0; b[3] = size[i]; return true; }
    return false;
}
template<class B> static void tolerance()
{
    world(); occ::bounds = bounds; nb = 0;
    static const char* S[6] = {"s0", "s1", "s2", "s3", "s4", "s5"};
    B b;
    const bool contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    const long nd = sym_choice("domains", 3), ne = 1 + sym_choice("entities", 2), when = sym_choice("when", 4);
    if (contained && nd == 0) sym_skip();
    const double eps = sym_real("eps", 1e-9, 1);
    double low = 1e300;
    auto note = [&] (const TopoDS_Shape& s) { boxed[nb] = s; size[nb] = sym_real(S[nb], 0.1, 1000); return size[nb++]; };
    auto domains = [&] { for (long i = 0; i < nd; ++i) { const auto s = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); const double v = note(s); if (v < low) low = v; if (i == 0) b.addConfiningSubDomain(s, Id(i)); else b.addSubDomain(s, Id(i)); } };
    auto entities = [&] { for (long i = 0; i < ne; ++i) { const auto s = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER); const double v = note(s); if (nd == 0 && v < low) low = v; b.addSubDomainEntity(s, Id(i)); } };
    if (when == 3) { b.setEpsilon(eps); }
    if (sym_bool("entities first")) { entities(); domains(); } else { domains(); entities(); }
    if (when == 1) { b.setEpsilon(eps); b.setDefaultEpsilon(); }
    if (when == 2) b.setEpsilon(eps);
    b.build();
    const double expected = when >= 2 ? eps : 1e-7*low;
    sym_assert(n > 0 && n <= 4, "the network is built by boolean operations");
    for (int i = 0; i < n; ++i) sym_near(used[i], expected, 1e-13, when >= 2 ? "the tolerance given is used" : "the tolerance is a fraction of the smallest sub-domain, or entity if there is none");
    n = 0;
    const double other = sym_real("other", 1e-9, 1);
    b.setEpsilon(other); b.build();
    for (int i = 0; i < n; ++i) sym_assert(used[i] == other, "the tolerance given is used");
}
HARNESS(c20_tolerance) { tolerance<EntityNetworkBuilder<double>>(); }
HARNESS(c20_tolerance_contained) { tolerance<ContainedEntityNetworkBuilder<double>>(); }

// geometries are converted to shapes, sets of entities added in their order
HARNESS(c20_sets)
{
    world();
    const P3 c(sym_real("x", -9, 9), sym_real("y", -9, 9), sym_real("z", -9, 9)); const double r = sym_real("r", 1, 5);
    std::vector<Disk<double>> disks;
    const long k = 1 + sym_choice("k", 3);
    for (long i = 0; i < k; ++i) disks.emplace_back(P3(c.x(), c.y(), c.z()+double(i)), D3(V3(1,0,0)), D3(V3(0,1,0)), r, r);
    EntityNetworkBuilder<double> b; b.setEpsilon(1e-3);
    const bool plain = sym_bool("plain");
    if (plain) b.addEntities(disks); else b.addSubDomainEntities(disks, Id(4));
    const auto& net = b.build();
    sym_assert(net.entityDimension() == 2 && commons == 0 && long(fragmentArgs.size()) == k, "all entities are part of the network");
    for (const auto& s : net.entityFragments())
    {
        const auto e = occ::subs(s, TopAbs_EDGE);
        sym_assert(s.ShapeType() == TopAbs_FACE && e.size() == 1, "disks are faces");
        const int i = net.entityFragmentsIndexMap().Find(s);
        sym_near(e[0].n->p.X(), c.x(), 1e-9, "shape of the disk"); sym_near(e[0].n->p.Y(), c.y(), 1e-9, "shape of the disk");
        sym_near(e[0].n->p.Z(), c.z()+double(i-1), 1e-9, "entities are counted in the order in which they were added"); sym_near(e[0].n->a, r, 1e-9, "shape of the disk");
    }
    sym_assert(long(net.entityFragments().Extent()) == k, "all entities are part of the network");
    if (plain) { add(b, 2, 3, 0); b.build(); sym_assert(commons == 1, "entities added without an id belong to the sub-domain of id zero"); }
}
