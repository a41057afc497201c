// C19: entity networks consist of the pieces of the (confined) entities, each known to come from its entity
#include "geo.hh"
#include <frackit/entitynetwork/networkbuilder.hh>
using namespace Frackit;
using Shapes = std::vector<TopoDS_Shape>;
static TopoDS_Face face() { return occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_OTHER); }
static TopoDS_Solid solid() { return occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); }
static bool has(const Shapes& v, const TopoDS_Shape& s) { for (const auto& x : v) if (x.IsSame(s)) return true; return false; }
static bool sameSet(const Shapes& a, const Shapes& b)
{
    for (const auto& x : a) if (!has(b, x)) return false;
    for (const auto& x : b) if (!has(a, x)) return false;
    return true;
}
struct Piece { TopoDS_Shape s; int net, entity; };              // a piece of an entity (1-based position in its network)
static const std::size_t ids[3] = {3, 0, 5};
static struct World
{
    Shapes nets[3]; TopoDS_Solid dom[3]; bool there[3], bounds[3]; bool unite; TopoDS_Shape all;
    std::vector<Piece> now;                                      // current pieces of all entities
    std::vector<std::pair<TopoDS_Shape, int>> domPieces;         // pieces of the sub-domains
    bool confined[3]; int fuses, fragments; double eps; long kinds1, kinds2, kindsD; bool contained, fail1, fail2, shared;
} W;
// an arbitrary outcome for one argument of a boolean operation
static Shapes outcome(const TopoDS_Shape& s, long kinds, const TopoDS_Shape* common, occ::Result& r)
{
    const long k = sym_choice("outcome", kinds);
    occ::Hist h; h.s = s; Shapes out;
    const bool isFace = s.n->type == TopAbs_FACE;
    auto piece = [&] { return isFace ? TopoDS_Shape(face()) : TopoDS_Shape(solid()); };
    if (k == 0) return {s};                                      // not changed
    if (k == 1) { for (int i = 0; i < 2; ++i) h.mod.push_back(piece()); }
    if (k == 2) h.deleted = true;
    if (k == 3) { h.mod.push_back(piece()); h.gen.push_back(piece()); }
    // pieces that entities share have the orientation of the entity
    auto shared = [&] { return common ? (sym_bool("reversed") ? common->Reversed() : *common) : piece(); };
    if (k == 4) { h.mod.push_back(piece()); h.mod.push_back(shared()); }
    if (k == 5) h.gen.push_back(shared());
    for (const auto& x : h.mod) out.push_back(x);
    for (const auto& x : h.gen) out.push_back(x);
    r.hist.push_back(h);
    return out;
}
static void answer(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{
    sym_assert(fuzzy == W.eps, "boolean operations use the tolerance set");
    Shapes doms; for (int i = 0; i < 3; ++i) if (W.there[i]) doms.push_back(W.dom[i]);
    if (op == occ::FUSE)
    {
        Shapes b = a; for (const auto& x : t) b.push_back(x);
        sym_assert(sameSet(b, doms), "the domain is the union of all sub-domains");
        ++W.fuses; W.all = solid(); r.shape = W.all;
    }
    else if (op == occ::COMMON)
    {
        int i = 0; while (i < 3 && !(W.nets[i].size() == a.size() && !a.empty() && sameSet(a, W.nets[i]))) ++i;
        if (i == 3) { sym_fail("only whole networks are confined"); return; }
        sym_assert(!W.confined[i], "networks are confined once");
        sym_assert(t.size() == 1, "networks are confined by one shape");
        sym_assert(W.there[i] && (W.bounds[i] ? t[0].IsSame(W.dom[i])
                                  : W.unite && ((doms.size() == 1 && t[0].IsSame(doms[0])) || (!W.all.IsNull() && t[0].IsSame(W.all)))), "networks are confined by their sub-domain or the union of all");
        W.confined[i] = true;
        std::vector<Piece> next;
        const TopoDS_Shape common = face();
        for (const auto& p : W.now)
        {
            if (p.net != i) { next.push_back(p); continue; }
            for (const auto& s : outcome(p.s, W.kinds1, W.shared ? &common : nullptr, r)) next.push_back({s, p.net, p.entity});
        }
        W.now = next;
        if (W.fail1) r.done = false;
    }
    else if (op == occ::FRAGMENT)
    {
        Shapes b; for (const auto& p : W.now) b.push_back(p.s);
        if (W.contained) for (const auto& d : doms) b.push_back(d);
        sym_assert(t.empty() && sameSet(a, b), W.contained ? "all pieces and all sub-domains are fragmented" : "all pieces are fragmented, and nothing else");
        ++W.fragments;
        const TopoDS_Shape common = face();
        std::vector<Piece> next;
        std::vector<std::pair<TopoDS_Shape, Shapes>> known;
        for (const auto& p : W.now)
        {
            const Shapes* o = nullptr;
            for (const auto& k : known) if (k.first.IsSame(p.s)) o = &k.second;
            const Shapes out = o ? *o : outcome(p.s, W.kinds2, W.shared ? &common : nullptr, r);
            if (!o) known.push_back({p.s, out});
            for (const auto& s : out) next.push_back({s, p.net, p.entity});
        }
        W.now = next;
        if (W.contained) for (int i = 0; i < 3; ++i) if (W.there[i]) for (const auto& s : outcome(W.dom[i], i == 0 || W.kindsD == 1 ? W.kindsD : W.kindsD/2, nullptr, r)) W.domPieces.push_back({s, i});
        if (W.fail2) r.done = false;
    }
    else sym_fail("only unions, intersections and fragmentations");
}
static bool needed(int i) { return W.there[i] && (W.bounds[i] || W.unite) && !W.nets[i].empty(); }
static void world() { W = World(); occ::boolean = answer; W.unite = true; W.kinds1 = W.kinds2 = 1; W.kindsD = 2; }
template<class B> static void start(B& b)
{
    W.now.clear(); W.domPieces.clear(); W.all.Nullify(); W.fuses = W.fragments = 0;
    for (int i = 0; i < 3; ++i)
    {
        W.confined[i] = false;
        for (std::size_t j = 0; j < W.nets[i].size(); ++j) W.now.push_back({W.nets[i][j], i, int(j)+1});
    }
}
template<class B> static void addDomain(B& b, int i, bool bounds)
{
    W.dom[i] = solid(); W.there[i] = true; W.bounds[i] = bounds;
    if (bounds) b.addConfiningSubDomain(W.dom[i], Id(ids[i])); else b.addSubDomain(W.dom[i], Id(ids[i]));
}
template<class B> static void addEntity(B& b, int i) { const auto f = face(); W.nets[i].push_back(f); b.addSubDomainEntity(f, Id(ids[i])); }
static bool owner(const TopoDS_Shape& s, int net, int entity)
{ for (const auto& p : W.now) if (p.s.IsSame(s) && p.net == net && p.entity == entity) return true; return false; }
static int owners(const TopoDS_Shape& s) { int n = 0; for (const auto& p : W.now) n += p.s.IsSame(s); return n; }
static void confinedAsAsked()
{
    for (int i = 0; i < 3; ++i) sym_assert(W.confined[i] == needed(i), "networks are confined exactly when they are to be");
    sym_assert(W.fragments == 1, "the pieces are fragmented");
}
// the network of all sub-domains
static void check(const EntityNetwork& n)
{
    confinedAsAsked();
    Shapes got, want;
    for (const auto& s : n.entityFragments()) got.push_back(s);
    for (const auto& p : W.now) if (!has(want, p.s)) want.push_back(p.s);
    sym_assert(sameSet(got, want) && got.size() == want.size(), "the network consists of the pieces of its entities");
    sym_assert(n.entityDimension() == 2, "dimension of the entities");
    const auto& map = n.entityFragmentsIndexMap();
    int offset[3] = {-1, -1, -1};
    for (const auto& p : W.now)
    {
        int idx = 0;
        sym_assert(map.Find(p.s, idx), "every piece has the index of its entity");
        sym_assert(idx >= 1, "indices start from one");
        if (owners(p.s) > 1) continue;
        const int o = idx - p.entity;
        if (offset[p.net] < 0) { sym_assert(o >= 0, "positions are counted per sub-domain"); offset[p.net] = o; }
        sym_assert(o == offset[p.net], "pieces are mapped to the position of their entity");
    }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j)
        if (offset[i] >= 0 && offset[j] >= 0)
            sym_assert(offset[i] >= offset[j] + int(W.nets[j].size()) || offset[j] >= offset[i] + int(W.nets[i].size()), "entities of different sub-domains do not share an index");
    for (const auto& p : W.now)
    {
        if (owners(p.s) == 1) continue;
        const int idx = map.Find(p.s);
        bool one = false, unsure = false;
        for (const auto& q : W.now) if (q.s.IsSame(p.s)) { if (offset[q.net] < 0) unsure = true; else if (idx == offset[q.net] + q.entity) one = true; }
        sym_assert(one || unsure, "shared pieces are mapped to one of their entities");
    }
    sym_assert(map.Extent() == int(want.size()), "nothing else is mapped");
}
static void check(const ContainedEntityNetwork& n)
{
    confinedAsAsked();
    int k = 0; for (int i = 0; i < 3; ++i) k += W.there[i];
    sym_assert(n.entityDimension() == 2, "dimension of the entities");
    if (k > 0) sym_assert(n.domainDimension() == 3, "dimension of the domain");
    sym_assert(int(n.subDomainIds().size()) == k, "all sub-domains are known");
    for (int i = 0; i < 3; ++i)
    {
        bool listed = false;
        for (const auto& id : n.subDomainIds()) listed |= id.get() == ids[i];
        sym_assert(listed == W.there[i], "all sub-domains are known");
        if (!W.there[i]) continue;
        Shapes got, want, dg, dw;
        for (const auto& s : n.subDomainFragments(Id(ids[i]))) dg.push_back(s);
        for (const auto& p : W.domPieces) if (p.second == i) dw.push_back(p.first);
        sym_assert(sameSet(dg, dw) && dg.size() == dw.size(), "sub-domains consist of their pieces");
        for (const auto& s : n.subDomainEntityFragments(Id(ids[i]))) got.push_back(s);
        for (const auto& p : W.now) if (p.net == i && !has(want, p.s)) want.push_back(p.s);
        sym_assert(sameSet(got, want) && got.size() == want.size(), "the network of a sub-domain consists of the pieces of its entities");
        const auto& map = n.subDomainEntityFragmentsIndexMap(Id(ids[i]));
        sym_assert(map.Extent() == int(want.size()), "nothing else is mapped");
        for (const auto& s : want)
        {
            int idx = 0;
            sym_assert(map.Find(s, idx), "every piece has the index of its entity");
            sym_assert(owner(s, i, idx), "pieces are mapped to their entity");
        }
    }
}
// which networks are confined by what
template<class B> static void confine()
{
    world(); W.kinds1 = 4;
    W.contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    B b;
    W.eps = sym_real("eps", 1e-9, 1); b.setEpsilon(W.eps);
    W.unite = sym_bool("unite"); if (!W.unite || sym_bool("said")) b.setConfineToSubDomainUnion(W.unite);
    for (int i = 0; i < 2; ++i) { const long k = sym_choice("domain", 3); if (k) addDomain(b, i, k == 2); }
    const long n0 = 1 + sym_choice("entities", 2);
    for (long j = 0; j < n0; ++j) addEntity(b, 0);
    addEntity(b, 1); addEntity(b, 2);
    W.kindsD = 1;
    start(b);
    check(b.build());
    check(b.network());
}
HARNESS(c19_confine) { confine<EntityNetworkBuilder<double>>(); }
HARNESS(c19_confine_contained) { confine<ContainedEntityNetworkBuilder<double>>(); }
// all outcomes of the fragmentation
template<class B> static void fragments()
{
    world(); W.kinds2 = 6; W.kindsD = 4; W.shared = true;
    W.contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    B b;
    W.eps = sym_real("eps", 1e-9, 1); b.setEpsilon(W.eps);
    W.unite = false; b.setConfineToSubDomainUnion(false);
    if (W.contained) { addDomain(b, 0, false); if (sym_bool("two")) addDomain(b, 1, false); }
    const long n = sym_choice("entities", W.contained ? 2 : 3);
    addEntity(b, 0); if (!W.contained && n > 0) addEntity(b, 1); addEntity(b, n == (W.contained ? 1 : 2) ? 1 : 0);
    start(b);
    check(b.build());
}
HARNESS(c19_fragments) { fragments<EntityNetworkBuilder<double>>(); }
HARNESS(c19_fragments_contained) { fragments<ContainedEntityNetworkBuilder<double>>(); }
// entities that share pieces already when they are confined
template<class B> static void shared()
{
    world(); W.kinds1 = 6; W.kinds2 = 2; W.kindsD = 1; W.shared = true;
    W.contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    B b;
    W.eps = 1e-3; b.setEpsilon(W.eps);
    addDomain(b, 0, true); addEntity(b, 0); addEntity(b, 0);
#ifdef THOROUGH
    if (sym_bool("other")) addEntity(b, 1);
#endif
    start(b);
    check(b.build());
}
HARNESS(c19_shared) { shared<EntityNetworkBuilder<double>>(); }
HARNESS(c19_shared_contained) { shared<ContainedEntityNetworkBuilder<double>>(); }
// both steps, repeated with further entities
template<class B> static void again()
{
    world(); W.kinds1 = 3; W.kinds2 = 2; W.kindsD = 1;
    W.contained = std::is_same<typename B::EntityNetwork, ContainedEntityNetwork>::value;
    B b;
    W.eps = sym_real("eps", 1e-9, 1); b.setEpsilon(W.eps);
    addDomain(b, 0, sym_bool("bounds")); addDomain(b, 1, true);
    addEntity(b, 0); addEntity(b, 1);
    start(b);
    if (sym_bool("first"))
    {
        W.kinds1 = W.kinds2 = 1;
        check(b.build());
        W.kinds1 = W.kinds2 = 2;
        const long what = sym_choice("then", 3);
        if (what == 1) addDomain(b, 2, false);
        if (what == 2)
        {
            b.clear();
            for (int i = 0; i < 3; ++i) { W.nets[i].clear(); W.there[i] = W.bounds[i] = false; }
            addDomain(b, 1, true); addEntity(b, 1); addEntity(b, 1);
        }
        else addEntity(b, 2);
        start(b);
    }
    check(b.build());
    check(b.network());
}
HARNESS(c19_again) { again<EntityNetworkBuilder<double>>(); }
HARNESS(c19_again_contained) { again<ContainedEntityNetworkBuilder<double>>(); }
