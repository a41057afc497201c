// C14: constraint matrices, entity sets of several geometry types
#include "geo.hh"
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <frackit/common/id.hh>
#include <frackit/common/idpair.hh>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometryutilities/name.hh>
#include <frackit/geometryutilities/assign.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
using namespace Frackit;

template<int t> struct Geo : public Geometry
{
    int k = 0;
    Geo() {}
    Geo(int i) : k(i) {}
    std::string name() const override { return t == 0 ? "Alpha" : t == 1 ? "Beta" : "Gamma"; }
};
using GA = Geo<0>; using GB = Geo<1>; using GC = Geo<2>;
using Sets = MultiGeometryEntitySet<GA, GB, GC>;

// ---- the matrix: constraints whose answer for a set is arbitrary
static bool okay[4][5];            // constraints tag, id of the set
static int entityK;
struct Cons
{
    int tag;
    template<class S, class E> bool evaluate(const std::vector<S>& s, const E& e) const
    { sym_assert(e.k == entityK, "the entity given is checked"); return s.empty() || okay[tag][s[0].k/10]; }
    template<class S, class E> bool evaluate(const E& e, const std::vector<S>& s) const { return evaluate(s, e); }
};
HARNESS(c14_matrix)
{
    EntityNetworkConstraintsMatrix<Cons> m;
    int rel[3][3];                 // tag of the constraints of (id, other)
    for (auto& r : rel) for (int& t : r) t = -1;
    static const std::size_t ids[3] = {1, 2, 4};
    // up to three steps; each defines one or two relations
    const long steps = sym_choice("steps", 4);
    for (long i = 0; i < steps; ++i)
    {
        #ifdef THOROUGH
        const long a = sym_choice("a", 3);
#else
        const long a = sym_choice("a", 2);
#endif
        const long b = sym_choice("b", 3);
        const bool list = i == 0 && sym_bool("list");
        const long c = list ? (b+1)%3 : 0, d = list ? a : 0;
        const bool dup = rel[a][b] >= 0 || (list && (c == a && d == b));
        bool thrown = false;
        try
        {
            const Cons cons{int(i)};
            if (list) m.addConstraints(cons, {IdPair(ids[a], ids[b]), IdPair(Id(ids[c]), Id(ids[d]))});
            else m.addConstraints(cons, IdPair(ids[a], ids[b]));
        }
        catch (const std::runtime_error&) { thrown = true; }
        sym_assert(thrown == dup, "a relation that was defined already is refused, any other is accepted");
        if (rel[a][b] < 0) rel[a][b] = int(i);
        if (list && rel[c][d] < 0) rel[c][d] = int(i);
    }
    // sets 1 and 2 have entities, set 4 may be missing
    Sets s; s.addEntity(GA(10), Id(1)); s.addEntity(GB(20), Id(2));
    const bool third = sym_bool("third"); if (third) s.addEntity(GA(40), Id(4));
    static const char* N[4][3] = {{"a1","a2","a4"},{"b1","b2","b4"},{"c1","c2","c4"},{"d1","d2","d4"}};
    for (int t = 0; t < 3; ++t) for (int j = 0; j < 3; ++j) okay[t][ids[j]] = sym_bool(N[t][j]);
    const long q = sym_choice("id", 3);
    bool want = true, any = false;
    for (int j = 0; j < 3; ++j)
        if (rel[q][j] >= 0)
        {
            any = true;
            if (j < 2 || third) want = want & okay[rel[q][j]][ids[j]];
        }
    entityK = 77;
    int got;
    try { got = m.evaluate(s, GB(77), Id(ids[q])); } catch (const std::runtime_error&) { got = 2; }
    sym_assert((got == 2) == !any, "an id without constraints is refused");
    if (any) sym_assert((got == 1) == want, "an entity is admissible exactly when it is so for every set its id is related to; missing sets do not count");
}

// ---- entity sets: a history of additions against a model
struct Model { int type[3] = {-1,-1,-1}; std::vector<int> k[3]; };
static const std::size_t ID[3] = {0, 3, 7};
template<class S> static std::vector<int> keys(const S& v) { std::vector<int> r; for (const auto& e : v) r.push_back(e.k); return r; }
static void same(const std::vector<int>& a, const std::vector<int>& b, const char* l)
{
    sym_assert(a.size() == b.size(), l);
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) sym_assert(a[i] == b[i], l);
}
static void fill(Sets& s, Model& m, int n)
{
    for (int i = 0; i < n; ++i)
    {
        const long t = sym_choice("type", 3), j = sym_choice("id", 3);
        const int k = 10 + i;
        const bool bad = m.type[j] >= 0 && m.type[j] != t, ptr = i % 2 == 0 && sym_bool("pointer");
        bool thrown = false;
        try
        {
            if (ptr) s.addEntity(t == 0 ? std::shared_ptr<Geometry>(std::make_shared<GA>(k)) : t == 1 ? std::shared_ptr<Geometry>(std::make_shared<GB>(k)) : std::shared_ptr<Geometry>(std::make_shared<GC>(k)), Id(ID[j]));
            else if (t == 0) s.addEntity(GA(k), Id(ID[j]));
            else if (t == 1) s.addEntity(GB(k), Id(ID[j]));
            else s.addEntity(GC(k), Id(ID[j]));
        }
        catch (const std::runtime_error&) { thrown = true; }
        sym_assert(thrown == bad, "an entity of another type than that of its set is refused, any other is accepted");
        if (!bad) { m.type[j] = int(t); m.k[j].push_back(k); }
    }
}
HARNESS(c14_sets)
{
    Sets s; Model m;
#ifdef THOROUGH
    fill(s, m, 4);
#else
    fill(s, m, 3);
#endif
    std::size_t total = 0;
    for (int j = 0; j < 3; ++j)
    {
        std::vector<int> got; int type = -1, calls = 0;
        const bool applied = s.applyOnSet(Id(ID[j]), [&] (const auto& v)
        {
            ++calls; got = keys(v);
            using G = typename std::decay_t<decltype(v)>::value_type;
            type = std::is_same_v<G, GA> ? 0 : std::is_same_v<G, GB> ? 1 : 2;
        });
        sym_assert(applied == (m.type[j] >= 0), "a function is applied to the set with the id if there is one");
        sym_assert(calls == (applied ? 1 : 0), "the function is applied once");
        if (applied) { sym_assert(type == m.type[j], "the set has the type of its entities"); same(got, m.k[j], "the set holds the entities added to it, in their order"); }
        sym_assert(s.numEntities(Id(ID[j])) == m.k[j].size(), "the number of entities of a set");
        total += m.k[j].size();
    }
    sym_assert(s.numEntities() == total, "the overall number of entities");
    sym_assert(!s.applyOnSet(Id(99), [] (const auto&) { sym_fail("a function is applied to a set that does not exist"); }) && s.numEntities(Id(99)) == 0, "an id without entities is reported as such");
}
// ---- export into a network builder
struct Recorder
{
    std::vector<int> in[3]; int sub = -1; bool plain = false, wrong = false;
    template<class S> void add(const S& v)
    {
        using G = typename S::value_type;
        const int t = std::is_same_v<G, GA> ? 0 : std::is_same_v<G, GB> ? 1 : 2;
        for (const auto& e : v) in[t].push_back(e.k);
    }
    template<class S> void addSubDomainEntities(const S& v, const Id& id) { if (sub >= 0 && sub != int(id.get())) wrong = true; sub = int(id.get()); add(v); }
    template<class S> void addEntities(const S& v) { plain = true; add(v); }
    template<class E> void addSubDomainEntity(const E& e, const Id& id) { std::vector<E> v; v.push_back(e); addSubDomainEntities(v, id); }
    template<class E> void addEntity(const E& e) { std::vector<E> v; v.push_back(e); addEntities(v); }
};
HARNESS(c14_export)
{
    Sets s; Model m; fill(s, m, 2);
    // more of a fixed kind
    if (sym_bool("more")) { const int j = m.type[0] < 0 ? 0 : m.type[1] < 0 ? 1 : 2; if (m.type[j] < 0) { s.addEntity(GB(30), Id(ID[j])); s.addEntity(GB(31), Id(ID[j])); m.type[j] = 1; m.k[j] = {30, 31}; } }
    Recorder r; const long how = sym_choice("how", 5);
    bool take[3] = {true, true, true};
    if (how == 0) s.exportEntitySets(r, Id(5));
    else if (how == 1) s.exportEntitySets(r);
    else if (how == 2) { s.exportEntitySets({Id(ID[0]), Id(ID[2])}, r, Id(5)); take[1] = false; }
    else if (how == 3) { s.exportEntitySets({Id(ID[1])}, r, Id(5)); take[0] = take[2] = false; }
    else { s.exportEntitySets({Id(99), Id(ID[2])}, r, Id(5)); take[0] = take[1] = false; }
    std::vector<int> want[3];
    for (int j = 0; j < 3; ++j) if (take[j] && m.type[j] >= 0) for (int k : m.k[j]) want[m.type[j]].push_back(k);
    for (int t = 0; t < 3; ++t)
    {
        std::sort(want[t].begin(), want[t].end()); std::sort(r.in[t].begin(), r.in[t].end());
        same(r.in[t], want[t], "exactly the entities of the sets asked for are exported, each with its type");
    }
    sym_assert(!r.wrong && (r.sub < 0 || r.sub == 5) && (how == 1 || !r.plain) && (how != 1 || r.sub < 0), "entities are exported for the sub-domain given");
}
// ---- entities that do not belong
struct Delta : public Geometry { std::string name() const override { return "Delta"; } };
HARNESS(c14_unknown)
{
    Sets s; s.addEntity(GA(1), Id(2));
    bool thrown = false;
    try { s.addEntity(std::shared_ptr<Geometry>(std::make_shared<Delta>()), Id(sym_bool("known") ? 2 : 3)); } catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown, "geometries of a type the sets are not made for are refused");
    sym_assert(s.numEntities() == 1, "a refused entity is not stored");
}
HARNESS(c14_ids)
{
    const std::size_t a = sym_int("a", 0, 1000000), b = sym_int("b", 0, 1000000);
    const IdPair p(a, b), q{Id(a), Id(b)};
    sym_assert(p.first().get() == a && p.second().get() == b && q.first() == Id(a) && q.second() == Id(b), "a pair of ids holds both in order");
    sym_assert((Id(a) == Id(b)) == (a == b), "ids are equal exactly when their values are");
}
