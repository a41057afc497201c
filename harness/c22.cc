// C22: files written for entity networks
#include "geo.hh"
#include <string>
#include <fstream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <frackit/entitynetwork/entitynetwork.hh>
#include <frackit/entitynetwork/containedentitynetwork.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
using namespace Frackit;
using Shapes = std::vector<TopoDS_Shape>;
static bool has(const Shapes& v, const TopoDS_Shape& s) { for (const auto& x : v) if (x.IsSame(s)) return true; return false; }
static TopoDS_Edge edge(const TopoDS_Vertex& a, const TopoDS_Vertex& b) { return occ::lineEdge(a, b); }
static TopoDS_Wire wire(const Shapes& e) { auto w = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); w.n->kids = e; w.n->closed = true; return w; }
static TopoDS_Face face(const Shapes& w) { auto f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_FACE); f.n->kids = w; return f; }
static TopoDS_Shape turned(const TopoDS_Shape& s, bool t) { return t ? s.Reversed() : s; }

// ---------------------------------------------------------------- the files
static std::string name()
{
#ifdef SHADOW_IO_HH
    return "network";
#else
    return "/tmp/verif_c22_" + std::to_string(getpid());
#endif
}
struct Files { std::string text; std::vector<double> sizes; std::string brep; Shapes kids; };
static Files files()
{
    Files r; r.brep = occ::lastWritten; r.kids = occ::lastShape.IsNull() ? Shapes() : occ::lastShape.n->kids;
    const std::string geo = name() + ".geo";
#ifdef SHADOW_IO_HH
    for (const auto& f : shadow::files) if (f.name == geo) { r.text = f.text; r.sizes = f.values; }
#else
    { std::ifstream f(geo); std::stringstream s; s << f.rdbuf(); r.text = s.str(); }
    std::remove(geo.c_str());
    for (const char* k : {"sizeAtEntities = ", "sizeAtBoundary = "})
    { const auto p = r.text.find(k); if (p != std::string::npos) r.sizes.push_back(std::strtod(r.text.c_str() + p + std::string(k).size(), nullptr)); }
#endif
    return r;
}
// the statements of a kind: "<kind>(id) = {a, b, ...}"
struct Group { long id; std::vector<long> members; std::size_t pos; };
static bool digits(const std::string& t, std::size_t& p, long& v)
{
    if (p >= t.size() || t[p] < '0' || t[p] > '9') return false;
    v = 0; while (p < t.size() && t[p] >= '0' && t[p] <= '9') v = 10*v + (t[p++] - '0');
    return true;
}
static bool braces(const std::string& t, std::size_t& p, std::vector<long>& out)
{
    while (p < t.size() && t[p] == ' ') ++p;
    if (p >= t.size() || t[p] != '{') return false;
    ++p;
    while (p < t.size() && t[p] != '}') { long v; if (t[p] == ' ' || t[p] == ',') { ++p; continue; } if (!digits(t, p, v)) return false; out.push_back(v); }
    ++p; return true;
}
static std::vector<Group> groups(const std::string& t, const std::string& kind)
{
    std::vector<Group> r;
    for (std::size_t p = t.find(kind); p != std::string::npos; p = t.find(kind, p))
    {
        Group g; g.pos = p; p += kind.size();
        bool ok = p < t.size() && t[p] == '('; ++p;
        ok = ok && digits(t, p, g.id) && p < t.size() && t[p] == ')'; ++p;
        while (p < t.size() && t[p] == ' ') ++p;
        ok = ok && p < t.size() && t[p] == '='; ++p;
        ok = ok && braces(t, p, g.members) && p < t.size() && t[p] == ';';
        sym_assert(ok, "the physical definitions are well-formed");
        r.push_back(g);
    }
    return r;
}
// "Characteristic Length{ PointsOf{<kind>{...};} } = <size>;"
static std::vector<Group> lengths(const std::string& t, const std::string& kind, const std::string& size)
{
    std::vector<Group> r; const std::string head = "Characteristic Length{ PointsOf{" + kind, tail = "} } = " + size + ";";
    for (std::size_t p = t.find(head); p != std::string::npos; p = t.find(head, p))
    {
        Group g; g.pos = p; p += head.size(); g.id = 0;
        bool ok = braces(t, p, g.members) && p < t.size() && t[p] == ';'; ++p;
        ok = ok && t.compare(p, tail.size(), tail) == 0;
        sym_assert(ok, "the mesh size definitions are well-formed");
        r.push_back(g);
    }
    return r;
}
// the sub-shapes of a type in the order in which they are numbered
static Shapes numbered(const Files& f, TopAbs_ShapeEnum t) { Shapes r; for (const auto& s : f.kids) if (s.n->type == t) r.push_back(s); return r; }
static bool sameMembers(const std::vector<long>& a, const std::vector<long>& b)
{ if (a.size() != b.size()) return false; for (long x : a) { bool in = false; for (long y : b) in |= x == y; if (!in) return false; } return true; }

// ---------------------------------------------------------------- networks
struct Entity { TopoDS_Shape s; long id; };            // a fragment and the group it belongs to (sub-domain, entity)
struct Net { std::vector<Entity> fragments; std::vector<std::pair<TopoDS_Shape, long>> solids; Shapes other; bool contained = false; double a, b; };
static void all(const TopoDS_Shape& s, Shapes& out)
{ if (s.n->type != TopAbs_COMPOUND && !has(out, s)) out.push_back(s); for (const auto& k : s.n->kids) all(k, out); }
static void check(const Net& n, bool mesh)
{
    const Files f = files();
    sym_assert(f.brep == name() + ".brep", "the shapes are written to the .brep file of that name");
    // every sub-shape once
    Shapes want; for (const auto& e : n.fragments) all(e.s, want); for (const auto& s : n.solids) all(s.first, want);
    for (std::size_t i = 0; i < f.kids.size(); ++i)
    {
        sym_assert(has(want, f.kids[i]), "nothing but the network and its domain is written");
        for (std::size_t j = 0; j < i; ++j) sym_assert(!f.kids[i].IsSame(f.kids[j]), "every shape is written once");
    }
    sym_assert(f.kids.size() == want.size(), "the whole network and its domain are written");
    if (!mesh) return;
    const Shapes F = numbered(f, TopAbs_FACE), E = numbered(f, TopAbs_EDGE), V = numbered(f, TopAbs_SOLID);
    sym_assert(f.text.find("Merge \"" + name() + ".brep\";") == 0, "the shapes are read from that file");
    sym_assert(f.sizes.size() == 2, "two mesh sizes are defined");
    sym_near(f.sizes[0], n.a, 1e-4, "mesh size at the entities"); sym_near(f.sizes[1], n.b, 1e-4, "mesh size at the boundary");
    sym_assert(f.text.find("sizeAtEntities = ") < f.text.find("sizeAtBoundary = "), "mesh size at the entities");
    // entities
    const auto surfaces = groups(f.text, "Physical Surface"), sl = lengths(f.text, "Surface", "sizeAtEntities");
    std::vector<long> ids; for (const auto& e : n.fragments) { bool in = false; for (long i : ids) in |= i == e.id; if (!in) ids.push_back(e.id); }
    sym_assert(surfaces.size() == ids.size() && sl.size() == ids.size(), "one physical surface per entity");
    std::vector<bool> seen(ids.size(), false);
    for (std::size_t g = 0; g < surfaces.size(); ++g)
    {
        for (std::size_t h = 0; h < g; ++h) sym_assert(surfaces[g].id != surfaces[h].id, "physical surfaces have different numbers");
        const auto& m = surfaces[g].members;
        sym_assert(!m.empty() && m[0] >= 1 && m[0] <= long(F.size()), "numbers of faces");
        long id = -1; for (const auto& e : n.fragments) if (e.s.IsSame(F[m[0]-1])) id = e.id;
        std::vector<long> expected;
        for (std::size_t i = 0; i < F.size(); ++i) for (const auto& e : n.fragments) if (e.s.IsSame(F[i]) && e.id == id) expected.push_back(long(i)+1);
        sym_assert(id >= 0 && sameMembers(m, expected), "the physical surface of an entity consists of all of its fragments");
        for (std::size_t i = 0; i < ids.size(); ++i) if (ids[i] == id) { sym_assert(!seen[i], "one physical surface per entity"); seen[i] = true; }
        if (!n.contained) sym_assert(surfaces[g].id == id, "physical surfaces are numbered like the entities");
        bool sized = false; for (const auto& l : sl) sized |= sameMembers(l.members, m);
        sym_assert(sized, "entities have the mesh size of entities");
    }
    // domains
    const auto volumes = groups(f.text, "Physical Volume"), vl = lengths(f.text, "Volume", "sizeAtBoundary");
    std::vector<long> doms; for (const auto& s : n.solids) { bool in = false; for (long d : doms) in |= d == s.second; if (!in) doms.push_back(s.second); }
    sym_assert(volumes.size() == doms.size() && vl.size() == doms.size(), "one physical volume per sub-domain");
    for (const auto& v : volumes)
    {
        std::vector<long> expected;
        for (std::size_t i = 0; i < V.size(); ++i) for (const auto& s : n.solids) if (s.first.IsSame(V[i]) && s.second == v.id) expected.push_back(long(i)+1);
        sym_assert(!expected.empty() && sameMembers(v.members, expected), "the physical volume of a sub-domain consists of all of its fragments");
        bool sized = false; for (const auto& l : vl) { sized |= sameMembers(l.members, v.members); for (const auto& k : sl) sym_assert(l.pos < k.pos, "mesh sizes of entities override those of the domain"); }
        sym_assert(sized, "sub-domains have the mesh size of boundaries");
    }
    // intersections
    const auto lines = groups(f.text, "Physical Line");
    for (std::size_t i = 0; i < E.size(); ++i)
    {
        int faces = 0, listed = 0;
        for (const auto& e : n.fragments) faces += has(occ::subs(e.s, TopAbs_EDGE), E[i]);
        for (const auto& l : lines) for (long m : l.members) listed += m == long(i)+1;
        sym_assert(listed == (faces > 1), "edges in which fragments of entities meet are physical lines, once, and others are not");
    }
    for (std::size_t g = 0; g < lines.size(); ++g)
    {
        sym_assert(!lines[g].members.empty(), "no physical line is empty");
        for (std::size_t h = 0; h < g; ++h) sym_assert(lines[g].id != lines[h].id, "physical lines have different numbers");
        for (long m : lines[g].members) sym_assert(m >= 1 && m <= long(E.size()), "numbers of edges");
        // one line belongs to one pair of fragments
        bool pair = false;
        for (const auto& a : n.fragments) for (const auto& b : n.fragments)
        {
            if (a.s.IsSame(b.s)) continue;
            bool in = true; for (long m : lines[g].members) in = in && has(occ::subs(a.s, TopAbs_EDGE), E[m-1]) && has(occ::subs(b.s, TopAbs_EDGE), E[m-1]);
            pair |= in;
        }
        sym_assert(pair, "a physical line belongs to the intersection of two fragments");
    }
}
static void sizes(Net& n) { n.a = sym_real("a", 0.1, 9); n.b = sym_real("b", 0.1, 9); }
template<class N> static void write(const N& net, Net& n)
{
#ifdef SHADOW_IO_HH
    shadow::files.clear();
#endif
    occ::lastWritten = ""; occ::lastShape.Nullify();
    const long k = sym_choice("writer", 3);
    if (k == 0) { BRepWriter w(net); w.write(name()); check(n, false); }
    else if (k == 1) { GmshWriter w(net); w.write(name(), n.a, n.b); check(n, true); }
    else { GmshWriter w(net); w.write(name(), n.a); n.b = n.a; check(n, true); }
}
// three fragments that may share edges, with any orientation
static void fragments(Shapes& f, int count, bool orient)
{
    const TopoDS_Vertex a = occ::vertex(gp_Pnt(0,0,0)), b = occ::vertex(gp_Pnt(1,0,0)), c = occ::vertex(gp_Pnt(2,0,0));
    const TopoDS_Shape s = edge(a, b), t = edge(b, c);                 // the edges that may be shared
    for (int i = 0; i < count; ++i)
    {
        const TopoDS_Vertex d = occ::vertex(gp_Pnt(0,1+i,1)), e = occ::vertex(gp_Pnt(1,1+i,1));
        Shapes k = {edge(d, e)};
        const long share = sym_choice("share", 4); const bool rev = orient && sym_bool("reversed");
        if (share & 1) k.push_back(turned(s, rev));
        if (share & 2) k.push_back(turned(t, !rev));
        f.push_back(turned(face({wire(k)}), orient && i == 0 && sym_bool("face reversed")));
    }
}
HARNESS(c22_network)
{
    Net n; sizes(n); Shapes f; fragments(f, 3, false);
    TopTools_ListOfShape list; TopTools_DataMapOfShapeInteger map;
    const long ids[3] = {1, 1 + sym_choice("second", 2), 1 + sym_choice("third", 3)};
    for (int i = 0; i < 3; ++i) { list.Append(f[i]); map.Bind(f[i], int(ids[i])); n.fragments.push_back({f[i], ids[i]}); }
    const EntityNetwork net(2, std::move(list), std::move(map));
    write(net, n);
}
HARNESS(c22_orientation)
{
    Net n; sizes(n); Shapes f; fragments(f, 2, true);
    TopTools_ListOfShape list; TopTools_DataMapOfShapeInteger map;
    for (int i = 0; i < 2; ++i) { list.Append(f[i]); map.Bind(f[i], i+1); n.fragments.push_back({f[i], long(i)+1}); }
    const EntityNetwork net(2, std::move(list), std::move(map));
    write(net, n);
}
// a domain with a boundary face on which fragments end
static TopoDS_Shape solid(const Shapes& faces)
{
    auto s = occ::fresh<TopoDS_Shell>(TopAbs_SHELL, occ::K_SHELL); s.n->kids = faces;
    auto r = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_OTHER); r.n->kids.push_back(s); return r;
}
HARNESS(c22_boundary)
{
    Net n; n.contained = true; sizes(n); Shapes f; fragments(f, 2, true);
    // the boundary holds some edges of the fragments, or whole fragments
    Shapes b, faces;
    for (int i = 0; i < 2; ++i) for (const auto& e : occ::subs(f[i], TopAbs_EDGE)) if (!has(b, e)) b.push_back(e);
    const long on = sym_choice("on boundary", 4);           // not, in the interior, along its outline in either sense
    if (on > 0) { Shapes k; for (const auto& e : b) k.push_back(on == 3 ? e.Oriented(TopAbs_INTERNAL) : turned(e, on == 2)); faces.push_back(face({wire(k)})); }
    if (sym_bool("fragment on boundary")) faces.push_back(turned(f[1], sym_bool("turned")));
    faces.push_back(face({wire({edge(occ::vertex(gp_Pnt(5,5,5)), occ::vertex(gp_Pnt(6,5,5)))})}));
    const TopoDS_Shape s = solid(faces);
    n.solids.push_back({s, 4});
    std::unordered_map<std::size_t, TopTools_ListOfShape> sd, ef; std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> em;
    sd[4].Append(s); ef[4]; em[4];
    for (int i = 0; i < 2; ++i) { ef[4].Append(f[i]); em[4].Bind(f[i], i+1); n.fragments.push_back({f[i], long(i)+1}); }
    const ContainedEntityNetwork net(2, 3, std::move(sd), std::move(ef), std::move(em));
    write(net, n);
}
// several sub-domains
HARNESS(c22_domains)
{
    Net n; n.contained = true; sizes(n);
    std::unordered_map<std::size_t, TopTools_ListOfShape> sd, ef; std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> em;
    const TopoDS_Vertex a = occ::vertex(gp_Pnt(0,0,0)), b = occ::vertex(gp_Pnt(1,0,0));
    const TopoDS_Shape shared = edge(a, b);
    const TopoDS_Face between = face({wire({shared, edge(b, a)})});        // boundary shared by both sub-domains
    static const std::size_t ids[2] = {7, 2};
    for (int d = 0; d < 2; ++d)
    {
        const long ns = 1 + sym_choice("solids", 2), ne = sym_choice("entities", 3);
        Shapes parts;
        for (long i = 0; i < ns; ++i) { Shapes k = {face({wire({edge(occ::vertex(gp_Pnt(1,i,d)), b)})})}; if (i == 0) k.push_back(turned(between, d == 1)); parts.push_back(solid(k)); n.solids.push_back({parts.back(), long(ids[d])}); }
        const bool together = ns > 1 && sym_bool("compound");
        if (together) sd[ids[d]].Append(occ::compound(parts)); else for (const auto& s : parts) sd[ids[d]].Append(s);
        ef[ids[d]]; em[ids[d]];
        const long gap = ne > 0 ? sym_choice("gap", 2) : 0;                // an entity of which nothing is left
        for (long i = 0; i < ne; ++i)
        {
            const TopoDS_Face f = face({wire({edge(occ::vertex(gp_Pnt(3,i,d)), b), shared})});
            const long id = 1 + gap + (i > 0 && sym_bool("another") ? 1 : 0);
            ef[ids[d]].Append(f); em[ids[d]].Bind(f, int(id)); n.fragments.push_back({f, 10*d + id});
        }
    }
    const ContainedEntityNetwork net(2, 3, std::move(sd), std::move(ef), std::move(em));
    write(net, n);
}
// what cannot be written
HARNESS(c22_refuse)
{
    const long e = sym_choice("entity", 4), d = sym_choice("domain", 4), k = sym_choice("writer", 4);
    bool thrown = false;
    try
    {
        std::unordered_map<std::size_t, TopTools_ListOfShape> sd, ef; std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> em;
        const ContainedEntityNetwork c(int(e), int(d), std::move(sd), std::move(ef), std::move(em));
        TopTools_ListOfShape none; TopTools_DataMapOfShapeInteger nothing;
        const EntityNetwork n(int(e), std::move(none), std::move(nothing));
        if (k == 0) { BRepWriter w(n); } else if (k == 1) { BRepWriter w(c); } else if (k == 2) { GmshWriter w(n); } else { GmshWriter w(c); }
    }
    catch (const std::runtime_error&) { thrown = true; }
    sym_assert(thrown == !(e == 2 && (k % 2 == 0 || d == 3)), "only networks of surfaces, in domains of dimension three, can be written");
}
