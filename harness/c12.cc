// C12: intersections of arbitrary faces, boolean operations on shapes
#include "geo.hh"
#include <variant>
#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/occ/breputilities.hh>
using namespace Frackit;
using Shapes = std::vector<TopoDS_Shape>;
template<class T, class V> static const T* alt(const V& v) { return std::get_if<T>(&v); }
static gp_Pnt P(double x, double y, double z) { return gp_Pnt(x, y, z); }
static TopoDS_Shape wireOf(const Shapes& e) { auto w = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); w.n->kids = e; w.n->closed = true; return w; }
static TopoDS_Face faceOf(const Shapes& w) { auto f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_FACE); f.n->kids = w; return f; }
// a triangular outline with its corners far away from everything else
static TopoDS_Shape outline(double x)
{
    const auto a = occ::vertex(P(x,-90,0)), b = occ::vertex(P(x+5,-90,0)), c = occ::vertex(P(x,-95,0));
    return wireOf({occ::lineEdge(a, b), occ::lineEdge(b, c), occ::lineEdge(c, a)});
}
static bool has(const Shapes& v, const TopoDS_Shape& s) { for (const auto& x : v) if (x.IsSame(s)) return true; return false; }

// what OpenCascade finds when it intersects F1 and F2
static struct World
{
    TopoDS_Face f1, f2;
    Shapes common, pieces;                        // common part of the faces, rest of F1
    std::vector<std::pair<TopoDS_Shape, TopoDS_Shape>> edgeOf;       // (wire of the rest, edge of it on F2)
    std::vector<std::pair<TopoDS_Shape, TopoDS_Shape>> onFace;       // (edge, common face it lies on)
    Shapes cut1, cut2;                            // vertices of the outlines cut by the other face
    double eps; bool swapped;
} W;
static void answer(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{
    if (a.size() != 1 || t.size() != 1) { occ::unmodelled("boolean operation"); return; }
    sym_assert(fuzzy == W.eps, "boolean operations use the given tolerance");
    const TopoDS_Shape &x = a[0], &y = t[0];
    Shapes out;
    const bool both = (x.IsSame(W.f1) && y.IsSame(W.f2)) || (x.IsSame(W.f2) && y.IsSame(W.f1));
    if (op == occ::COMMON && both) out = W.common;
    else if (op == occ::CUT && x.IsSame(W.f1) && y.IsSame(W.f2)) out = W.pieces;
    else if (op == occ::COMMON && x.n->type == TopAbs_WIRE && y.IsSame(W.f2)) { for (const auto& p : W.edgeOf) if (p.first.IsSame(x)) out.push_back(p.second); }
    else if (op == occ::COMMON && x.n->type == TopAbs_EDGE && has(W.common, y)) { for (const auto& p : W.onFace) if (p.first.IsSame(x) && p.second.IsSame(y)) out.push_back(x); }
    else if (op == occ::CUT && x.n->type == TopAbs_WIRE && y.IsSame(W.f2) && has(W.f1.n->kids, x)) out = W.cut1;
    else if (op == occ::CUT && x.n->type == TopAbs_WIRE && y.IsSame(W.f1) && has(W.f2.n->kids, x)) out = W.cut2;
    else if (op == occ::COMMON && x.n->type == TopAbs_VERTEX && (y.IsSame(W.f1) || y.IsSame(W.f2))) { if (x.n->p.Z() == 0.0) out.push_back(x); }
    else { occ::unmodelled("boolean operation"); return; }
    r.shape = occ::compound(out);
}
static bool everywhere(const TopoDS_Shape&, double* b) { for (int i = 0; i < 3; ++i) { b[i] = -100; b[i+3] = 100; } return true; }
static void world()
{
    W = World(); W.f1 = faceOf({outline(0)}); W.f2 = faceOf({outline(30)});
    occ::boolean = answer; occ::bounds = everywhere;
}
struct Parts { std::vector<P3> p; Shapes e, f; int empty = 0; };
template<class V> static Parts parts(const V& is)
{
    Parts r;
    for (const auto& v : is)
    {
        if (auto x = alt<P3>(v)) r.p.push_back(*x);
        else if (auto x = alt<TopoDS_Edge>(v)) r.e.push_back(*x);
        else if (auto x = alt<TopoDS_Face>(v)) r.f.push_back(*x);
        else ++r.empty;
    }
    return r;
}
static void unique(const Shapes& s, const char* what)
{ for (std::size_t i = 0; i < s.size(); ++i) for (std::size_t j = 0; j < i; ++j) sym_assert(!s[i].IsSame(s[j]), what); }

// faces and edges
HARNESS(c12_edges)
{
    world(); W.eps = sym_real("eps", 1e-6, 1);
    const long nf = sym_choice("faces", 3), np = sym_choice("pieces", 3);
    for (long i = 0; i < nf; ++i) W.common.push_back(faceOf({outline(50 + 20*i)}));
    const TopoDS_Shape e[2] = {occ::lineEdge(P(0,0,0), P(10,0,0)), occ::lineEdge(P(0,5,0), P(10,5,0))};
    for (long i = 0; i < np; ++i)
    {
        Shapes w = {outline(-50 - 20*i)};
        if (sym_bool("hole")) w.push_back(outline(-55 - 20*i));
        W.pieces.push_back(faceOf(w));
        const long k = sym_choice("edges", 4);
        for (int j = 0; j < 2; ++j) if (k & (1 << j)) W.edgeOf.push_back({w[j % w.size()], e[j]});
    }
    bool in[2] = {false, false}, hidden[2] = {false, false};
    for (int j = 0; j < 2; ++j)
    {
        for (const auto& p : W.edgeOf) if (p.second.IsSame(e[j])) in[j] = true;
        const long k = in[j] ? sym_choice("covered", nf + 1) : 0;
        if (k > 0) { W.onFace.push_back({e[j], W.common[k-1]}); hidden[j] = true; }
    }
    const Parts r = parts(intersect(W.f1, W.f2, W.eps));
    unique(r.f, "each face once"); unique(r.e, "each edge once");
    sym_assert(long(r.f.size()) == nf, "the common faces are found");
    for (const auto& f : W.common) sym_assert(has(r.f, f), "the common faces are found");
    int n = 0;
    for (int j = 0; j < 2; ++j)
    {
        const bool there = in[j] && !hidden[j];
        n += there;
        sym_assert(has(r.e, e[j]) == there, "edges of the first face on the second one are found unless they lie on a common face");
    }
    sym_assert(int(r.e.size()) == n, "nothing else is reported as an edge");
    sym_assert(r.p.empty(), "no points where none touch");
    sym_assert((r.empty == 1) == (nf == 0 && n == 0) && r.empty <= 1, "an empty intersection exactly when there is nothing else");
}
// touching points
HARNESS(c12_points)
{
    world(); const double eps = sym_real("eps", 0.01, 1); W.eps = eps;
    const long kind = sym_choice("found", 3);       // nothing else, an edge, a face
    P3 known[2] = {P3(0,0,0), P3(10,0,0)};
    const TopoDS_Shape e = occ::lineEdge(P(0,0,0), P(10,0,0));
    if (kind == 1) { const auto w = outline(-50); W.pieces.push_back(faceOf({w})); W.edgeOf.push_back({w, e}); }
    if (kind == 2) W.common.push_back(faceOf({wireOf({e})}));
    const long n1 = sym_choice("n1", 3), n2 = sym_choice("n2", 2);
    static const char* X[3] = {"x1","x2","x3"};
    double x[3]; bool on[3]; int n = 0;
    auto add = [&] (Shapes& c) { x[n] = sym_real(X[n], -3, 13); on[n] = sym_bool("on"); c.push_back(occ::vertex(P(x[n], 0, on[n] ? 0 : 2))); ++n; };
    for (long i = 0; i < n1; ++i) add(W.cut1);
    for (long i = 0; i < n2; ++i) add(W.cut2);
    // keep clear of the tolerance
    auto apart = [&] (double a, double b) { const double d = a > b ? a - b : b - a; sym_assume(d < 0.99*eps || d > 1.01*eps); };
    for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) apart(x[i], x[j]); if (kind) { apart(x[i], 0); apart(x[i], 10); } }
    auto close = [&] (double a, double b) { return a - b < eps && b - a < eps; };
    const Parts r = parts(intersect(W.f1, W.f2, eps));
    for (int i = 0; i < n; ++i)
    {
        if (!on[i]) continue;
        bool seen = kind && (close(x[i], 0) || close(x[i], 10));
        for (const auto& p : r.p) if (close(p.x(), x[i])) seen = true;
        sym_assert(seen, "every point in which the outlines touch the other face is part of the result");
    }
    for (std::size_t i = 0; i < r.p.size(); ++i)
    {
        bool one = false;
        for (int j = 0; j < n; ++j) if (on[j] && r.p[i].x() == x[j] && r.p[i].z() == 0.0) one = true;
        sym_assert(one, "points that do not touch the other face are not reported");
        for (std::size_t j = 0; j < i; ++j) sym_assert(!close(r.p[i].x(), r.p[j].x()), "touching points are reported once");
        if (kind) for (const auto& k : known) sym_assert(!close(r.p[i].x(), k.x()), "the ends of edges and corners of faces found are not repeated as points");
    }
    sym_assert(long(r.e.size()) == (kind == 1) && long(r.f.size()) == (kind == 2), "edges and faces are reported as such");
    sym_assert((r.empty == 1) == (r.p.empty() && kind == 0) && r.empty <= 1, "an empty intersection exactly when there is nothing else");
}

// every kind of geometry with a face, in both orders
static int calls; static TopoDS_Shape first, second; static double usedEps; static bool ordered; static TopoDS_Face theFace;
static double zShift; static TopoDS_Shape mark;
static void record(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{
    if (a.size() != 1 || t.size() != 1) { occ::unmodelled("boolean operation"); return; }
    ++calls; usedEps = fuzzy;
    if (op == occ::COMMON && a[0].n->type == TopAbs_FACE && t[0].n->type == TopAbs_FACE)
    { first = a[0]; second = t[0]; r.shape = occ::compound({mark}); return; }
    r.shape = occ::compound({});
}
static bool boxes(const TopoDS_Shape& s, double* b)
{
    if (!s.IsSame(theFace)) { for (int i = 0; i < 3; ++i) { b[i] = -5; b[i+3] = 5; } return true; }
    for (int i = 0; i < 3; ++i) { b[i] = -1; b[i+3] = 1; }
    b[2] += zShift; b[5] += zShift;
    return true;
}
static bool kindOf(const TopoDS_Shape& s, long k)
{
    if (k == 0) return s.n->kind == occ::K_CYLFACE;
    const auto e = occ::subs(s, TopAbs_EDGE);
    if (k == 1) return e.size() == 1 && e[0].n->kind == occ::K_ELLIPSE && e[0].n->a == 3.0 && e[0].n->b == 2.0;
    if (k == 2) return e.size() == 4;
    return k == 3 ? e.size() == 3 : s.IsSame(mark);
}
template<class A> static long meet(const A& a, bool swap, bool deflt, double eps)
{
    if (deflt) return swap ? long(parts(intersect(theFace, a)).f.size()) : long(parts(intersect(a, theFace)).f.size());
    return swap ? long(parts(intersect(theFace, a, eps)).f.size()) : long(parts(intersect(a, theFace, eps)).f.size());
}
HARNESS(c12_kinds)
{
    theFace = faceOf({outline(0)}); mark = faceOf({outline(60)});
    calls = 0; occ::boolean = record; occ::bounds = boxes;
    const long k = sym_choice("kind", 5); const bool swap = sym_bool("swap"), deflt = sym_bool("default");
    const double eps = deflt ? 0 : sym_real("eps", 1e-6, 1e-2);
    zShift = sym_real("shift", -20, 20); 
    const double tol = deflt ? 1e-4 : eps;
    const CylinderSurface<double> cyl(Circle<double,3>(P3(0,0,-5), D3(V3(0.0,0.0,1.0)), 5), 10);
    const Disk<double> disk(P3(0,0,0), D3(V3(1.0,0.0,0.0)), D3(V3(0.0,1.0,0.0)), 3, 2);
    const Quadrilateral<double,3> quad(P3(-3,-4,0), P3(3,-4,0), P3(-3,4,0), P3(3,4,0));
    const Polygon<double,3> poly(std::vector<P3>{P3(-4,-5,0), P3(4,-5,0), P3(0,5,0)});
    // the boxes of disk, quadrilateral and polygon are flat unless the whole shape is measured
    const double top = 5, bottom = -5;
    const double lo = zShift - 1, hi = zShift + 1;
    const bool apart = lo > top + tol || hi < bottom - tol, over = lo < top - tol && hi > bottom + tol;
    sym_assume(apart || over);
    const long n = k == 0 ? meet(cyl, swap, deflt, eps) : k == 1 ? meet(disk, swap, deflt, eps) : k == 2 ? meet(quad, swap, deflt, eps)
                 : k == 3 ? meet(poly, swap, deflt, eps) : meet(TopoDS_Face(occ::as<TopoDS_Face>(mark)), swap, deflt, eps);
    if (apart) { sym_assert(n == 0, "faces whose boxes are apart do not intersect"); return; }
    sym_assert(n == 1, "the intersection is that of the shapes");
    const bool a = kindOf(first, k) && second.IsSame(theFace), b = kindOf(second, k) && first.IsSame(theFace);
    sym_assert(a || b, "the shapes of both geometries are intersected");
    if (!deflt) sym_near(usedEps, eps, 0, "the given tolerance is used");
    else
    {
        // the smaller default: face 1e-7 of the diagonal of its box, geometry according to its size
        const double f = 1e-7*std::sqrt(12.0);
        const double g[5] = {0.5*15*1e-7, 0.5*5*1e-7, 0.5*std::sqrt(48.0)*1e-7, 0.5*std::sqrt(40.0)*1e-7, 1e-7*std::sqrt(300.0)};
        sym_near(usedEps, g[k] < f ? g[k] : f, 1e-12, "the smaller one of the default tolerances is used");
    }
}

// boolean operations and transformations
static occ::Op sawOp; static Shapes sawA, sawT; static double sawEps; static bool ok; static TopoDS_Shape res;
static void observe(occ::Op op, const Shapes& a, const Shapes& t, double fuzzy, occ::Result& r)
{ ++calls; sawOp = op; sawA = a; sawT = t; sawEps = fuzzy; r.done = ok; r.shape = res; }
HARNESS(c12_operations)
{
    calls = 0; occ::boolean = observe; ok = sym_bool("done"); res = occ::vertex(P(1,2,3));
    const double eps = sym_real("eps", 1e-7, 1);
    const TopoDS_Shape a = occ::vertex(P(0,0,0)), b = occ::lineEdge(P(0,0,0), P(1,0,0));
    const long k = sym_choice("op", 4), n = k > 1 ? sym_choice("n", 4) : 2;
    Shapes many; const Shapes pool = {a, b, faceOf({outline(0)})};
    for (long i = 0; i < n; ++i) many.push_back(pool[i]);
    bool thrown = false; TopoDS_Shape r;
    try
    {
        r = k == 0 ? OCCUtilities::cut(a, b, eps) : k == 1 ? OCCUtilities::intersect(a, b, eps) : k == 2 ? OCCUtilities::fragment(many, eps) : OCCUtilities::fuse(many, eps);
    }
    catch (const std::runtime_error&) { thrown = true; }
    sym_assert(calls == 1, "one operation is carried out");
    sym_assert(thrown == !ok, "an operation that fails is reported as an error");
    if (!thrown) sym_assert(r.IsSame(res), "the result of the operation is returned");
    static const occ::Op ops[4] = {occ::CUT, occ::COMMON, occ::FRAGMENT, occ::FUSE};
    sym_assert(sawOp == ops[k], "the operation asked for is carried out");
    sym_near(sawEps, eps, 0, "the given tolerance is used");
    if (k < 2)
    {
        sym_assert(sawA.size() == 1 && sawT.size() == 1, "both shapes take part");
        const bool straight = sawA[0].IsSame(a) && sawT[0].IsSame(b);
        sym_assert(straight || (k == 1 && sawA[0].IsSame(b) && sawT[0].IsSame(a)), "the shapes keep their roles");
        return;
    }
    auto all = [&] (const TopoDS_Shape& s) { return has(sawA, s) || (k == 3 && has(sawT, s)); };
    for (const auto& s : many) sym_assert(all(s), "all shapes take part");
    for (const auto& s : sawA) sym_assert(has(many, s), "no other shape takes part");
    for (const auto& s : sawT) sym_assert(has(many, s), "no other shape takes part");
}
HARNESS(c12_translate)
{
    const R3 v = r3(symPoint("vx","vy","vz", 50)), p = r3(symPoint("px","py","pz", 50)), q = r3(symPoint("qx","qy","qz", 50));
    const TopoDS_Shape e = occ::lineEdge(P(p.x,p.y,p.z), P(q.x,q.y,q.z));
    const TopoDS_Shape t = OCCUtilities::translate(e, vec(v));
    const auto vs = OCCUtilities::getVertices(t);
    sym_assert(t.ShapeType() == TopAbs_EDGE && vs.size() == 2, "a translated shape keeps its structure");
    near3(r3(OCCUtilities::point(vs[0])), add(p, v), 1e-9, "a translated shape is moved by the vector");
    near3(r3(OCCUtilities::point(vs[1])), add(q, v), 1e-9, "a translated shape is moved by the vector");
    const auto old = OCCUtilities::getVertices(e);
    near3(r3(OCCUtilities::point(old[0])), p, 0, "the original stays where it is");
}
// edges two faces share
HARNESS(c12_overlap)
{
    std::vector<TopoDS_Edge> pool;
    for (int i = 0; i < 3; ++i) pool.push_back(occ::lineEdge(P(i,0,0), P(i,1,0)));
    std::vector<TopoDS_Edge> a, b;
    bool ina[3], inb[3];
    for (int i = 0; i < 3; ++i)
    {
        ina[i] = sym_bool("a"); inb[i] = sym_bool("b");
        if (ina[i]) a.push_back(pool[i]);
        if (inb[i]) { TopoDS_Edge e = pool[i]; if (sym_bool("reversed")) e.Orientation(TopAbs_REVERSED); b.insert(sym_bool("front") ? b.begin() : b.end(), e); }
    }
    std::vector<TopoDS_Edge> o;
    if (sym_bool("faces"))
    {
        Shapes sa(a.begin(), a.end()), sb(b.begin(), b.end());
        o = OCCUtilities::getOverlapEdges(faceOf({wireOf(sa)}), faceOf({wireOf(sb)}));
    }
    else o = OCCUtilities::getOverlapEdges(a, b);
    Shapes s(o.begin(), o.end());
    unique(s, "each shared edge once");
    int n = 0;
    for (int i = 0; i < 3; ++i) { n += ina[i] && inb[i]; sym_assert(has(s, pool[i]) == (ina[i] && inb[i]), "the shared edges are those contained in both, whatever their orientation"); }
    sym_assert(int(s.size()) == n, "nothing else is shared");
}
