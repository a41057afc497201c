// Stand-ins for the OpenCascade classes the library uses.  A shape is a node (type, kind,
// parameters, sub-shapes) with identity; the geometric kernels are exact-arithmetic contracts for the
// cases written out below, and everything else is delegated to hooks a harness installs.  An
// operation that is neither written out nor hooked ends the run as unmodelled.
#ifndef OCCFAKE_HXX
#define OCCFAKE_HXX
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <limits>
#include <stdexcept>
#include "sym.h"

typedef double Standard_Real;
typedef int Standard_Integer;
typedef bool Standard_Boolean;
typedef std::size_t Standard_Size;
typedef const char* Standard_CString;
#define Standard_True true
#define Standard_False false
#define Standard_EXPORT

struct Standard_TypeMismatch : public std::runtime_error { using std::runtime_error::runtime_error; };
struct Standard_NoSuchObject : public std::runtime_error { using std::runtime_error::runtime_error; };

namespace occ { inline void unmodelled(const char* what) { sym_fail(what); } }

// ------------------------------------------------------------------ handles
namespace opencascade {
template<class T> class handle
{
    T* p_ = nullptr;
public:
    typedef T element_type;
    handle() {}
    handle(const T* p) : p_(const_cast<T*>(p)) {}
    template<class U> handle(const handle<U>& o) : p_(o.get()) {}
    T* get() const { return p_; }
    T* operator->() const { return p_; }
    T& operator*() const { return *p_; }
    bool IsNull() const { return p_ == nullptr; }
    void Nullify() { p_ = nullptr; }
    template<class U> static handle DownCast(const handle<U>& o) { return handle(dynamic_cast<T*>(o.get())); }
};
}
#define Handle(C) opencascade::handle<C>

class Precision
{
public:
    static double Confusion() { return 1e-7; }
    static double Angular() { return 1e-12; }
    static double Intersection() { return 1e-9; }
    static double Approximation() { return 1e-6; }
    static double PConfusion() { return 1e-9; }
    static double Infinite() { return 2e100; }
};

// ------------------------------------------------------------------ gp
class gp_XYZ { public: double x, y, z; gp_XYZ() : x(0), y(0), z(0) {} gp_XYZ(double a, double b, double c) : x(a), y(b), z(c) {}
    double X() const { return x; } double Y() const { return y; } double Z() const { return z; } };
class gp_Vec;
class gp_Pnt
{
    double x_ = 0, y_ = 0, z_ = 0;
public:
    gp_Pnt() {}
    gp_Pnt(double x, double y, double z) : x_(x), y_(y), z_(z) {}
    double X() const { return x_; } double Y() const { return y_; } double Z() const { return z_; }
    void SetX(double v) { x_ = v; } void SetY(double v) { y_ = v; } void SetZ(double v) { z_ = v; }
    void SetCoord(double a, double b, double c) { x_ = a; y_ = b; z_ = c; }
    double SquareDistance(const gp_Pnt& o) const
    { return (x_-o.x_)*(x_-o.x_) + (y_-o.y_)*(y_-o.y_) + (z_-o.z_)*(z_-o.z_); }
    double Distance(const gp_Pnt& o) const { return std::sqrt(SquareDistance(o)); }
    bool IsEqual(const gp_Pnt& o, double tol) const { return Distance(o) <= tol; }
};
class gp_Pnt2d { double x_ = 0, y_ = 0; public: gp_Pnt2d() {} gp_Pnt2d(double x, double y) : x_(x), y_(y) {}
    double X() const { return x_; } double Y() const { return y_; } };
class gp_Dir
{
    double x_ = 1, y_ = 0, z_ = 0;
public:
    gp_Dir() {}
    gp_Dir(double x, double y, double z)
    {
        const double l = std::sqrt(x*x + y*y + z*z);
        if (!(l > 0.0)) throw std::runtime_error("gp_Dir: null vector");
        x_ = x/l; y_ = y/l; z_ = z/l;
    }
    inline gp_Dir(const gp_Vec& v);
    double X() const { return x_; } double Y() const { return y_; } double Z() const { return z_; }
    double Dot(const gp_Dir& o) const { return x_*o.x_ + y_*o.y_ + z_*o.z_; }
    void Reverse() { x_ = -x_; y_ = -y_; z_ = -z_; }
    gp_Dir Reversed() const { gp_Dir d(*this); d.Reverse(); return d; }
    // contract: the enclosed angle lies within tol of 0 or pi / of pi/2
    bool IsParallel(const gp_Dir& o, double tol) const
    {
        const double a = y_*o.z_-z_*o.y_, b = z_*o.x_-x_*o.z_, c = x_*o.y_-y_*o.x_, s = std::sin(tol);
        return a*a + b*b + c*c <= s*s;
    }
    bool IsNormal(const gp_Dir& o, double tol) const { const double d = Dot(o), s = std::sin(tol); return d <= s && d >= -s; }
    bool IsOpposite(const gp_Dir& o, double tol) const { return Dot(o) < 0 && IsParallel(o, tol); }
    bool IsEqual(const gp_Dir& o, double tol) const { return Dot(o) > 0 && IsParallel(o, tol); }
    double Angle(const gp_Dir& o) const { return std::acos(Dot(o)); }
};
class gp_Vec
{
    double x_ = 0, y_ = 0, z_ = 0;
public:
    gp_Vec() {}
    gp_Vec(double x, double y, double z) : x_(x), y_(y), z_(z) {}
    gp_Vec(const gp_Dir& d) : x_(d.X()), y_(d.Y()), z_(d.Z()) {}
    gp_Vec(const gp_Pnt& a, const gp_Pnt& b) : x_(b.X()-a.X()), y_(b.Y()-a.Y()), z_(b.Z()-a.Z()) {}
    double X() const { return x_; } double Y() const { return y_; } double Z() const { return z_; }
    double Dot(const gp_Vec& o) const { return x_*o.x_ + y_*o.y_ + z_*o.z_; }
    double operator*(const gp_Vec& o) const { return Dot(o); }
    gp_Vec operator*(double s) const { return gp_Vec(x_*s, y_*s, z_*s); }
    gp_Vec operator+(const gp_Vec& o) const { return gp_Vec(x_+o.x_, y_+o.y_, z_+o.z_); }
    gp_Vec operator-(const gp_Vec& o) const { return gp_Vec(x_-o.x_, y_-o.y_, z_-o.z_); }
    double SquareMagnitude() const { return Dot(*this); }
    double Magnitude() const { return std::sqrt(SquareMagnitude()); }
    gp_Vec Crossed(const gp_Vec& o) const { return gp_Vec(y_*o.z_-z_*o.y_, z_*o.x_-x_*o.z_, x_*o.y_-y_*o.x_); }
    bool IsParallel(const gp_Vec& o, double tol) const
    { const double s = std::sin(tol); return Crossed(o).SquareMagnitude() <= s*s*SquareMagnitude()*o.SquareMagnitude(); }
    bool IsNormal(const gp_Vec& o, double tol) const
    { const double d = Dot(o), s = std::sin(tol); return d*d <= s*s*SquareMagnitude()*o.SquareMagnitude(); }
    bool IsOpposite(const gp_Vec& o, double tol) const { return Dot(o) < 0 && IsParallel(o, tol); }
    double Angle(const gp_Vec& o) const { return std::acos(Dot(o)/(Magnitude()*o.Magnitude())); }
};
inline gp_Dir::gp_Dir(const gp_Vec& v) : gp_Dir(v.X(), v.Y(), v.Z()) {}
class gp_Ax1 { gp_Pnt p_; gp_Dir d_; public: gp_Ax1() {} gp_Ax1(const gp_Pnt& p, const gp_Dir& d) : p_(p), d_(d) {}
    const gp_Pnt& Location() const { return p_; } const gp_Dir& Direction() const { return d_; } };
class gp_Ax2
{
    gp_Pnt p_; gp_Dir n_, x_, y_;
public:
    gp_Ax2() : n_(0,0,1), x_(1,0,0), y_(0,1,0) {}
    // contract: the x direction is the component of the given one orthogonal to the main direction
    gp_Ax2(const gp_Pnt& p, const gp_Dir& n, const gp_Dir& x) : p_(p), n_(n)
    {
        const double d = n.Dot(x);
        x_ = gp_Dir(x.X()-d*n.X(), x.Y()-d*n.Y(), x.Z()-d*n.Z());
        y_ = gp_Dir(gp_Vec(n_).Crossed(gp_Vec(x_)));
    }
    const gp_Pnt& Location() const { return p_; }
    const gp_Dir& Direction() const { return n_; }
    const gp_Dir& XDirection() const { return x_; }
    const gp_Dir& YDirection() const { return y_; }
};
class gp_Elips
{
    gp_Ax2 ax_; double a_ = 0, b_ = 0;
public:
    gp_Elips() {}
    gp_Elips(const gp_Ax2& ax, double a, double b) : ax_(ax), a_(a), b_(b)
    { if (b < 0.0 || a < b) throw std::runtime_error("gp_Elips: major radius below minor radius"); }
    const gp_Ax2& Position() const { return ax_; }
    double MajorRadius() const { return a_; } double MinorRadius() const { return b_; }
};
class gp_Circ { gp_Ax2 ax_; double r_ = 0; public: gp_Circ() {} gp_Circ(const gp_Ax2& ax, double r) : ax_(ax), r_(r) {}
    const gp_Ax2& Position() const { return ax_; } double Radius() const { return r_; } };
class gp_Trsf
{
    gp_Vec t_;
public:
    void SetTranslation(const gp_Vec& v) { t_ = v; }
    const gp_Vec& Vec() const { return t_; }
};

// ------------------------------------------------------------------ geometry
class Standard_Transient { public: virtual ~Standard_Transient() {} };
class Geom_Curve : public Standard_Transient
{
public:
    virtual double FirstParameter() const { return -2e100; }
    virtual double LastParameter() const { return 2e100; }
    virtual gp_Pnt Value(double u) const { occ::unmodelled("Geom_Curve::Value"); return gp_Pnt(); }
    virtual gp_Vec DN(double u, int n) const { occ::unmodelled("Geom_Curve::DN"); return gp_Vec(); }
    virtual bool IsClosed() const { return false; }
    virtual bool IsCN(int) const { return true; }
    virtual double Length(double u0, double u1) const { occ::unmodelled("Geom_Curve length"); return 0; }
    virtual double DistanceTo(const gp_Pnt& p) const { occ::unmodelled("projection onto a curve"); return 0; }
};
class Geom_Line : public Geom_Curve
{
public:
    gp_Pnt p; gp_Dir d;
    Geom_Line(const gp_Pnt& p_, const gp_Dir& d_) : p(p_), d(d_) {}
    gp_Pnt Value(double u) const override { return gp_Pnt(p.X()+u*d.X(), p.Y()+u*d.Y(), p.Z()+u*d.Z()); }
    gp_Vec DN(double, int n) const override { return n == 1 ? gp_Vec(d) : gp_Vec(0,0,0); }
    double Length(double u0, double u1) const override { return u1 - u0; }
};
class Geom_Ellipse : public Geom_Curve
{
public:
    gp_Elips e;
    Geom_Ellipse(const gp_Elips& e_) : e(e_) {}
    double FirstParameter() const override { return 0; }
    double LastParameter() const override { return 2.0*M_PI; }
    bool IsClosed() const override { return true; }
    double Length(double u0, double u1) const override
    { if (e.MajorRadius() != e.MinorRadius()) occ::unmodelled("length of an ellipse"); return e.MajorRadius()*(u1 - u0); }
    gp_Pnt Value(double u) const override
    {
        const auto& a = e.Position(); const double c = e.MajorRadius()*std::cos(u), s = e.MinorRadius()*std::sin(u);
        return gp_Pnt(a.Location().X() + c*a.XDirection().X() + s*a.YDirection().X(),
                      a.Location().Y() + c*a.XDirection().Y() + s*a.YDirection().Y(),
                      a.Location().Z() + c*a.XDirection().Z() + s*a.YDirection().Z());
    }
};
class Geom_TrimmedCurve : public Geom_Curve
{
public:
    Handle(Geom_Curve) c; double u0, u1;
    Geom_TrimmedCurve(const Handle(Geom_Curve)& c_, double a, double b, bool = true, bool = true) : c(c_), u0(a), u1(b) {}
    double FirstParameter() const override { return u0; }
    double LastParameter() const override { return u1; }
    gp_Pnt Value(double u) const override { return c->Value(u); }
    gp_Vec DN(double u, int n) const override { return c->DN(u, n); }
    double Length(double a, double b) const override { return c->Length(a, b); }
    double DistanceTo(const gp_Pnt& p) const override { return c->DistanceTo(p); }
    const Handle(Geom_Curve)& BasisCurve() const { return c; }
};
class Geom_Surface : public Standard_Transient
{
public:
    virtual void D1(double u, double v, gp_Pnt& p, gp_Vec& du, gp_Vec& dv) const { occ::unmodelled("Geom_Surface::D1"); }
    virtual bool Parameters(const gp_Pnt& p, double& u, double& v, double& dist) const { occ::unmodelled("projection onto a surface"); return false; }
};
class Geom_Plane : public Geom_Surface
{
public:
    gp_Pnt p; gp_Dir n;
    Geom_Plane(const gp_Pnt& p_, const gp_Dir& n_) : p(p_), n(n_) {}
};

// ------------------------------------------------------------------ shapes
enum TopAbs_ShapeEnum { TopAbs_COMPOUND, TopAbs_COMPSOLID, TopAbs_SOLID, TopAbs_SHELL, TopAbs_FACE, TopAbs_WIRE, TopAbs_EDGE, TopAbs_VERTEX, TopAbs_SHAPE };
enum TopAbs_Orientation { TopAbs_FORWARD, TopAbs_REVERSED, TopAbs_INTERNAL, TopAbs_EXTERNAL };
namespace occ {
enum Kind { K_NONE, K_POINT, K_LINE, K_ELLIPSE, K_CURVE, K_WIRE, K_FACE, K_CYLFACE, K_SHELL, K_BOX, K_CYLINDER, K_SPHERE, K_COMPOUND, K_OTHER };
struct Node;
}
class TopoDS_Shape
{
public:
    occ::Node* n = nullptr;
    TopAbs_Orientation o = TopAbs_FORWARD;
    bool IsNull() const { return n == nullptr; }
    void Nullify() { n = nullptr; }
    bool IsSame(const TopoDS_Shape& s) const { return n == s.n; }
    bool IsPartner(const TopoDS_Shape& s) const { return n == s.n; }
    bool IsEqual(const TopoDS_Shape& s) const { return n == s.n && o == s.o; }
    bool operator==(const TopoDS_Shape& s) const { return IsEqual(s); }
    bool operator!=(const TopoDS_Shape& s) const { return !IsEqual(s); }
    inline TopAbs_ShapeEnum ShapeType() const;
    TopAbs_Orientation Orientation() const { return o; }
    void Orientation(TopAbs_Orientation x) { o = x; }
    TopoDS_Shape Oriented(TopAbs_Orientation x) const { TopoDS_Shape s(*this); s.o = x; return s; }
    TopoDS_Shape Reversed() const { return Oriented(o == TopAbs_FORWARD ? TopAbs_REVERSED : TopAbs_FORWARD); }
};
class TopoDS_Vertex : public TopoDS_Shape {};
class TopoDS_Edge : public TopoDS_Shape {};
class TopoDS_Wire : public TopoDS_Shape {};
class TopoDS_Face : public TopoDS_Shape {};
class TopoDS_Shell : public TopoDS_Shape {};
class TopoDS_Solid : public TopoDS_Shape {};
class TopoDS_Compound : public TopoDS_Shape {};

namespace occ {
struct Node
{
    TopAbs_ShapeEnum type; Kind kind; int tag = 0;
    gp_Pnt p;                    // point / location
    gp_Dir w, x;                 // main and x direction
    double a = 0, b = 0;         // radii / sizes
    double u0 = 0, u1 = 0;       // parameter range of a curve
    gp_Pnt q;                    // opposite corner of a box
    Handle(Geom_Curve) curve; Handle(Geom_Surface) surface;
    double mass = 0; bool hasMass = false; bool closed = false;
    std::vector<TopoDS_Shape> kids;
    Node(TopAbs_ShapeEnum t, Kind k) : type(t), kind(k) {}
};
template<class S> inline S make(Node* n) { S s; s.n = n; return s; }
template<class S> inline S as(const TopoDS_Shape& s) { S r; r.n = s.n; r.o = s.o; return r; }
template<class S> inline S fresh(TopAbs_ShapeEnum t, Kind k, int tag = 0) { S s; s.n = new Node(t, k); s.n->tag = tag; return s; }
inline TopoDS_Vertex vertex(const gp_Pnt& p) { auto v = fresh<TopoDS_Vertex>(TopAbs_VERTEX, K_POINT); v.n->p = p; return v; }
inline TopoDS_Edge lineEdge(const TopoDS_Vertex& a, const TopoDS_Vertex& b)
{ auto e = fresh<TopoDS_Edge>(TopAbs_EDGE, K_LINE); e.n->kids.push_back(a); e.n->kids.push_back(b); return e; }
inline TopoDS_Edge lineEdge(const gp_Pnt& a, const gp_Pnt& b) { return lineEdge(vertex(a), vertex(b)); }
// orientation of a sub-shape within a shape
inline TopAbs_Orientation within(TopAbs_Orientation shape, TopAbs_Orientation sub)
{
    if (shape == TopAbs_FORWARD) return sub;
    if (shape != TopAbs_REVERSED) return shape;
    return sub == TopAbs_FORWARD ? TopAbs_REVERSED : sub == TopAbs_REVERSED ? TopAbs_FORWARD : sub;
}
inline void collect(const TopoDS_Shape& s, TopAbs_ShapeEnum t, std::vector<TopoDS_Shape>& out)
{
    if (s.n == nullptr) return;
    if (s.n->type == t) { out.push_back(s); return; }
    for (const auto& k : s.n->kids) collect(k.Oriented(within(s.o, k.o)), t, out);
}
inline std::vector<TopoDS_Shape> subs(const TopoDS_Shape& s, TopAbs_ShapeEnum t) { std::vector<TopoDS_Shape> r; collect(s, t, r); return r; }
// hooks
enum Op { COMMON, CUT, FUSE, FRAGMENT };
struct Hist { TopoDS_Shape s; bool deleted = false; std::vector<TopoDS_Shape> gen, mod; };
struct Result { bool done = true; TopoDS_Shape shape; std::vector<Hist> hist; };
typedef void (*BooleanHook)(Op, const std::vector<TopoDS_Shape>& args, const std::vector<TopoDS_Shape>& tools, double fuzzy, Result&);
inline BooleanHook boolean = nullptr;
typedef bool (*DistanceHook)(const TopoDS_Shape&, const TopoDS_Shape&, double deflection, int flag, int algo, double& result, bool& done);
inline DistanceHook distance = nullptr;
typedef bool (*BoundsHook)(const TopoDS_Shape&, double* b);
inline BoundsHook bounds = nullptr;
inline std::string lastWritten;           // file name of the last BRepTools::Write
inline TopoDS_Shape lastShape;            // and its shape
}
inline TopAbs_ShapeEnum TopoDS_Shape::ShapeType() const { return n->type; }

namespace TopoDS {
template<class S> inline const S& cast(const TopoDS_Shape& s, TopAbs_ShapeEnum t)
{ if (!s.IsNull() && s.n->type != t) throw Standard_TypeMismatch("TopoDS"); return static_cast<const S&>(s); }
inline const TopoDS_Vertex& Vertex(const TopoDS_Shape& s) { return cast<TopoDS_Vertex>(s, TopAbs_VERTEX); }
inline const TopoDS_Edge& Edge(const TopoDS_Shape& s) { return cast<TopoDS_Edge>(s, TopAbs_EDGE); }
inline const TopoDS_Wire& Wire(const TopoDS_Shape& s) { return cast<TopoDS_Wire>(s, TopAbs_WIRE); }
inline const TopoDS_Face& Face(const TopoDS_Shape& s) { return cast<TopoDS_Face>(s, TopAbs_FACE); }
inline const TopoDS_Shell& Shell(const TopoDS_Shape& s) { return cast<TopoDS_Shell>(s, TopAbs_SHELL); }
inline const TopoDS_Solid& Solid(const TopoDS_Shape& s) { return cast<TopoDS_Solid>(s, TopAbs_SOLID); }
inline const TopoDS_Compound& Compound(const TopoDS_Shape& s) { return cast<TopoDS_Compound>(s, TopAbs_COMPOUND); }
}

// ------------------------------------------------------------------ containers
class TopTools_ListOfShape
{
public:
    std::vector<TopoDS_Shape> v;
    typedef std::vector<TopoDS_Shape>::iterator iterator;
    typedef std::vector<TopoDS_Shape>::const_iterator const_iterator;
    TopoDS_Shape& Append(const TopoDS_Shape& s) { v.push_back(s); return v.back(); }
    void Append(TopTools_ListOfShape& l) { for (auto& s : l.v) v.push_back(s); l.v.clear(); }
    TopoDS_Shape& Prepend(const TopoDS_Shape& s) { v.insert(v.begin(), s); return v.front(); }
    bool IsEmpty() const { return v.empty(); }
    int Extent() const { return int(v.size()); }
    int Size() const { return int(v.size()); }
    void Clear() { v.clear(); }
    bool Contains(const TopoDS_Shape& s) const { for (const auto& x : v) if (x.IsEqual(s)) return true; return false; }
    bool Remove(const TopoDS_Shape& s)
    { for (std::size_t i = 0; i < v.size(); ++i) if (v[i].IsEqual(s)) { v.erase(v.begin()+i); return true; } return false; }
    const TopoDS_Shape& First() const { return v.front(); }
    const TopoDS_Shape& Last() const { return v.back(); }
    iterator begin() { return v.begin(); } iterator end() { return v.end(); }
    const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); }
    const_iterator cbegin() const { return v.begin(); } const_iterator cend() const { return v.end(); }
    class Iterator
    {
        const std::vector<TopoDS_Shape>* l = nullptr; std::size_t i = 0;
    public:
        Iterator() {}
        Iterator(const TopTools_ListOfShape& x) : l(&x.v) {}
        void Initialize(const TopTools_ListOfShape& x) { l = &x.v; i = 0; }
        bool More() const { return l && i < l->size(); }
        void Next() { ++i; }
        const TopoDS_Shape& Value() const { return (*l)[i]; }
    };
};
typedef TopTools_ListOfShape::Iterator TopTools_ListIteratorOfListOfShape;
class TopTools_DataMapOfShapeInteger
{
public:
    std::vector<TopoDS_Shape> k; std::vector<int> d;
    int at(const TopoDS_Shape& s) const { for (std::size_t i = 0; i < k.size(); ++i) if (k[i].IsSame(s)) return int(i); return -1; }
    bool Bind(const TopoDS_Shape& s, const int& x)
    { const int i = at(s); if (i >= 0) { d[i] = x; return false; } k.push_back(s); d.push_back(x); return true; }
    bool IsBound(const TopoDS_Shape& s) const { return at(s) >= 0; }
    bool Find(const TopoDS_Shape& s, int& x) const { const int i = at(s); if (i < 0) return false; x = d[i]; return true; }
    const int& Find(const TopoDS_Shape& s) const { const int i = at(s); if (i < 0) throw Standard_NoSuchObject("Find"); return d[i]; }
    const int& operator()(const TopoDS_Shape& s) const { return Find(s); }
    int& ChangeFind(const TopoDS_Shape& s) { const int i = at(s); if (i < 0) throw Standard_NoSuchObject("ChangeFind"); return d[i]; }
    int* ChangeSeek(const TopoDS_Shape& s) { const int i = at(s); return i < 0 ? nullptr : &d[i]; }
    const int* Seek(const TopoDS_Shape& s) const { const int i = at(s); return i < 0 ? nullptr : &d[i]; }
    bool UnBind(const TopoDS_Shape& s) { const int i = at(s); if (i < 0) return false; k.erase(k.begin()+i); d.erase(d.begin()+i); return true; }
    int Extent() const { return int(k.size()); }
    int Size() const { return int(k.size()); }
    bool IsEmpty() const { return k.empty(); }
    void Clear() { k.clear(); d.clear(); }
    class Iterator
    {
        const TopTools_DataMapOfShapeInteger* m = nullptr; std::size_t i = 0;
    public:
        Iterator() {}
        Iterator(const TopTools_DataMapOfShapeInteger& x) : m(&x) {}
        void Initialize(const TopTools_DataMapOfShapeInteger& x) { m = &x; i = 0; }
        bool More() const { return m && i < m->k.size(); }
        void Next() { ++i; }
        const TopoDS_Shape& Key() const { return m->k[i]; }
        const int& Value() const { return m->d[i]; }
    };
};
typedef TopTools_DataMapOfShapeInteger::Iterator TopTools_DataMapIteratorOfDataMapOfShapeInteger;
class TopTools_IndexedMapOfShape
{
public:
    std::vector<TopoDS_Shape> k;
    int FindIndex(const TopoDS_Shape& s) const { for (std::size_t i = 0; i < k.size(); ++i) if (k[i].IsSame(s)) return int(i)+1; return 0; }
    bool Contains(const TopoDS_Shape& s) const { return FindIndex(s) > 0; }
    int Add(const TopoDS_Shape& s) { const int i = FindIndex(s); if (i) return i; k.push_back(s); return int(k.size()); }
    int Extent() const { return int(k.size()); }
    int Size() const { return int(k.size()); }
    bool IsEmpty() const { return k.empty(); }
    void Clear() { k.clear(); }
    const TopoDS_Shape& operator()(int i) const { return FindKey(i); }
    const TopoDS_Shape& FindKey(int i) const { if (i < 1 || i > Extent()) throw Standard_NoSuchObject("FindKey"); return k[i-1]; }
};

// ------------------------------------------------------------------ topology access
class TopExp_Explorer
{
    std::vector<TopoDS_Shape> v; std::size_t i = 0;
public:
    TopExp_Explorer() {}
    TopExp_Explorer(const TopoDS_Shape& s, TopAbs_ShapeEnum t, TopAbs_ShapeEnum = TopAbs_SHAPE) { Init(s, t); }
    void Init(const TopoDS_Shape& s, TopAbs_ShapeEnum t, TopAbs_ShapeEnum = TopAbs_SHAPE) { v.clear(); i = 0; occ::collect(s, t, v); }
    bool More() const { return i < v.size(); }
    void Next() { ++i; }
    const TopoDS_Shape& Current() const { return v[i]; }
    const TopoDS_Shape& Value() const { return v[i]; }
};
class TopExp
{
public:
    static TopoDS_Vertex FirstVertex(const TopoDS_Edge& e, bool = false) { return occ::as<TopoDS_Vertex>(e.n->kids.front()); }
    static TopoDS_Vertex LastVertex(const TopoDS_Edge& e, bool = false) { return occ::as<TopoDS_Vertex>(e.n->kids.back()); }
    static void Vertices(const TopoDS_Edge& e, TopoDS_Vertex& a, TopoDS_Vertex& b, bool = false) { a = FirstVertex(e); b = LastVertex(e); }
    // the two vertices of an open wire (null vertices for a closed one)
    static void Vertices(const TopoDS_Wire& w, TopoDS_Vertex& a, TopoDS_Vertex& b)
    {
        a = TopoDS_Vertex(); b = TopoDS_Vertex();
        if (w.n->closed) return;
        a = FirstVertex(TopoDS::Edge(w.n->kids.front())); b = LastVertex(TopoDS::Edge(w.n->kids.back()));
    }
};
class BRep_Tool
{
public:
    static gp_Pnt Pnt(const TopoDS_Vertex& v) { return v.n->p; }
    static Handle(Geom_Curve) Curve(const TopoDS_Edge& e, double& u0, double& u1)
    {
        if (e.n->kind == occ::K_LINE)
        {
            const gp_Pnt a = e.n->kids[0].n->p, b = e.n->kids[1].n->p;
            u0 = 0; u1 = a.Distance(b);
            return new Geom_Line(a, gp_Dir(b.X()-a.X(), b.Y()-a.Y(), b.Z()-a.Z()));
        }
        u0 = e.n->u0; u1 = e.n->u1;
        if (e.n->curve.IsNull()) occ::unmodelled("BRep_Tool::Curve");
        return e.n->curve;
    }
    static Handle(Geom_Surface) Surface(const TopoDS_Face& f) { if (f.n->surface.IsNull()) occ::unmodelled("BRep_Tool::Surface"); return f.n->surface; }
    static bool IsClosed(const TopoDS_Shape& w) { return w.n->closed; }
};
class BRep_Builder
{
public:
    void MakeCompound(TopoDS_Compound& c) const { c = occ::fresh<TopoDS_Compound>(TopAbs_COMPOUND, occ::K_COMPOUND); }
    void MakeShell(TopoDS_Shell& c) const { c = occ::fresh<TopoDS_Shell>(TopAbs_SHELL, occ::K_SHELL); }
    void Add(TopoDS_Shape& c, const TopoDS_Shape& s) const { c.n->kids.push_back(s); }
};
class BRepTools
{
public:
    static TopoDS_Wire OuterWire(const TopoDS_Face& f) { auto w = occ::subs(f, TopAbs_WIRE); if (w.empty()) return TopoDS_Wire(); return occ::as<TopoDS_Wire>(w[0]); }
    static bool Write(const TopoDS_Shape& s, const char* f) { occ::lastWritten = f; occ::lastShape = s; return true; }
    template<class S> static void Read(TopoDS_Shape&, S&, const BRep_Builder&) { occ::unmodelled("BRepTools::Read"); }
};
class BRepClass3d
{
public:
    static TopoDS_Shell OuterShell(const TopoDS_Solid& s) { auto w = occ::subs(s, TopAbs_SHELL); if (w.empty()) return TopoDS_Shell(); return occ::as<TopoDS_Shell>(w[0]); }
};

// ------------------------------------------------------------------ builders
template<class S> class OccMake
{
protected:
    TopoDS_Shape s_; bool done_ = true;
public:
    void Build() {}
    bool IsDone() const { return done_; }
    const TopoDS_Shape& Shape() const { return s_; }
    operator S() const { return occ::as<S>(s_); }
};
class BRepBuilderAPI_MakeVertex : public OccMake<TopoDS_Vertex>
{ public: BRepBuilderAPI_MakeVertex(const gp_Pnt& p) { s_ = occ::vertex(p); } TopoDS_Vertex Vertex() const { return occ::as<TopoDS_Vertex>(s_); } };
class BRepBuilderAPI_MakeEdge : public OccMake<TopoDS_Edge>
{
public:
    BRepBuilderAPI_MakeEdge(const gp_Pnt& a, const gp_Pnt& b) { s_ = occ::lineEdge(a, b); }
    BRepBuilderAPI_MakeEdge(const TopoDS_Vertex& a, const TopoDS_Vertex& b) { s_ = occ::lineEdge(a, b); }
    BRepBuilderAPI_MakeEdge(const gp_Elips& e) { ellipse(e, 0, 2.0*M_PI, true); }
    BRepBuilderAPI_MakeEdge(const gp_Circ& c) { ellipse(gp_Elips(c.Position(), c.Radius(), c.Radius()), 0, 2.0*M_PI, true); }
    BRepBuilderAPI_MakeEdge(const Handle(Geom_Curve)& c)
    {
        auto t = Handle(Geom_TrimmedCurve)::DownCast(c);
        if (!t.IsNull())
        {
            auto el = Handle(Geom_Ellipse)::DownCast(t->c);
            if (!el.IsNull()) { ellipse(el->e, t->u0, t->u1, false); s_.n->curve = t->c; return; }
        }
        auto el = Handle(Geom_Ellipse)::DownCast(c);
        if (!el.IsNull()) { ellipse(el->e, 0, 2.0*M_PI, true); return; }
        s_ = occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_CURVE); s_.n->curve = c; s_.n->u0 = c->FirstParameter(); s_.n->u1 = c->LastParameter();
    }
    TopoDS_Edge Edge() const { return occ::as<TopoDS_Edge>(s_); }
private:
    void ellipse(const gp_Elips& e, double u0, double u1, bool closed)
    {
        s_ = occ::fresh<TopoDS_Edge>(TopAbs_EDGE, occ::K_ELLIPSE);
        occ::Node* n = s_.n;
        n->p = e.Position().Location(); n->w = e.Position().Direction(); n->x = e.Position().XDirection();
        n->a = e.MajorRadius(); n->b = e.MinorRadius(); n->u0 = u0; n->u1 = u1; n->closed = closed;
        n->curve = new Geom_Ellipse(e);
        if (closed) { auto v = occ::vertex(n->curve->Value(0.0)); n->kids.push_back(v); n->kids.push_back(v); }
        else { n->kids.push_back(occ::vertex(n->curve->Value(u0))); n->kids.push_back(occ::vertex(n->curve->Value(u1))); }
    }
};
class BRepBuilderAPI_MakeWire : public OccMake<TopoDS_Wire>
{
    // closed: every vertex belongs to two edge ends
    void close()
    {
        std::vector<TopoDS_Shape> v; std::vector<int> c;
        for (const auto& e : s_.n->kids)
            for (const auto& x : e.n->kids)
            {
                std::size_t i = 0;
                while (i < v.size() && !v[i].IsSame(x)) ++i;
                if (i == v.size()) { v.push_back(x); c.push_back(0); }
                ++c[i];
            }
        s_.n->closed = true;
        for (int k : c) if (k != 2) s_.n->closed = false;
    }
    // contract: an edge is connected to the wire through a shared vertex
    void add(const TopoDS_Edge& e)
    {
        bool ok = s_.n->kids.empty();
        for (const auto& k : s_.n->kids)
            for (const auto& x : k.n->kids)
                for (const auto& y : e.n->kids)
                    if (x.IsSame(y)) ok = true;
        if (!ok) { done_ = false; throw std::runtime_error("BRepBuilderAPI_MakeWire: disconnected"); }
        s_.n->kids.push_back(e); close();
    }
public:
    BRepBuilderAPI_MakeWire() { s_ = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); }
    BRepBuilderAPI_MakeWire(const TopoDS_Edge& e) { s_ = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); add(e); }
    BRepBuilderAPI_MakeWire(const TopoDS_Edge& a, const TopoDS_Edge& b) : BRepBuilderAPI_MakeWire(a) { add(b); }
    BRepBuilderAPI_MakeWire(const TopoDS_Edge& a, const TopoDS_Edge& b, const TopoDS_Edge& c) : BRepBuilderAPI_MakeWire(a, b) { add(c); }
    BRepBuilderAPI_MakeWire(const TopoDS_Edge& a, const TopoDS_Edge& b, const TopoDS_Edge& c, const TopoDS_Edge& d) : BRepBuilderAPI_MakeWire(a, b, c) { add(d); }
    BRepBuilderAPI_MakeWire(const TopoDS_Wire& w, const TopoDS_Edge& e)
    { s_ = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE); s_.n->kids = w.n->kids; add(e); }
    void Add(const TopoDS_Edge& e) { add(e); }
    TopoDS_Wire Wire() const { return occ::as<TopoDS_Wire>(s_); }
};
class BRepBuilderAPI_MakeFace : public OccMake<TopoDS_Face>
{
public:
    BRepBuilderAPI_MakeFace(const TopoDS_Wire& w, bool = false)
    {
        if (!w.n->closed) throw std::runtime_error("BRepBuilderAPI_MakeFace: open wire");
        s_ = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_FACE); s_.n->kids.push_back(w);
    }
    TopoDS_Face Face() const { return occ::as<TopoDS_Face>(s_); }
};
namespace occ {
inline TopoDS_Shape translated(const TopoDS_Shape& s, const gp_Vec& t)
{
    TopoDS_Shape r(s);
    r.n = new Node(*s.n);
    auto mv = [&t] (const gp_Pnt& p) { return gp_Pnt(p.X()+t.X(), p.Y()+t.Y(), p.Z()+t.Z()); };
    r.n->p = mv(s.n->p); r.n->q = mv(s.n->q);
    for (std::size_t i = 0; i < r.n->kids.size(); ++i) r.n->kids[i] = translated(s.n->kids[i], t);
    return r;
}
}
class BRepBuilderAPI_Transform : public OccMake<TopoDS_Shape>
{
    gp_Trsf t_;
public:
    BRepBuilderAPI_Transform(const gp_Trsf& t) : t_(t) {}
    void Perform(const TopoDS_Shape& s, bool = false) { s_ = occ::translated(s, t_.Vec()); }
};
class BRepPrim_Cylinder_
{ public: TopoDS_Face f; TopoDS_Face LateralFace() const { return f; } };
class BRepPrimAPI_MakeCylinder : public OccMake<TopoDS_Shape>
{
    BRepPrim_Cylinder_ c_;
public:
    BRepPrimAPI_MakeCylinder(const gp_Ax2& ax, double r, double h, double angle = 2.0*M_PI)
    {
        if (!(r > 0.0) || !(h > 0.0)) throw std::runtime_error("BRepPrimAPI_MakeCylinder: domain");
        s_ = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_CYLINDER);
        c_.f = occ::fresh<TopoDS_Face>(TopAbs_FACE, occ::K_CYLFACE);
        for (auto n : {s_.n, c_.f.n}) { n->p = ax.Location(); n->w = ax.Direction(); n->x = ax.XDirection(); n->a = r; n->b = h; n->u1 = angle; }
        const gp_Pnt& o = ax.Location(); const gp_Dir& w = ax.Direction();
        const gp_Ax2 up(gp_Pnt(o.X() + h*w.X(), o.Y() + h*w.Y(), o.Z() + h*w.Z()), w, ax.XDirection());
        const TopoDS_Edge lo = BRepBuilderAPI_MakeEdge(gp_Circ(ax, r)), hi = BRepBuilderAPI_MakeEdge(gp_Circ(up, r));
        const TopoDS_Edge seam = occ::lineEdge(occ::as<TopoDS_Vertex>(lo.n->kids[0]), occ::as<TopoDS_Vertex>(hi.n->kids[0]));
        auto wire = occ::fresh<TopoDS_Wire>(TopAbs_WIRE, occ::K_WIRE);
        wire.n->closed = true;
        for (const auto& e : {lo, seam, hi, seam}) wire.n->kids.push_back(e);
        c_.f.n->kids.push_back(wire);
        auto sh = occ::fresh<TopoDS_Shell>(TopAbs_SHELL, occ::K_SHELL);
        sh.n->kids.push_back(c_.f);
        for (const auto& e : {hi, lo}) sh.n->kids.push_back(BRepBuilderAPI_MakeFace(BRepBuilderAPI_MakeWire(e)).Shape());
        s_.n->kids.push_back(sh);
    }
    const BRepPrim_Cylinder_& Cylinder() const { return c_; }
};
class BRepPrimAPI_MakeBox : public OccMake<TopoDS_Shape>
{
public:
    BRepPrimAPI_MakeBox(const gp_Pnt& a, const gp_Pnt& b)
    {
        // contract: the solid between two opposite corners, which must differ in every coordinate
        s_ = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_BOX); s_.n->p = a; s_.n->q = b;
        TopoDS_Vertex v[8];
        for (int i = 0; i < 8; ++i) v[i] = occ::vertex(gp_Pnt(i & 1 ? b.X() : a.X(), i & 2 ? b.Y() : a.Y(), i & 4 ? b.Z() : a.Z()));
        TopoDS_Edge e[8][3];                    // from corner i along axis k
        for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) if (!(i & (1 << k))) e[i][k] = occ::lineEdge(v[i], v[i | (1 << k)]);
        auto sh = occ::fresh<TopoDS_Shell>(TopAbs_SHELL, occ::K_SHELL);
        for (int k = 0; k < 3; ++k)
            for (int side = 0; side < 2; ++side)
            {
                const int l = (k+1)%3, m = (k+2)%3, o = side << k;
                sh.n->kids.push_back(BRepBuilderAPI_MakeFace(BRepBuilderAPI_MakeWire(e[o][l], e[o | (1 << l)][m], e[o | (1 << m)][l], e[o][m])).Shape());
            }
        s_.n->kids.push_back(sh);
    }
};
class BRepPrimAPI_MakeSphere : public OccMake<TopoDS_Shape>
{
public:
    BRepPrimAPI_MakeSphere(const gp_Pnt& c, double r) { s_ = occ::fresh<TopoDS_Solid>(TopAbs_SOLID, occ::K_SPHERE); s_.n->p = c; s_.n->a = r; }
};

// ------------------------------------------------------------------ bounding boxes
class Bnd_Box
{
public:
    double b[6]; bool empty = true;
    void Get(double& x0, double& y0, double& z0, double& x1, double& y1, double& z1) const
    { x0 = b[0]; y0 = b[1]; z0 = b[2]; x1 = b[3]; y1 = b[4]; z1 = b[5]; }
    void merge(const double* c)
    {
        for (int i = 0; i < 3; ++i)
        {
            b[i] = empty || c[i] < b[i] ? c[i] : b[i];
            b[i+3] = empty || c[i+3] > b[i+3] ? c[i+3] : b[i+3];
        }
        empty = false;
    }
};
namespace occ {
// contract: the exact box of the shape, enlarged by the tolerance OCC puts on shapes
const double gap = 1e-7;
inline void box(const TopoDS_Shape& s, Bnd_Box& out)
{
    double c[6];
    if (bounds && bounds(s, c)) { out.merge(c); return; }
    const Node* n = s.n;
    const double p[3] = {n->p.X(), n->p.Y(), n->p.Z()}, w[3] = {n->w.X(), n->w.Y(), n->w.Z()}, x[3] = {n->x.X(), n->x.Y(), n->x.Z()};
    if (n->kind == K_POINT) { for (int i = 0; i < 3; ++i) { c[i] = p[i] - gap; c[i+3] = p[i] + gap; } out.merge(c); return; }
    if (n->kind == K_SPHERE) { for (int i = 0; i < 3; ++i) { c[i] = p[i] - n->a - gap; c[i+3] = p[i] + n->a + gap; } out.merge(c); return; }
    if (n->kind == K_BOX)
    {
        const double q[3] = {n->q.X(), n->q.Y(), n->q.Z()};
        for (int i = 0; i < 3; ++i) { c[i] = p[i] - gap; c[i+3] = q[i] + gap; }
        out.merge(c); return;
    }
    if (n->kind == K_ELLIPSE && n->closed)
    {
        const double y[3] = {w[1]*x[2]-w[2]*x[1], w[2]*x[0]-w[0]*x[2], w[0]*x[1]-w[1]*x[0]};
        for (int i = 0; i < 3; ++i)
        { const double e = std::sqrt(n->a*n->a*x[i]*x[i] + n->b*n->b*y[i]*y[i]); c[i] = p[i] - e - gap; c[i+3] = p[i] + e + gap; }
        out.merge(c); return;
    }
    if (n->kind == K_CYLINDER || n->kind == K_CYLFACE)
    {
        for (int i = 0; i < 3; ++i)
        {
            const double e = n->a*std::sqrt(1.0 - w[i]*w[i]), h = n->b*w[i];
            c[i] = p[i] + (h < 0 ? h : 0) - e - gap; c[i+3] = p[i] + (h > 0 ? h : 0) + e + gap;
        }
        out.merge(c); return;
    }
    if (n->kind == K_LINE || n->kind == K_WIRE || n->kind == K_FACE || n->kind == K_SHELL || n->kind == K_COMPOUND)
    { for (const auto& k : n->kids) box(k, out); return; }
    unmodelled("bounding box");
}
}
class BRepBndLib { public: static void Add(const TopoDS_Shape& s, Bnd_Box& b, bool = true) { occ::box(s, b); } };

// ------------------------------------------------------------------ distances
enum Extrema_ExtFlag { Extrema_ExtFlag_MIN, Extrema_ExtFlag_MAX, Extrema_ExtFlag_MINMAX };
enum Extrema_ExtAlgo { Extrema_ExtAlgo_Grad, Extrema_ExtAlgo_Tree };
namespace occ {
inline double d2PointSegment(const gp_Pnt& p, const gp_Pnt& a, const gp_Pnt& b)
{
    const gp_Vec u(a, b), v(a, p);
    const double t = u.Dot(v), l = u.Dot(u);
    if (!(t > 0.0)) return v.Dot(v);
    if (t >= l) return p.SquareDistance(b);
    return v.Dot(v) - t*t/l;
}
// the corners of a face bounded by straight edges
inline bool ring(const TopoDS_Shape& s, std::vector<gp_Pnt>& c)
{
    if (s.n->kind != K_FACE || s.n->kids.size() != 1 || s.n->kids[0].n->kids.size() < 3) return false;
    const auto& e = s.n->kids[0].n->kids;
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        if (e[i].n->kind != K_LINE) return false;
        const auto& nx = e[(i+1)%e.size()].n->kids;
        const bool last = e[i].n->kids[1].IsSame(nx[0]) || e[i].n->kids[1].IsSame(nx[1]);
        c.push_back(e[i].n->kids[last ? 0 : 1].n->p);
    }
    return true;
}
// exact distance of a point and a shape made of points, straight edges, circles and axis-aligned rectangles
inline bool d2Point(const gp_Pnt& p, const TopoDS_Shape& s, double& d2)
{
    const Node* n = s.n;
    if (n->kind == K_POINT) { d2 = p.SquareDistance(n->p); return true; }
    if (n->kind == K_LINE) { d2 = d2PointSegment(p, n->kids[0].n->p, n->kids[1].n->p); return true; }
    if (n->kind == K_ELLIPSE && n->closed && n->a == n->b)
    {
        const gp_Vec v(n->p, p); const double z = v.Dot(gp_Vec(n->w)); const double rho = std::sqrt(v.Dot(v) - z*z);
        d2 = z*z + (rho - n->a)*(rho - n->a); return true;
    }
    if (n->kind == K_WIRE)
    {
        bool first = true; double m = 0;
        for (const auto& k : n->kids) { double x; if (!d2Point(p, k, x)) return false; if (first || x < m) m = x; first = false; }
        d2 = m; return true;
    }
    if (n->kind == K_FACE && n->kids.size() == 1 && n->kids[0].n->kids.size() > 2)
    {
        // convex face with straight edges: the plane distance above the face, the distance of the rim elsewhere
        std::vector<gp_Pnt> c;
        if (!ring(s, c)) return false;
        const gp_Vec nn = gp_Vec(c[0], c[1]).Crossed(gp_Vec(c[0], c[2]));
        bool in = true;
        for (std::size_t i = 0; i < c.size() && in; ++i)
            if (gp_Vec(c[i], c[(i+1)%c.size()]).Crossed(gp_Vec(c[i], p)).Dot(nn) < 0.0) in = false;
        if (in) { const double h = gp_Vec(c[0], p).Dot(nn); d2 = h*h/nn.Dot(nn); return true; }
        return d2Point(p, n->kids[0], d2);
    }
    return false;
}
}
class BRepExtrema_DistShapeShape
{
    double v_ = 0; bool done_ = true;
public:
    BRepExtrema_DistShapeShape(const TopoDS_Shape& a, const TopoDS_Shape& b, double defl, Extrema_ExtFlag f = Extrema_ExtFlag_MINMAX, Extrema_ExtAlgo g = Extrema_ExtAlgo_Grad)
    {
        if (occ::distance && occ::distance(a, b, defl, int(f), int(g), v_, done_)) return;
        double d2;
        if (a.n->kind == occ::K_POINT && occ::d2Point(a.n->p, b, d2)) { v_ = std::sqrt(d2); return; }
        if (b.n->kind == occ::K_POINT && occ::d2Point(b.n->p, a, d2)) { v_ = std::sqrt(d2); return; }
        occ::unmodelled("distance between shapes");
    }
    bool IsDone() const { return done_; }
    double Value() const { return v_; }
};

// ------------------------------------------------------------------ boolean operations
namespace occ {
inline TopoDS_Shape compound(const std::vector<TopoDS_Shape>& k) { auto c = fresh<TopoDS_Compound>(TopAbs_COMPOUND, K_COMPOUND); c.n->kids = k; return c; }
// two straight edges: each is split where the other one meets its interior
inline bool fragmentLines(const std::vector<TopoDS_Shape>& e, double fuzzy, Result& r)
{
    if (e.size() != 2 || e[0].n->kind != K_LINE || e[1].n->kind != K_LINE) return false;
    const gp_Pnt a = e[0].n->kids[0].n->p, b = e[0].n->kids[1].n->p, c = e[1].n->kids[0].n->p, d = e[1].n->kids[1].n->p;
    const gp_Vec u(a, b), v(c, d), w(a, c);
    const gp_Vec n = u.Crossed(v);
    const double n2 = n.Dot(n);
    if (!(n2 > 0.0))
    {
        // parallel edges that do not overlap stay as they are
        const double l = u.Dot(u), p = u.Dot(w), q = u.Dot(gp_Vec(a, d)), o2 = w.Dot(w)*l - p*p;
        const double g = fuzzy*std::sqrt(l);
        if (o2 > fuzzy*fuzzy*l || (p < -g && q < -g) || (p > l + g && q > l + g)) { r.shape = compound(e); return true; }
        unmodelled("fragmentation of overlapping edges"); return false;
    }
    const double s = w.Crossed(v).Dot(n)/n2, t = w.Crossed(u).Dot(n)/n2, off = w.Dot(n);
    if (off*off > fuzzy*fuzzy*n2) { r.shape = compound(e); return true; }      // the lines miss each other
    if (s < 0.0 || s > 1.0 || t < 0.0 || t > 1.0) { r.shape = compound(e); return true; }
    const gp_Pnt x(a.X() + s*u.X(), a.Y() + s*u.Y(), a.Z() + s*u.Z());
    std::vector<TopoDS_Shape> out;
    const auto V = s == 0.0 ? as<TopoDS_Vertex>(e[0].n->kids[0]) : s == 1.0 ? as<TopoDS_Vertex>(e[0].n->kids[1]) : vertex(x);
    auto split = [&] (const TopoDS_Shape& g, double p)
    {
        if (p == 0.0 || p == 1.0) { out.push_back(g); return; }
        out.push_back(lineEdge(as<TopoDS_Vertex>(g.n->kids[0]), V)); out.push_back(lineEdge(V, as<TopoDS_Vertex>(g.n->kids[1])));
    };
    split(e[0], s); split(e[1], t);
    r.shape = compound(out);
    return true;
}
// the part of a straight edge on a planar face bounded by straight edges (convex) or by one ellipse, as a range of
// its parameters in [0,1]; the edge lies in the plane of the face
inline bool clip(const TopoDS_Shape& e, const TopoDS_Shape& face, double& t0, double& t1, bool& none)
{
    const gp_Pnt a = e.n->kids[0].n->p, b = e.n->kids[1].n->p;
    t0 = 0; t1 = 1; none = false;
    if (face.n->kids.size() != 1) return false;
    const auto& k = face.n->kids[0].n->kids;
    if (k.size() == 1 && k[0].n->kind == K_ELLIPSE && k[0].n->closed)
    {
        const Node* n = k[0].n;
        const gp_Vec x(n->x), y = gp_Vec(n->w).Crossed(x), p(n->p, a), d(a, b);
        const double ra = n->b, rb = n->a;               // scaled by a*b
        const double px = p.Dot(x)*ra, py = p.Dot(y)*rb, dx = d.Dot(x)*ra, dy = d.Dot(y)*rb;
        const double A = dx*dx + dy*dy, B = px*dx + py*dy, C = px*px + py*py - ra*ra*rb*rb, D = B*B - A*C;
        if (D < 0.0) { none = true; return true; }
        if (D == 0.0) { t0 = t1 = -B/A; }
        else { const double r = std::sqrt(D); t0 = (-B - r)/A; t1 = (-B + r)/A; }
        if (t1 < 0.0 || t0 > 1.0) { none = true; return true; }
        if (t0 < 0.0) t0 = 0.0;
        if (t1 > 1.0) t1 = 1.0;
        return true;
    }
    std::vector<gp_Pnt> c;
    if (!ring(face, c)) return false;
    const gp_Vec nn = gp_Vec(c[0], c[1]).Crossed(gp_Vec(c[0], c[2]));
    for (std::size_t i = 0; i < c.size(); ++i)
    {
        const gp_Vec s(c[i], c[(i+1)%c.size()]);
        const gp_Vec m = nn.Crossed(s);                        // points inwards
        const double g0 = m.Dot(gp_Vec(c[i], a)), g = m.Dot(gp_Vec(a, b));
        if (g == 0.0) { if (g0 < 0.0) { none = true; return true; } continue; }
        const double t = -g0/g;
        if (g > 0.0) { if (t > t0) t0 = t; }
        else if (t < t1) t1 = t;
        if (t0 > t1) { none = true; return true; }
    }
    return true;
}
inline bool lineFace(Op op, const std::vector<TopoDS_Shape>& a, const std::vector<TopoDS_Shape>& t, Result& r)
{
    if ((op != COMMON && op != CUT) || a.size() != 1 || t.size() != 1 || a[0].n->kind != K_LINE || t[0].n->kind != K_FACE) return false;
    double t0, t1; bool none;
    if (!clip(a[0], t[0], t0, t1, none)) return false;
    std::vector<TopoDS_Shape> out;
    if (none) { if (op == CUT) out.push_back(a[0]); r.shape = compound(out); return true; }
    const gp_Pnt p = a[0].n->kids[0].n->p, q = a[0].n->kids[1].n->p;
    auto at = [&] (double x) { return gp_Pnt(p.X() + x*(q.X()-p.X()), p.Y() + x*(q.Y()-p.Y()), p.Z() + x*(q.Z()-p.Z())); };
    const auto P = t0 == 0.0 ? as<TopoDS_Vertex>(a[0].n->kids[0]) : vertex(at(t0));
    const auto Q = t1 == t0 ? P : t1 == 1.0 ? as<TopoDS_Vertex>(a[0].n->kids[1]) : vertex(at(t1));
    if (op == COMMON) out.push_back(t0 == t1 ? static_cast<const TopoDS_Shape&>(P) : static_cast<const TopoDS_Shape&>(lineEdge(P, Q)));
    else
    {
        if (t0 > 0.0) out.push_back(lineEdge(as<TopoDS_Vertex>(a[0].n->kids[0]), P));
        if (t1 < 1.0) out.push_back(lineEdge(Q, as<TopoDS_Vertex>(a[0].n->kids[1])));
    }
    r.shape = compound(out);
    return true;
}
}
class OccBoolean
{
protected:
    occ::Op op_; std::vector<TopoDS_Shape> a_, t_; double f_ = 0; occ::Result r_; bool built_ = false;
    TopTools_ListOfShape tmp_;
    const occ::Hist* hist(const TopoDS_Shape& s) const { for (const auto& h : r_.hist) if (h.s.IsSame(s)) return &h; return nullptr; }
public:
    OccBoolean(occ::Op o) : op_(o) {}
    OccBoolean(occ::Op o, const TopoDS_Shape& x, const TopoDS_Shape& y) : op_(o) { a_.push_back(x); t_.push_back(y); }
    void SetArguments(const TopTools_ListOfShape& l) { a_ = l.v; }
    void SetTools(const TopTools_ListOfShape& l) { t_ = l.v; }
    void SetRunParallel(bool) {}
    void SetFuzzyValue(double f) { f_ = f; }
    void SetNonDestructive(bool) {}
    void Build()
    {
        built_ = true;
        if (occ::boolean) { occ::boolean(op_, a_, t_, f_, r_); return; }
        if (op_ == occ::FRAGMENT && occ::fragmentLines(a_, f_, r_)) return;
        if (occ::lineFace(op_, a_, t_, r_)) return;
        occ::unmodelled("boolean operation");
    }
    bool IsDone() const { return built_ && r_.done; }
    const TopoDS_Shape& Shape() const { return r_.shape; }
    bool IsDeleted(const TopoDS_Shape& s) { auto h = hist(s); return h && h->deleted; }
    const TopTools_ListOfShape& Generated(const TopoDS_Shape& s) { g_.v.clear(); auto h = hist(s); if (h) g_.v = h->gen; return g_; }
    const TopTools_ListOfShape& Modified(const TopoDS_Shape& s) { m_.v.clear(); auto h = hist(s); if (h) m_.v = h->mod; return m_; }
private:
    TopTools_ListOfShape g_, m_;
};
class BRepAlgoAPI_BuilderAlgo : public OccBoolean { public: BRepAlgoAPI_BuilderAlgo() : OccBoolean(occ::FRAGMENT) {} };
class BRepAlgoAPI_Common : public OccBoolean { public: BRepAlgoAPI_Common() : OccBoolean(occ::COMMON) {} BRepAlgoAPI_Common(const TopoDS_Shape& a, const TopoDS_Shape& b) : OccBoolean(occ::COMMON, a, b) {} };
class BRepAlgoAPI_Cut : public OccBoolean { public: BRepAlgoAPI_Cut() : OccBoolean(occ::CUT) {} BRepAlgoAPI_Cut(const TopoDS_Shape& a, const TopoDS_Shape& b) : OccBoolean(occ::CUT, a, b) {} };
class BRepAlgoAPI_Fuse : public OccBoolean { public: BRepAlgoAPI_Fuse() : OccBoolean(occ::FUSE) {} BRepAlgoAPI_Fuse(const TopoDS_Shape& a, const TopoDS_Shape& b) : OccBoolean(occ::FUSE, a, b) {} };

// ------------------------------------------------------------------ magnitudes
class GProp_GProps { public: double m = 0; GProp_GProps() {} GProp_GProps(const gp_Pnt&) {} double Mass() const { return m; } };
class BRepGProp
{
    // areas of faces and volumes of solids are given by the harness
    static double mass(const TopoDS_Shape& s) { if (!s.n->hasMass) occ::unmodelled("mass of a shape"); return s.n->mass; }
    static double sum(const TopoDS_Shape& s, TopAbs_ShapeEnum t) { double r = 0; for (const auto& k : occ::subs(s, t)) r = r + mass(k); return r; }
public:
    static double SurfaceProperties(const TopoDS_Shape& s, GProp_GProps& g, double = 0, bool = false)
    { g.m = sum(s, TopAbs_FACE); return 0; }
    static double VolumeProperties(const TopoDS_Shape& s, GProp_GProps& g, double = 0, bool = false, bool = false) { g.m = sum(s, TopAbs_SOLID); return 0; }
    static void LinearProperties(const TopoDS_Shape& s, GProp_GProps& g, bool = false) { g.m = sum(s, TopAbs_EDGE); }
};
class GeomAdaptor_Curve { public: Handle(Geom_Curve) c; double u0, u1; GeomAdaptor_Curve(const Handle(Geom_Curve)& c_) : c(c_), u0(c_->FirstParameter()), u1(c_->LastParameter()) {}
    GeomAdaptor_Curve(const Handle(Geom_Curve)& c_, double a, double b) : c(c_), u0(a), u1(b) {} };
class GCPnts_AbscissaPoint
{
public:
    static double Length(const GeomAdaptor_Curve& c) { return c.c->Length(c.u0, c.u1); }
    static double Length(const GeomAdaptor_Curve& c, double a, double b) { return c.c->Length(a, b); }
};

// ------------------------------------------------------------------ intersections and projections
class GeomAPI_IntSS
{
    std::vector<Handle(Geom_Curve)> l_; bool done_ = true;
public:
    template<class A, class B> GeomAPI_IntSS(const Handle(A)& s1, const Handle(B)& s2, double)
    {
        auto p = Handle(Geom_Plane)::DownCast(s1), q = Handle(Geom_Plane)::DownCast(s2);
        if (p.IsNull() || q.IsNull()) { occ::unmodelled("surface intersection"); return; }
        // the line of two planes: direction n1 x n2, point of the line solved from n1.x = n1.p, n2.x = n2.q, d.x = d.p
        const gp_Vec n1(p->n), n2(q->n), d = n1.Crossed(n2);
        const double dd = d.Dot(d);
        if (!(dd > 0.0)) return;
        const gp_Vec pq(p->p, q->p);
        const double h = n2.Dot(pq);                     // distance of q's plane from p along n2
        const gp_Vec v = d.Crossed(n1)*(h/dd);           // moves within the first plane; sign fixed below
        const double s = n2.Dot(v);
        const gp_Vec x = s*h >= 0.0 ? v : v*(-1.0);
        l_.push_back(new Geom_Line(gp_Pnt(p->p.X()+x.X(), p->p.Y()+x.Y(), p->p.Z()+x.Z()), gp_Dir(d)));
    }
    bool IsDone() const { return done_; }
    int NbLines() const { return int(l_.size()); }
    const Handle(Geom_Curve)& Line(int i) const { return l_.at(i-1); }
};
class GeomAPI_IntCS
{
    std::vector<gp_Pnt> p_; bool done_ = true;
public:
    template<class A, class B> GeomAPI_IntCS(const Handle(A)& c, const Handle(B)& s)
    {
        auto l = Handle(Geom_Line)::DownCast(c); auto q = Handle(Geom_Plane)::DownCast(s);
        if (l.IsNull() || q.IsNull()) { occ::unmodelled("curve-surface intersection"); return; }
        const gp_Vec n(q->n), u(l->d), v(l->p, q->p);
        const double k = n.Dot(u);
        if (k == 0.0) return;
        const double t = n.Dot(v)/k;
        p_.push_back(gp_Pnt(l->p.X()+t*u.X(), l->p.Y()+t*u.Y(), l->p.Z()+t*u.Z()));
    }
    bool IsDone() const { return done_; }
    int NbPoints() const { return int(p_.size()); }
    int NbSegments() const { return 0; }
    const gp_Pnt& Point(int i) const { return p_.at(i-1); }
};
class GeomAPI_ProjectPointOnCurve
{
    double d_; 
public:
    GeomAPI_ProjectPointOnCurve(const gp_Pnt& p, const Handle(Geom_Curve)& c) { d_ = c->DistanceTo(p); }
    int NbPoints() const { return 1; }
    double LowerDistance() const { return d_; }
};
class GeomAPI_ProjectPointOnSurf
{
    double u_ = 0, v_ = 0, d_ = 0; bool ok_;
public:
    GeomAPI_ProjectPointOnSurf(const gp_Pnt& p, const Handle(Geom_Surface)& s) { ok_ = s->Parameters(p, u_, v_, d_); }
    bool IsDone() const { return ok_; }
    int NbPoints() const { return ok_; }
    double LowerDistance() const { return d_; }
    operator double() const { return d_; }
    void LowerDistanceParameters(double& u, double& v) const { u = u_; v = v_; }
};
#endif
