// helpers shared by the geometry harnesses
#ifndef VERIF_GEO_HH
#define VERIF_GEO_HH
#include <cmath>
#include <string>
#include <stdexcept>
#include <limits>
#include <array>
#include <vector>
#include <type_traits>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/common/math.hh>
#include "sym.h"
using P3 = Frackit::Point<double, 3>;
using V3 = Frackit::Vector<double, 3>;
using D3 = Frackit::Direction<double, 3>;
using P2 = Frackit::Point<double, 2>;
using V2 = Frackit::Vector<double, 2>;
using D2 = Frackit::Direction<double, 2>;
using P1 = Frackit::Point<double, 1>;
using V1 = Frackit::Vector<double, 1>;
using D1 = Frackit::Direction<double, 1>;

// three named coordinates (a single letter each so that replay files stay readable)
inline P3 symPoint(const char* x, const char* y, const char* z, double b = 100.0)
{ double a = sym_real(x,-b,b); double c = sym_real(y,-b,b); double d = sym_real(z,-b,b); return P3(a,c,d); }
inline V3 symVector(const char* x, const char* y, const char* z, double b = 100.0)
{ double a = sym_real(x,-b,b); double c = sym_real(y,-b,b); double d = sym_real(z,-b,b); return V3(a,c,d); }
inline D3 symDirection(const char* n)
{ double o[3]; sym_unit3(n, o); return D3(V3(o[0],o[1],o[2])); }
inline V3 unitVec(const char* n)
{ double o[3]; sym_unit3(n, o); return V3(o[0],o[1],o[2]); }

struct R3 { double x, y, z; };
// arbitrary right-handed orthonormal frame (rotation matrix of a unit quaternion)
struct Frame3
{
    R3 u, v, w;
    R3 at(double x, double y, double z) const
    { return {x*u.x+y*v.x+z*w.x, x*u.y+y*v.y+z*w.y, x*u.z+y*v.z+z*w.z}; }
};
inline Frame3 symFrame(const char* n)
{
    double q[4]; sym_unit4(n, q);
    const double a = q[0], b = q[1], c = q[2], d = q[3];
    return {{a*a+b*b-c*c-d*d, 2*(b*c+a*d), 2*(b*d-a*c)},
            {2*(b*c-a*d), a*a-b*b+c*c-d*d, 2*(c*d+a*b)},
            {2*(b*d+a*c), 2*(c*d-a*b), a*a-b*b-c*c+d*d}};
}
// a frame that rotates only about one axis family: cheaper, used where degree matters
inline Frame3 symFrameZ(const char* n)
{ double q[2]; sym_unit2(n, q); return {{q[0],q[1],0},{-q[1],q[0],0},{0,0,1}}; }
// the same about a horizontal axis
inline Frame3 symFrameX(const char* n)
{ double q[2]; sym_unit2(n, q); return {{0,q[0],q[1]},{1,0,0},{0,q[1],-q[0]}}; }
inline P3 pt(R3 r) { return P3(r.x, r.y, r.z); }
inline V3 vec(R3 r) { return V3(r.x, r.y, r.z); }
inline D3 dir(R3 r) { return D3(V3(r.x, r.y, r.z)); }

// reference algebra, written out independently of the library
template<class T> inline R3 r3(const T& t) { return R3{t.x(), t.y(), t.z()}; }
inline R3 sub(R3 a, R3 b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
inline R3 add(R3 a, R3 b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
inline R3 mul(R3 a, double s) { return {a.x*s, a.y*s, a.z*s}; }
inline double dot(R3 a, R3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline R3 cross(R3 a, R3 b) { return {a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x}; }
inline double sq(R3 a) { return dot(a,a); }
inline void near3(R3 a, R3 b, double tol, const char* l)
{ sym_near(a.x, b.x, tol, l); sym_near(a.y, b.y, tol, l); sym_near(a.z, b.z, tol, l); }
inline void zero3(R3 a, double tol, const char* l) { near3(a, R3{0,0,0}, tol, l); }
#endif
