#ifndef IOS_SHADOW_HH
#define IOS_SHADOW_HH
namespace shadow { struct manip {}; }
namespace std {
class ios_base { public: typedef long streamsize_; enum openmode { out = 1, in = 2, app = 4, trunc = 8, ate = 16, binary = 32 }; };
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& defaultfloat(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline shadow::manip setprecision(int) { return {}; }
inline shadow::manip setw(int) { return {}; }
}
#endif
