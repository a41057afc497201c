#include <unistd.h>
// Native replay of one counterexample: the same harness, the real library, concrete inputs.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

static std::map<std::string, std::vector<std::string>> values;
static std::map<std::string, size_t> pos;
static bool failed = false;

static const char* get(const char* given)
{
    std::string name(given);
    for (auto& c : name) if (c == ' ') c = '_';
    auto& v = values[name];
    auto& p = pos[name];
    if (p >= v.size()) { return nullptr; }
    return v[p++].c_str();
}
extern "C" {
double sym_real(const char* n, double lo, double hi)
{
    const char* s = get(n);
    double x = s ? strtod(s, nullptr) : (lo > 0 ? lo : (hi < 0 ? hi : 0.0));
    if (x < lo) x = lo;
    if (x > hi) x = hi;
    return x;
}
double sym_angle(const char* n, double lo, double hi) { return sym_real(n, lo, hi); }
void sym_unit3(const char* n, double* o)
{
    std::string b(n);
    double x = sym_real((b+".x").c_str(), -1, 1), y = sym_real((b+".y").c_str(), -1, 1), z = sym_real((b+".z").c_str(), -1, 1);
    double l = std::sqrt(x*x+y*y+z*z);
    if (l == 0) { x = 1; l = 1; }
    o[0] = x/l; o[1] = y/l; o[2] = z/l;
}
void sym_unit2(const char* n, double* o)
{
    std::string b(n);
    double x = sym_real((b+".x").c_str(), -1, 1), y = sym_real((b+".y").c_str(), -1, 1);
    double l = std::sqrt(x*x+y*y);
    if (l == 0) { x = 1; l = 1; }
    o[0] = x/l; o[1] = y/l;
}
void sym_unit4(const char* n, double* o)
{
    std::string b(n);
    double l = 0;
    for (int i = 0; i < 4; ++i) { o[i] = sym_real((b + "." + "abcd"[i]).c_str(), -1, 1); l += o[i]*o[i]; }
    l = std::sqrt(l);
    if (l == 0) { o[0] = 1; l = 1; }
    for (int i = 0; i < 4; ++i) o[i] /= l;
}
long sym_int(const char* n, long lo, long) { const char* s = get(n); return s ? strtol(s, nullptr, 10) : lo; }
bool sym_bool(const char* n) { const char* s = get(n); return s && strtol(s, nullptr, 10); }
long sym_choice(const char* n, long) { const char* s = get(n); return s ? strtol(s, nullptr, 10) : 0; }
void sym_assume(bool c) { if (!c) { if (failed) _exit(1); printf("ASSUME-FAILED\n"); fflush(stdout); _exit(77); } }
bool sym_force(bool c) { return c; }
void sym_assert(bool c, const char* l) { if (!c) { printf("FAILED %s\n", l); failed = true; } }
void sym_near(double a, double b, double t, const char* l)
{ if (!(std::abs(a-b) <= t || a == b)) { printf("FAILED %s: %.17g vs %.17g\n", l, a, b); failed = true; } }
void sym_le(double a, double b, double t, const char* l)
{ if (!(a <= b + t)) { printf("FAILED %s: %.17g > %.17g\n", l, a, b); failed = true; } }
void sym_fail(const char* l) { printf("FAILED %s\n", l); failed = true; fflush(stdout); _exit(1); }
void sym_skip() { if (failed) _exit(1); _exit(77); }
void sym_reach(const char*) {}
bool sym_symbolic() { return false; }
void _exit(int);
}

int main(int argc, char** argv)
{
    FILE* f = fopen(argv[2], "r");
    char name[256], val[256];
    while (f && fscanf(f, "%255s %255s", name, val) == 2) values[name].push_back(val);
    if (f) fclose(f);
    auto* fn = reinterpret_cast<void(*)()>(dlsym(RTLD_DEFAULT, argv[1]));
    if (!fn) { printf("no such harness\n"); return 3; }
    setvbuf(stdout, nullptr, _IONBF, 0);
    try { fn(); }
    catch (const std::exception& e) { printf("FAILED uncaught exception %s: %s\n", typeid(e).name(), e.what()); return 1; }
    catch (...) { printf("FAILED uncaught exception\n"); return 1; }
    return failed ? 1 : 0;
}
