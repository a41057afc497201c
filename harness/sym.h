// Interface between the harnesses and the symbolic executor / the native replay runtime.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
extern "C" {
double sym_real(const char* name, double lo, double hi);   // arbitrary real in [lo,hi]
double sym_angle(const char* name, double lo, double hi);
void   sym_unit3(const char* name, double* out);           // arbitrary unit vector
void   sym_unit2(const char* name, double* out);
void   sym_unit4(const char* name, double* out);
long   sym_int(const char* name, long lo, long hi);        // arbitrary integer in [lo,hi]
bool   sym_bool(const char* name);
long   sym_choice(const char* name, long n);               // 0..n-1, one path each
void   sym_assume(bool c);
bool   sym_force(bool c);                                  // fork on c
void   sym_assert(bool c, const char* label);
void   sym_near(double a, double b, double tol, const char* label);   // |a-b| <= tol
void   sym_le(double a, double b, double tol, const char* label);     // a <= b+tol
void   sym_fail(const char* label);
void   sym_skip();
void   sym_reach(const char* label);
bool   sym_symbolic();                                     // true in the executor, false natively
}
#define HARNESS(n) extern "C" void n()
#endif
