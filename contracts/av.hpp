// Specification functions.  In the verifier they are the primitives of the contract language;
// in the native replay they are ordinary functions (contracts/av_native.cpp).
#pragma once
#include <cstddef>
extern "C" {
long av_int(const char* name, long lo, long hi);          // arbitrary integer in [lo,hi]
double av_real(const char* name);                         // arbitrary real
double av_range(const char* name, double lo, double hi);  // arbitrary real in [lo,hi]
double av_pos(const char* name);                          // arbitrary real > 0
int av_bool(const char* name);
void av_assume(bool);                                     // requires
void av_assert(const char* label, bool);                  // ensures
void av_eq(const char* label, double a, double b);        // ensures a == b
void av_le(const char* label, double a, double b);        // ensures a <= b
void av_lt(const char* label, double a, double b);        // ensures a <  b
void av_nothrow(const char* label);                       // ensures: nothing below throws
void av_maythrow();
void av_cover(const char* label);                         // reachability (vacuity guard)
void av_array(double* p, const char* name, long nx, long ny, long nz);   // arbitrary contents, shape nx*ny*nz
void av_iarray(int* p, const char* name, long n, long lo, long hi);
void av_shape(long nx, long ny, long nz);                 // arrays of nx*ny*nz elements have this logical shape
void av_dims(const double* p, long nx, long ny, long nz); // logical shape of an array
double av_fun(const char* name, int n, ...);              // uninterpreted function of n doubles
const double* av_clone(const double* p, long n);          // \old contents of an array of n doubles
[[noreturn]] void av_throw();
[[noreturn]] void av_stop();
void av_print(const char*, ...);
#ifdef AV_VERIFY
inline int av_near(double a, double b) { return a == b; } // equal (up to rounding in the native replay)
inline void av_conditioned(bool) {}                     // the native replay skips runs in which rounding errors dominate
inline void av_exact(double, double) {}                   // the native replay skips runs in which rounding keeps the two apart
#else
int av_near(double a, double b);
void av_exact(double a, double b);
void av_conditioned(bool);
#endif
}
#define AV_CONTRACT(prop, name) extern "C" void av_contract__##prop##__##name()
