// Harness interface. Symbolic runs: every vp_* call is interpreted by the engine.
// Native replays: rt_native.cpp supplies concrete values and tolerant comparisons.
#pragma once
#include <cstdint>
extern "C" {
double vp_real(const char* name, int idx, double lo, double hi);   // any real in [lo,hi]
int64_t vp_int(const char* name, int idx, int64_t lo, int64_t hi); // any integer in [lo,hi]
unsigned char vp_byte(const char* name, int idx);                  // any byte
bool vp_bool(const char* name, int idx);
int vp_choose(const char* name, int idx, int n);                   // case split 0..n-1
double vp_rat(int64_t p, int64_t q);                               // exactly p/q
double vp_angle(const char* name, int idx, int64_t p, int64_t q);  // the angle 2 atan2(p,q), whose sine and cosine are rational
void vp_unit2(const char* name, int idx, double* out2);            // any unit vector
void vp_unit3(const char* name, int idx, double* out3);
void vp_quat(const char* name, int idx, double* xyzw);             // any unit quaternion
void vp_assume(bool c);
void vp_check(bool c, const char* msg);
void vp_check_eq(double a, double b, const char* msg);
void vp_check_le(double a, double b, const char* msg);
void vp_check_lt(double a, double b, const char* msg);
void vp_check_same(double a, double b, const char* msg);           // bitwise identical
void vp_cover(const char* msg);
void vp_allow_exit(int on);
void vp_allow_throw(int on);
void vp_divcheck(int mode); // 0 assume divisors nonzero, 1 prove it, 2 split on it
void vp_rounding(int on); // 1: operations on constants round as doubles do (for iterations on fixed data)
int64_t vp_concrete(int64_t v);
int vp_symbolic_run(void);
void vp_print(const char* n, double v);
}
#define VP_HARNESS(n) extern "C" void n()
