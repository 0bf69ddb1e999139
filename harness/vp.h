// Interface between the harnesses and the symbolic executor / the native replay.
#pragma once
#include <cstddef>
extern "C" {
double vp_real(void);                         // any real number
double vp_range(double lo, double hi);        // lo <= x <= hi
void vp_unit(double* p, int n);               // n components of a vector of length one
int vp_choice(int n);                         // 0 .. n-1, every value explored
int vp_int(int lo, int hi);                   // symbolic integer
void vp_assume(bool c);
void vp_check(bool c, const char* label);
void vp_eq(double a, double b, const char* label);               // equal (native: up to rounding)
void vp_le(double a, double b, const char* label);               // a <= b (native: up to rounding)
void vp_near(double a, double b, double eps, const char* label); // |a-b| <= eps
void vp_trig_den(int n);                      // half angles: 2 (default); whole angles: 1
void vp_eqi(int a, int b, const char* label);
// bit-exact domain
float vp_f32(void);                           // any finite float
double vp_f64(void);                          // any finite double
void vp_same32(float a, float b, const char* label);   // numerically equal (or both NaN)
void vp_same64(double a, double b, const char* label);
}
