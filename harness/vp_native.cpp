// Native side of vp.h: reads inputs from a file, prints every check's operands and verdict.
#include "vp.h"
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <dlfcn.h>
#include <vector>
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#endif
static std::vector<double> in; static size_t pos; static int failed; static double TOL = 1e-9;
static double pop() { if (pos < in.size()) return in[pos++]; printf("EXHAUSTED\n"); fflush(stdout); exit(failed ? 1 : 3); }
extern "C" {
double vp_real(void) { return pop(); }
double vp_range(double lo, double hi) { double x = pop(); return x < lo ? lo : x > hi ? hi : x; }
void vp_unit(double* p, int n) { double s = 0; for (int i = 0; i < n; ++i) { p[i] = pop(); s += p[i] * p[i]; }
	s = std::sqrt(s); if (s > 0) for (int i = 0; i < n; ++i) p[i] /= s; }
int vp_choice(int n) { int k = (int)pop(); if (k < 0 || k >= n) { printf("ASSUME\n"); fflush(stdout); exit(3); } return k; }
int vp_int(int lo, int hi) { double d = pop(); int k = (int)llround(d); return k < lo ? lo : k > hi ? hi : k; }
void vp_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); exit(failed ? 1 : 3); } }
static void out(const char* k, const char* l, double a, double b, bool ok) {
	printf("%s\t%s\t%.17g\t%.17g\t%d\n", k, l, a, b, ok ? 1 : 0); fflush(stdout); if (!ok) failed = 1; }
void vp_check(bool c, const char* l) { out("B", l, c, 1, c); }
void vp_eq(double a, double b, const char* l) { out("E", l, a, b, a == b || std::fabs(a - b) <= TOL * (1 + std::fmax(std::fabs(a), std::fabs(b)))); }
void vp_le(double a, double b, const char* l) { out("L", l, a, b, a <= b + TOL * (1 + std::fmax(std::fabs(a), std::fabs(b)))); }
void vp_near(double a, double b, double e, const char* l) { out("N", l, a, b, std::fabs(a - b) <= e + TOL * (1 + std::fmax(std::fabs(a), std::fabs(b)))); }
void vp_eqi(int a, int b, const char* l) { out("I", l, a, b, a == b); }
void vp_trig_den(int) {}
float vp_f32(void) { return (float)pop(); }
double vp_f64(void) { return pop(); }
void vp_same32(float a, float b, const char* l) { out("S", l, a, b, a == b || (a != a && b != b)); }
void vp_same64(double a, double b, const char* l) { out("S", l, a, b, a == b || (a != a && b != b)); }
int rand(void) { return vp_int(0, RAND_MAX); }
}
int main(int argc, char** argv) {
	if (argc < 3) return 2;
	FILE* f = fopen(argv[2], "r"); if (!f) return 2;
	char buf[256];
	while (fgets(buf, sizeof buf, f)) if (buf[0] != '#') in.push_back(strtod(buf, 0));
	fclose(f);
	if (argc > 3) TOL = atof(argv[3]);
	void* h = dlopen(0, RTLD_NOW);
	void (*fn)() = (void (*)())dlsym(h, argv[1]);
	if (!fn) { printf("NOFUNC\n"); return 2; }
	printf("START\n"); fflush(stdout);
#if __has_feature(address_sanitizer)
	size_t before = __sanitizer_get_current_allocated_bytes();
#endif
	fn();
#if __has_feature(address_sanitizer)
	if (__sanitizer_get_current_allocated_bytes() > before) printf("LEAK\n");
#endif
	printf("DONE\n");
	return failed ? 1 : 0;
}
