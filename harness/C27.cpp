// C27: nothing in the double instantiation passes through a narrower type: each operation is compared with the same
// operation of a copy of the current headers in which every float is a double (written by the checker at each run). The two
// are the same expression in exact arithmetic; a conversion to float on the way adds an unknown relative error. Inputs are
// thirds, so that no counterexample is representable in float.
// bound: fixed sizes as listed in the harness (arrays of 3, systems of up to 4, chains of up to 4 points)
//@ * tol=1e-11
//@ * wide=1
#include "vp.h"
#include <cmath>
#include <mathlib.h>
#ifdef VP_WIDE
#include "wide/mathlib.h"
#else
namespace wide = mathlib;
#endif
#define H extern "C" void
#define PART(n) const int part = vp_choice(n)
typedef double T;


struct In { double v[48]; int n; In() { n = 0; }
	void put(double x) { v[n++] = x; }
	In& any(int k) { while (k-- > 0) put(vp_real() / 3); return *this; }
	In& range(double lo, double hi, int k = 1) { while (k-- > 0) put(vp_range(3 * lo, 3 * hi) / 3); return *this; }
	In& unit(int k) { double p[4]; vp_unit(p, k); for (int i = 0; i < k; ++i) put(p[i]); return *this; }
	template <class J> void to(J& j) { for (int i = 0; i < n; ++i) j.v[i] = v[i]; j.n = n; j.p = 0; }
};
template <class A, class B> inline void cmp(const A& a, const B& b) {
	vp_check(a.n == b.n && a.m == b.m, "same results");
	for (int i = 0; i < a.m; ++i) vp_check(a.b[i] == b.b[i], "same decision");
	for (int i = 0; i < a.n; ++i) if ((a.v[i] == a.v[i]) | (b.v[i] == b.v[i])) vp_eq(a.v[i], b.v[i], "computed in double precision");
}
#define DUAL(name, inputs) static void b_##name(O<T>& o, I<T>& i, int part)
#define DUALP(name, parts, inputs) static void b_##name(O<T>& o, I<T>& i, int part)
namespace W { using namespace wide; namespace LIB = wide;
#include "C27.inc"
}
#undef DUAL
#undef DUALP
#define DUAL(name, inputs) DUALP(name, 1, inputs)
#define DUALP(name, parts, inputs) \
	static void b_##name(O<T>& o, I<T>& i, int part); \
	H h_##name() { PART(parts); In in; inputs; O<T> a; W::O<T> b; I<T> x; W::I<T> y; in.to(x); in.to(y); b_##name(a, x, part); W::b_##name(b, y, part); cmp(a, b); } \
	static void b_##name(O<T>& o, I<T>& i, int part)
namespace N { using namespace mathlib; namespace LIB = mathlib;
#include "C27.inc"
}
using namespace mathlib;
// the constants themselves
H h_constants() {
	typedef Constants<double> K; const double pi = 3.14159265358979323846;
	vp_eq(K::PI, pi, "pi"); vp_eq(K::PI_TIMES_2, 2 * pi, "2 pi"); vp_eq(K::PI_OVER_2, pi / 2, "pi / 2"); vp_eq(K::PI_OVER_3, pi / 3, "pi / 3"); vp_eq(K::PI_OVER_4, pi / 4, "pi / 4"); vp_eq(K::PI_OVER_6, pi / 6, "pi / 6"); vp_eq(K::PI_OVER_8, pi / 8, "pi / 8"); vp_eq(K::PI_OVER_16, pi / 16, "pi / 16");
	vp_eq(degreeToRadian(180.0), pi, "half turn"); vp_eq(radianToDegree(pi), 180, "half turn"); vp_eq(mathlib::asin(2.0), pi / 2, "saturated asin"); vp_eq(mathlib::acos(-2.0), pi, "saturated acos"); vp_eq(mathlib::acos(2.0), 0, "saturated acos");
}
