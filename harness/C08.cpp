// C08: bulk transforms write exactly the single transform of every element and nothing else.
// bound: counts 0 to 25 (thorough: 0 to 65), strides of 0 to 4 extra reals, matrices general
#include "h.h"

static inline M2 g2() { M2 m; m.x = any2(); m.y = any2(); return m; }
static inline M3 g3() { M3 m; m.x = any3(); m.y = any3(); m.z = any3(); return m; }
static inline M34 g34() { M34 m; m.rs = g3(); m.t = any3(); return m; }
static inline M4 g4() { M4 m; m.x = any4(); m.y = any4(); m.z = any4(); m.t = any4(); return m; }
// arrays of exactly the length asked for
struct Buf { R* p; Buf(int n) : p(new R[n]) {} ~Buf() { delete[] p; } operator R*() { return p; } private: Buf(const Buf&); };
enum { MAXS = 8 };

// one(m, in, out): the single transform, written out;  bulk(m, d, s, n), bulk(m, d, s, n, ds, ss): the library's
struct T2 { typedef M2 M; typedef V2 V; enum { N = 2 }; static M make() { return g2(); }
	static void one(const M& m, const R* i, R* o) { V r = ap(m, mk2(i[0], i[1])); o[0] = r.x; o[1] = r.y; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transform(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transform(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transform(d, s); } };
struct T3 { typedef M3 M; typedef V3 V; enum { N = 3 }; static M make() { return g3(); }
	static void one(const M& m, const R* i, R* o) { V r = ap(m, mk3(i[0], i[1], i[2])); o[0] = r.x; o[1] = r.y; o[2] = r.z; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transform(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transform(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transform(d, s); } };
struct T34 { typedef M34 M; typedef V3 V; enum { N = 3 }; static M make() { return g34(); }
	static void one(const M& m, const R* i, R* o) { V r = ap(m, mk3(i[0], i[1], i[2])); o[0] = r.x; o[1] = r.y; o[2] = r.z; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transform(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transform(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transform(d, s); } };
struct T4p { typedef M4 M; typedef V3 V; enum { N = 3 }; static M make() { return g4(); }
	static void one(const M& m, const R* i, R* o) { V4 r = ap(m, mk4(i[0], i[1], i[2], 1)); o[0] = r.x; o[1] = r.y; o[2] = r.z; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transform(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transform(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transform(d, s); } };
struct T4 { typedef M4 M; typedef V4 V; enum { N = 4 }; static M make() { return g4(); }
	static void one(const M& m, const R* i, R* o) { V4 r = ap(m, mk4(i[0], i[1], i[2], i[3])); o[0] = r.x; o[1] = r.y; o[2] = r.z; o[3] = r.w; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transform(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transform(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transform(d, s); } };
// directions: the translation column does not count
struct T4d { typedef M4 M; typedef V3 V; enum { N = 3 }; static M make() { return g4(); }
	static void one(const M& m, const R* i, R* o) { V4 r = ap(m, mk4(i[0], i[1], i[2], 0)); o[0] = r.x; o[1] = r.y; o[2] = r.z; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transformVector(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transformVector(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transformVector(d, s); } };
struct T4w { typedef M4 M; typedef V4 V; enum { N = 4 }; static M make() { return g4(); }
	static void one(const M& m, const R* i, R* o) { V4 r = ap(m, mk4(i[0], i[1], i[2], 0)); o[0] = r.x; o[1] = r.y; o[2] = r.z; o[3] = r.w; }
	static void bulk(const M& m, V* d, const V* s, size_t n) { m.transformVector(d, s, n); } static void bulk(const M& m, V* d, const V* s, size_t n, size_t a, size_t b) { m.transformVector(d, s, n, a, b); } static void single(const M& m, V& d, const V& s) { m.transformVector(d, s); } };

// n elements, gd and gs reals between them (gs = -N: all read the same source); the arrays end where the last element ends
template <class T> static void away(int n, int gd, int gs, bool strided) {
	typedef typename T::V V; const int N = T::N, ds = N + gd, ss = N + gs;
	typename T::M m = T::make(); const int LEN = (n + 1) * MAXS; Buf d(LEN), s(LEN), d0(LEN), s0(LEN);
	const int ld = n ? (n - 1) * ds + N : 0, ls = n ? (n - 1) * ss + N : 0;
	R* pd = d + LEN - ld; R* ps = s + LEN - ls;
	for (int i = 0; i < LEN; ++i) { d[i] = d0[i] = any(); s[i] = s0[i] = i >= LEN - ls ? any() : R(0); }
	if (strided) T::bulk(m, (V*)pd, (const V*)ps, n, ds * sizeof(R), ss * sizeof(R)); else T::bulk(m, (V*)pd, (const V*)ps, n);
	Buf want(LEN); for (int i = 0; i < LEN; ++i) want[i] = d0[i];
	for (int k = 0; k < n; ++k) T::one(m, s0 + LEN - ls + k * ss, want + LEN - ld + k * ds);
	for (int i = 0; i < LEN; ++i) { eq(d[i], want[i], "destination"); eq(s[i], s0[i], "source unchanged"); }
}
template <class T> static void inplace(int n, int g, bool strided) {
	typedef typename T::V V; const int N = T::N, st = N + g;
	typename T::M m = T::make(); const int LEN = (n + 1) * MAXS; Buf d(LEN), d0(LEN);
	const int l = n ? (n - 1) * st + N : 0; R* p = d + LEN - l;
	for (int i = 0; i < LEN; ++i) d[i] = d0[i] = any();
	if (strided) T::bulk(m, (V*)p, (const V*)p, n, st * sizeof(R), st * sizeof(R)); else T::bulk(m, (V*)p, (const V*)p, n);
	Buf want(LEN); for (int i = 0; i < LEN; ++i) want[i] = d0[i];
	for (int k = 0; k < n; ++k) T::one(m, d0 + LEN - l + k * st, want + LEN - l + k * st);
	for (int i = 0; i < LEN; ++i) eq(d[i], want[i], "in place");
}
template <class T> static void one() {
	typename T::M m = T::make(); R d[4], s[4], w[4]; for (int i = 0; i < 4; ++i) d[i] = s[i] = any();
	T::one(m, s, w); typename T::V* p = (typename T::V*)d;
	if (vp_choice(2)) T::single(m, *p, *p); else T::single(m, *p, *(const typename T::V*)s);
	for (int i = 0; i < T::N; ++i) eq(d[i], w[i], "single transform"); for (int i = T::N; i < 4; ++i) eq(d[i], s[i], "beyond the vector");
}
template <class T> static void all(int counts) {
	const int n = vp_choice(counts), what = vp_choice(9), N = T::N;
	switch (what) {
	case 0: away<T>(n, 0, 0, false); break;
	case 1: away<T>(n, 0, 0, true); break;
	case 2: away<T>(n, 1, 0, true); break;
	case 3: away<T>(n, 0, 2, true); break;
	case 4: away<T>(n, 3, 4, true); break;
	case 5: away<T>(n, 1, -N, true); break;
	case 6: inplace<T>(n, 0, false); break;
	case 7: inplace<T>(n, 0, true); break;
	case 8: inplace<T>(n, 3, true); break;
	}
}
H h_m2() { all<T2>(26); }
H h_m3() { all<T3>(26); }
H h_m34() { all<T34>(26); }
H h_m4_points() { all<T4p>(26); }
H h_m4() { all<T4>(26); }
H h_m4_directions() { all<T4d>(26); }
H h_m4_directions4() { all<T4w>(26); }
H h_single() { switch (vp_choice(7)) { case 0: one<T2>(); break; case 1: one<T3>(); break; case 2: one<T34>(); break; case 3: one<T4p>(); break; case 4: one<T4>(); break; case 5: one<T4d>(); break; case 6: one<T4w>(); break; } }
// operators and the single transform agree
H h_operator() {
	PART(5); V3 v = any3(), r; V4 w = any4(), q; V2 u = any2(), p;
	if (part == 0) { M2 m = g2(); m.transform(p, u); eq(m * u, p, "operator ="); } if (part == 1) { M3 m = g3(); m.transform(r, v); eq(m * v, r, "operator"); }
	if (part == 2) { M34 m = g34(); m.transform(r, v); eq(m * v, r, "operator"); } if (part == 3) { M4 m = g4(); m.transform(q, w); eq(m * w, q, "operator"); }
	if (part == 4) { M4 m = g4(); m.transform(r, v); eq(m * v, r, "operator"); }
}
H t_m2_more() { all<T2>(66); }
H t_m3_more() { all<T3>(66); }
H t_m34_more() { all<T34>(66); }
H t_m4_more() { all<T4>(66); }
H t_m4_points_more() { all<T4p>(66); }
H t_m4_directions_more() { all<T4d>(66); }
