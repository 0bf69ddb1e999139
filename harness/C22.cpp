// C22: linear solvers.
#include "h.h"
// bound: tri-diagonal n = 1..5 (vector right-hand side 1..4), cyclic n = 1..4, Gauss-Jordan n = 1, 2 with every entry free, n = 3 (and 4: sparse) with some entries fixed
// bound: larger systems (tri-diagonal and cyclic up to n = 24, Gauss-Jordan up to n = 9) with fixed coefficients and every right-hand side
typedef TriDiagonal<R> T;
typedef GaussJordan<R> G;

struct Tri {
	R a[6], b[6], c[6], a0[6], b0[6], c0[6]; int n;
	Tri(int n_) : n(n_) {
		for (int i = 0; i < n; ++i) { b0[i] = b[i] = any(); if (i < n - 1) { a0[i] = a[i] = any(); c0[i] = c[i] = any(); } }
	}
	void unchanged() {
		bool s = true;
		for (int i = 0; i < n; ++i) { s = s & (b0[i] == b[i]); if (i < n - 1) s = s & (a0[i] == a[i]) & (c0[i] == c[i]); }
		vp_check(s, "coefficients unchanged");
	}
	// every leading principal minor non-zero
	bool pivots() {
		R d = b[0], e = 1; bool ok = d != 0;
		for (int i = 1; i < n; ++i) { R f = b[i] * d - a[i - 1] * c[i - 1] * e; e = d; d = f; ok = ok & (d != 0); }
		return ok;
	}
	template <class V> V row(const V* u, int i, V s) {
		s = s + u[i] * b[i];
		if (i > 0) s = s + u[i - 1] * a[i - 1];
		if (i < n - 1) s = s + u[i + 1] * c[i];
		return s;
	}
};
inline R zero(R*) { return 0; }
inline V3 zero(V3*) { return mk3(0, 0, 0); }
inline R anyr(R*) { return any(); }
inline V3 anyr(V3*) { return any3(); }
template <class V> void tri(int n, bool inPlace) {
	Tri m(n); V r[6], r0[6], u[6];
	for (int i = 0; i < n; ++i) { r0[i] = r[i] = anyr((V*)0); u[i] = zero((V*)0); }
	bool p = m.pivots();
	bool ok = T::solve(m.a, m.b, m.c, r, inPlace ? r : u, n);
	m.unchanged();
	vp_check(ok == p, "solved exactly when the pivots are non-zero");
	if (!inPlace) for (int i = 0; i < n; ++i) eq(r[i], r0[i], "right-hand side unchanged");
	if (ok) { const V* x = inPlace ? r : u; for (int i = 0; i < n; ++i) eq(m.row(x, i, zero((V*)0)), r0[i], "equation satisfied"); }
}
H h_tri1() { tri<R>(1, false); tri<R>(1, true); tri<V3>(1, false); }
H h_tri2() { PART(2); tri<R>(2, part); }
H h_tri3() { PART(2); tri<R>(3, part); }
H h_tri4() { tri<R>(4, false); }
H h_tri5() { tri<R>(5, false); }
H h_tri4InPlace() { tri<R>(4, true); }
H h_vec2() { PART(2); tri<V3>(2, part); }
H h_vec3() { PART(2); tri<V3>(3, part); }
H h_vec4() { tri<V3>(4, false); }

// alpha is the corner entry of the last row, beta that of the first
struct Cyc : Tri {
	R al, be;
	Cyc(int n_) : Tri(n_) { al = any(); be = any(); }
	R crow(const R* u, int i) { R s = row(u, i, R(0)); if (i == 0) s += be * u[n - 1]; if (i == n - 1) s += al * u[0]; return s; }
	R det3() { return b[0] * (b[1] * b[2] - c[1] * a[1]) - c[0] * (a[0] * b[2] - c[1] * al) + be * (a[0] * a[1] - b[1] * al); }
	R at(int i, int j) { return i == j ? b[i] : j == i + 1 ? c[i] : i == j + 1 ? a[j] : i == 0 && j == n - 1 ? be : i == n - 1 && j == 0 ? al : R(0); }
	R minor3(int j) { // 4x4 without row 0 and column j
		int k[3], q = 0; for (int i = 0; i < 4; ++i) if (i != j) k[q++] = i;
		return at(1, k[0]) * (at(2, k[1]) * at(3, k[2]) - at(2, k[2]) * at(3, k[1])) - at(1, k[1]) * (at(2, k[0]) * at(3, k[2]) - at(2, k[2]) * at(3, k[0]))
			+ at(1, k[2]) * (at(2, k[0]) * at(3, k[1]) - at(2, k[1]) * at(3, k[0]));
	}
	R det4() { return at(0, 0) * minor3(0) - at(0, 1) * minor3(1) + at(0, 2) * minor3(2) - at(0, 3) * minor3(3); }
};
void cyclic(int n, bool inPlace) {
	Cyc m(n); R r[6], r0[6], x[6];
	for (int i = 0; i < n; ++i) { r0[i] = r[i] = any(); x[i] = 0; }
	bool ok = T::solveCyclic(m.a, m.b, m.c, m.al, m.be, r, inPlace ? r : x, n);
	m.unchanged();
	if (!inPlace) for (int i = 0; i < n; ++i) eq(r[i], r0[i], "right-hand side unchanged");
	if (ok) {
		vp_check((n == 3 ? m.det3() : m.det4()) != 0, "a singular cyclic system is not solved");
		const R* u = inPlace ? r : x; for (int i = 0; i < n; ++i) eq(m.crow(u, i), r0[i], "cyclic equation satisfied");
	}
}
H h_cyclic3() { cyclic(3, false); }
H h_cyclic3InPlace() { cyclic(3, true); }
H h_cyclic4() { cyclic(4, false); }
H h_cyclicSmall() {
	R a[2] = { any(), any() }, b[2] = { any(), any() }, c[2] = { any(), any() }, r[2] = { any(), any() }, x[2] = { 0, 0 };
	vp_check(!T::solveCyclic(a, b, c, any(), any(), r, x, 1) && !T::solveCyclic(a, b, c, any(), any(), r, x, 2), "no cyclic system below three unknowns");
}
// a strictly diagonally dominant system is solved
H h_cyclicDominant() {
	Cyc m(3); R r[3] = { any(), any(), any() }, x[3];
	R* p[6] = { &m.a[0], &m.a[1], &m.c[0], &m.c[1], &m.al, &m.be };
	PART(8);
	// every entry off the diagonal at most 0.4 of its row's diagonal entry, which is one up to scaling the row
	for (int i = 0; i < 6; ++i) *p[i] = vp_range(-0.4, 0.4);
	for (int i = 0; i < 3; ++i) m.b[i] = part >> i & 1 ? -1 : 1;
	vp_check(T::solveCyclic(m.a, m.b, m.c, m.al, m.be, r, x, 3), "diagonally dominant cyclic system is solved");
}

inline R det2(const R* a) { return a[0] * a[3] - a[1] * a[2]; }
inline R det3(const R* a) { return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); }
void gaussCheck(const R* a0, R* a, int n, const R* b0, const R* b, int m, bool ok, R det) {
	vp_check(ok == (det != 0), "solved exactly when regular");
	if (!ok) return;
	for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) {
		R s = 0; for (int j = 0; j < n; ++j) s += a0[i * n + j] * b[j * m + k];
		eq(s, b0[i * m + k], "equation satisfied");
	}
	for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) {
		R s = 0; for (int j = 0; j < n; ++j) s += a0[i * n + j] * a[j * n + k];
		eq(s, i == k, "matrix replaced by its inverse");
	}
}
void gauss(const R* a0, int n, int m, R det) {
	R a[16], b[12], b0[12];
	for (int i = 0; i < n * n; ++i) a[i] = a0[i];
	for (int i = 0; i < n * m; ++i) b0[i] = b[i] = any();
	gaussCheck(a0, a, n, b0, b, m, G::solve(a, n, b, m), det);
}
H h_gauss1() { R a[1] = { any() }; PART(3); gauss(a, 1, part, a[0]); }
H h_gauss2() { R a[4] = { any(), any(), any(), any() }; gauss(a, 2, 1, det2(a)); }
H h_gauss2many() { R a[4] = { any(), any(), any(), any() }; PART(2); gauss(a, 2, part ? 2 : 0, det2(a)); }
H h_gauss2v2() {
	R a[4], a0[4], b0[4]; V2 b[2];
	for (int i = 0; i < 4; ++i) a[i] = a0[i] = any();
	for (int i = 0; i < 2; ++i) { b[i] = any2(); b0[2 * i] = b[i].x; b0[2 * i + 1] = b[i].y; }
	bool ok = G::solve(a, 2, b);
	gaussCheck(a0, a, 2, b0, &b->x, 2, ok, det2(a0));
}
H h_gauss2v3() {
	R a[4], a0[4], b0[6]; V3 b[2];
	for (int i = 0; i < 4; ++i) a[i] = a0[i] = any();
	for (int i = 0; i < 2; ++i) { b[i] = any3(); b0[3 * i] = b[i].x; b0[3 * i + 1] = b[i].y; b0[3 * i + 2] = b[i].z; }
	bool ok = G::solve(a, 2, b);
	gaussCheck(a0, a, 2, b0, &b->x, 3, ok, det2(a0));
}
// three unknowns: a permuted scaling, a column or a row of free entries in an otherwise fixed matrix
H h_gauss3perm() {
	static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	PART(6);
	R a[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 0 };
	for (int i = 0; i < 3; ++i) a[i * 3 + P[part][i]] = any();
	gauss(a, 3, 1, det3(a));
}
void gauss3pair(int i, int j) {
	R a[9] = { 1, 2, -3, 4, 1, 2, -2, 3, 5 };
	a[i] = any(); a[j] = any();
	gauss(a, 3, 1, det3(a));
}
H h_gauss3pair04() { gauss3pair(0, 4); }
H h_gauss3pair12() { gauss3pair(1, 2); }
H h_gauss3pair26() { gauss3pair(2, 6); }
H h_gauss3pair38() { gauss3pair(3, 8); }
H h_gauss3pair57() { gauss3pair(5, 7); }
void gauss3line(int part) {
	R a[9] = { 1, 2, -3, 4, 1, 2, -2, 3, 5 };
	for (int i = 0; i < 3; ++i) a[part < 3 ? part * 3 + i : i * 3 + part - 3] = any();
	gauss(a, 3, 1, det3(a));
}
//@ t_gauss3 tdeadline=400
H t_gauss3row0() { gauss3line(0); }
H t_gauss3row1() { gauss3line(1); }
H t_gauss3row2() { gauss3line(2); }
H t_gauss3col0() { gauss3line(3); }
H t_gauss3col1() { gauss3line(4); }
H t_gauss3col2() { gauss3line(5); }
H h_gauss4perm() {
	static const int P[5][4] = { { 1, 2, 3, 0 }, { 3, 2, 1, 0 }, { 2, 3, 0, 1 }, { 0, 2, 1, 3 }, { 2, 0, 3, 1 } };
	PART(5);
	R a[16], d = part == 0 ? -1 : part == 3 ? -1 : part == 4 ? -1 : 1; for (int i = 0; i < 16; ++i) a[i] = 0;
	for (int i = 0; i < 4; ++i) { R k = i < 2 ? any() : R(i); d *= k; a[i * 4 + P[part][i]] = k; }
	gauss(a, 4, 1, d);
}
H h_gauss3sing() { // the third row is a combination of the other two
	R a[9] = { 1, 2, -3, 4, 1, 2, 0, 0, 0 }; R p = any(), q = any();
	for (int i = 0; i < 3; ++i) a[6 + i] = p * a[i] + q * a[3 + i];
	gauss(a, 3, 1, 0);
}
H t_gauss3sym() { R p = any(), q = any(), r = any(), s = any(); R a[9] = { p, q, r, q, s, 1, r, 1, 2 }; gauss(a, 3, 1, det3(a)); }
// larger systems: fixed coefficients (small integers from a fixed sequence), every right-hand side
static int digit(unsigned& s) { s = s * 1103515245u + 12345u; return (int)(s >> 16 & 7u) - 3; }
template <class V> void triLarge(int n, unsigned seed) {
	R a[24], b[24], c[24]; V r[24], r0[24], u[24];
	for (int i = 0; i < n; ++i) { a[i] = digit(seed); c[i] = digit(seed); b[i] = 7 + digit(seed); r0[i] = r[i] = anyr((V*)0); }
	vp_check(T::solve(a, b, c, r, u, n), "a diagonally dominant system is solved");
	for (int i = 0; i < n; ++i) {
		V s = u[i] * b[i];
		if (i > 0) s = s + u[i - 1] * a[i - 1];
		if (i < n - 1) s = s + u[i + 1] * c[i];
		eq(s, r0[i], "equation satisfied"); eq(r[i], r0[i], "right-hand side unchanged");
	}
}
H h_triLarge() { int n = 6 + vp_choice(19); triLarge<R>(n, n); }
H h_triLargeVec() { int n = 5 + vp_choice(20); triLarge<V3>(n, n); }
H h_cyclicLarge() {
	int n = 5 + vp_choice(20); unsigned seed = n; R a[24], b[24], c[24], r[24], x[24];
	for (int i = 0; i < n; ++i) { a[i] = digit(seed); c[i] = digit(seed); b[i] = 7 + digit(seed); r[i] = any(); }
	R al = 2, be = -1; b[0] = 9; b[n - 1] = 8;
	vp_check(T::solveCyclic(a, b, c, al, be, r, x, n), "a diagonally dominant system is solved");
	for (int i = 0; i < n; ++i) {
		R s = x[i] * b[i] + x[(i + n - 1) % n] * (i > 0 ? a[i - 1] : be) + x[(i + 1) % n] * (i < n - 1 ? c[i] : al);
		eq(s, r[i], "cyclic equation satisfied");
	}
}
// rows in a scrambled order, so that pivots are found away from the diagonal
void gaussLarge(int n, int m) {
	unsigned seed = 11 * n; R a0[81], a[81], b[27], b0[27];
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a0[(i * 2 + 1) % n * n + j] = digit(seed) + (i == j ? 3 * n : 0);
	if (n % 2 == 0) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a0[(n - 1 - i) * n + j] = digit(seed) + (i == j ? 3 * n : 0);
	for (int i = 0; i < n * n; ++i) a[i] = a0[i];
	for (int i = 0; i < n * m; ++i) b[i] = b0[i] = any();
	gaussCheck(a0, a, n, b0, b, m, G::solve(a, n, b, m), 1);
}
H h_gaussLarge() { int n = 4 + vp_choice(6); gaussLarge(n, 1); }
H h_gaussLargeMany() { int n = 4 + vp_choice(4); gaussLarge(n, 3); }
// a large singular matrix: one row twice
H h_gaussLargeSingular() {
	int n = 4 + vp_choice(4); unsigned seed = n; R a[64], b[8];
	for (int i = 0; i < n * n; ++i) a[i] = digit(seed);
	for (int j = 0; j < n; ++j) a[(n - 1) * n + j] = a[n + j] * 2;
	for (int i = 0; i < n; ++i) b[i] = any();
	vp_check(!G::solve(a, n, b, 1), "a singular system is not solved");
}
