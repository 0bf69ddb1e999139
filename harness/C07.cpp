// C07: what a matrix reports about itself is true of its entries, after every operation.
//@ * biglim=8
//@ h_m4_inverse_* deadline=130 cost=9
#include "h.h"

static inline R sq4(const V4& v) { return dot(v, v); }
static inline void truth(const M2& m) {
	const M2::Tolerance& t = M2::DefaultTolerance; bool n = m.isNormal(), o = m.isOrthogonal(), i = m.isIdentity();
	vp_check(!n | (normErr(m) <= t.normal), "reported normal"); vp_check(!o | (orthErr(m) <= t.orthogonal), "reported orthogonal");
	vp_check(!m.isOrthonormal() | (n & o), "reported orthonormal"); vp_check(!i | ((idErr(m) <= t.identity) & n & o), "reported identity");
}
static inline void truth(const M3& m) {
	const M3::Tolerance& t = M3::DefaultTolerance; bool n = m.isNormal(), o = m.isOrthogonal(), i = m.isIdentity();
	vp_check(!n | (normErr(m) <= t.normal), "reported normal"); vp_check(!o | (orthErr(m) <= t.orthogonal), "reported orthogonal");
	vp_check(!m.isOrthonormal() | (n & o), "reported orthonormal"); vp_check(!i | ((idErr(m) <= t.identity) & n & o), "reported identity");
}
static inline void truth(const M34& m) {
	truth(m.rs); vp_check(m.isNormal() == m.rs.isNormal(), "reported normal"); vp_check(m.isOrthogonal() == m.rs.isOrthogonal(), "reported orthogonal");
	vp_check(m.isOrthonormal() == m.rs.isOrthonormal(), "reported orthonormal"); vp_check(!m.isIdentity() | (m.rs.isIdentity() & (m.t.x == 0) & (m.t.y == 0) & (m.t.z == 0)), "reported identity");
}
static inline void truth(const M4& m) {
	const M4::Tolerance& t = M4::DefaultTolerance; bool n = m.isNormal(), o = m.isOrthogonal(), i = m.isIdentity(), s = m.isTrs(), raw = rawTrs(m);
	vp_check(!s | raw, "reported TRS");
	vp_check(!n | (raw & (normErr(m, true) <= t.normal)) | (!raw & (normErr(m, false) <= t.normal)), "reported normal");
	vp_check(!o | (raw & (orthErr(m, true) <= t.orthogonal)) | (!raw & (orthErr(m, false) <= t.orthogonal)), "reported orthogonal");
	vp_check(!m.isOrthonormal() | (n & o), "reported orthonormal"); vp_check(!i | ((idErr(m) <= t.identity) & n & o), "reported identity");
}
// any matrix with truthful classification: all it has, or none of it
static inline void forget(M2& m) { M2 r; r.x = m.x; r.y = m.y; m = r; }
static inline void forget(M3& m) { M3 r; r.x = m.x; r.y = m.y; r.z = m.z; m = r; }
static inline void forget(M34& m) { forget(m.rs); }
static inline void forget(M4& m) { M4 r; r.x = m.x; r.y = m.y; r.z = m.z; r.t = m.t; m = r; }

H h_m2_ops() {
	M2 a = anyM2(), b = anyM2(); V2 v = any2(); R k = any(), s = nonzero(); PART(20);
	if (part & 1) forget(a);
	switch (part / 2) {
	case 0: truth(a); a *= b; truth(a); break;
	case 1: a *= k; truth(a); a /= s; truth(a); break;
	case 2: truth(a * b); truth(-a); break;
	case 3: truth(a * k); truth(a / s); break;
	case 4: truth(a.transposed()); a.transpose(); truth(a); break;
	case 5: truth(a.scaled(v)); a.scale(v); truth(a); break;
	case 6: truth(a.rotated(k)); a.rotate(k); truth(a); break;
	case 7: a.rotatePre(k); truth(a); break;
	case 8: truth(a.cofactors()); truth(a.adjoint()); truth(a.inversed()); break;
	case 9: b.set(a); truth(b); b.set(v, a.x); truth(b); truth(M2(k)); truth(M2::from(v, a.y)); b = M2(); b = a; truth(b); break;
	}
}
H h_m2_make() {
	M2 a; truth(M2::One); truth(M2::Zero); a.setIdentity(); truth(a); R k = any(); a.set(k); truth(a); truth(M2::from(k));
	M2 b = M2::from(k), c = b; c.orthonormalise(); truth(c); R w = any(); M2 d = M2::from(w); PART(3);
	if (part == 0) { truth(b * d); truth(b.rotated(w)); } if (part == 1) { d *= b; truth(d); truth(b.inversed()); } if (part == 2) truth(-b);
}
H h_m2_orthonormalise() { M2 a = anyM2(); a.orthonormalise(); truth(a); }

H h_m3_ops() {
	M3 a = anyM3(), b = anyM3(); V3 v = any3(); R k = any(), s = nonzero(); PART(22);
	if (part & 1) forget(a);
	switch (part / 2) {
	case 0: truth(a); a *= b; truth(a); break;
	case 1: a *= k; truth(a); break;
	case 2: truth(a * b); truth(-a); break;
	case 3: truth(a * k); truth(a / s); break;
	case 4: truth(a.transposed()); a.transpose(); truth(a); break;
	case 5: truth(a.scaled(v)); a.scale(v); truth(a); break;
	case 6: a.rotate(b); truth(a); break;
	case 7: a.rotatePre(b); truth(a); break;
	case 8: truth(a.rotated(b)); truth(a.rotatedPre(b)); break;
	case 9: b.set(a); truth(b); b.set(v, a.x, a.y); truth(b); truth(M3(k)); truth(M3::from(v, a.y, a.z)); b = M3(); b = a; truth(b); break;
	case 10: a /= s; truth(a); break;
	}
}
H h_m3_rotate() {
	M3 a = anyM3(); R t = any(); const int k = vp_choice(3); PART(5); if (part & 1) forget(a);
	if (part == 0) { a.rotate(coord(k), t); truth(a); } if (part == 1) { a.rotatePre(coord(k), t); truth(a); } if (part == 2) truth(a.rotated(coord(k), t)); if (part == 3) truth(a.rotatedPre(coord(k), t));
	if (part == 4) { truth(M3::from(coord(k), t)); M3 b; b.set(coord(k), t); truth(b); }
}
H h_m3_rotate_by() {
	M3 a = anyM3(); R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false); PART(4); if (part & 1) forget(a);
	if (part == 0) { a.rotate(q); truth(a); } if (part == 1) { a.rotatePre(q); truth(a); } if (part == 2) truth(a.rotated(q)); if (part == 3) truth(a.rotatedPre(q));
}
H h_m3_rotate_axis() {
	M3 a = anyM3(); V3 u = unit3(); R t = any(); PART(5); if (part & 1) forget(a);
	if (part == 0) { a.rotate(u, t); truth(a); } if (part == 1) { a.rotatePre(u, t); truth(a); } if (part == 2) truth(a.rotated(u, t)); if (part == 3) truth(a.rotatedPre(u, t));
	if (part == 4) truth(M3::from(u, t));
}
H h_m3_inverse() {
	M3 a = anyM3(); PART(6); if (part & 1) forget(a);
	if (part / 2 == 0) truth(a.inversed()); if (part / 2 == 1) { a.invert(); truth(a); } if (part / 2 == 2) { truth(a.adjoint()); truth(a.cofactors()); }
}
H h_m3_make() {
	M3 a; truth(M3::One); truth(M3::Zero); a.setIdentity(); truth(a); R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false); truth(M3::from(q)); a.set(q); truth(a);
	a.transpose(); truth(a); truth(a.inversed()); a.invert(); truth(a); truth(-a);
}
// a quaternion need not be of length one
H h_m3_quat() {
	R p[4]; for (int i = 0; i < 4; ++i) p[i] = any(); Q q(p[0], p[1], p[2], p[3], false); M3 m = M3::from(q); truth(m); M4 n = M4::from(q); truth(n);
}
H h_m3_frame() {
	V3 e = any3(), v = any3(); const int i = vp_choice(3), j = vp_choice(3); vp_assume(i != j);
	truth(M3::from(coord(i), e, coord(j), v));
}
H h_m3_orthonormalise() { V3 x, y, z; rotCols(x, y, z); M3 a(x, y, z); a.orthonormalise(); truth(a); }

static void m34_ops(const int part) {
	M34 a = anyM34(), b = anyM34(); M3 c = anyM3(); V3 v = any3(), w = any3();
	if (part & 1) forget(a);
	switch (part / 2) {
	case 0: truth(a); a *= b; truth(a); break;
	case 1: a *= c; truth(a); break;
	case 2: truth(a * b); break;
	case 3: truth(a * c); truth(-a); break;
	case 4: a.transpose(); truth(a); break;
	case 5: a.scale(v); truth(a); break;
	case 6: a.scalePre(v); truth(a); break;
	case 7: a.transform(b); truth(a); break;
	case 8: a.transform(c); truth(a); break;
	case 9: a.transformPre(b); truth(a); break;
	case 10: a.transformPre(c); truth(a); break;
	case 11: a.translate(v); truth(a); a.translatePre(w); truth(a); break;
	case 12: switch (vp_choice(6)) { case 0: b.set(a); truth(b); break; case 1: b.set(v, a.rs.x, a.rs.y, w); truth(b); break; case 2: b.set(c, w); truth(b); break; case 3: truth(M34(v.x)); break; case 4: b = M34(); b = a; truth(b); break; case 5: truth(M34::from(v, w, a.rs.x, a.t)); } break;
	}
}
H h_m34_ops_a() { m34_ops(0 + vp_choice(13)); }
H h_m34_ops_b() { m34_ops(13 + vp_choice(13)); }
H h_m34_rotate() {
	M34 a = anyM34(); R t = any(); V3 v = any3(); const int k = vp_choice(3); PART(3);
	if (part == 0) { a.rotate(coord(k), t); truth(a); } if (part == 1) { a.rotatePre(coord(k), t); truth(a); } if (part == 2) truth(M34::from(coord(k), t, v));
}
H h_m34_rotate_by() {
	M34 a = anyM34(); R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false); V3 v = any3(); PART(3);
	if (part == 0) { a.rotate(q); truth(a); } if (part == 1) { a.rotatePre(q); truth(a); } if (part == 2) truth(M34::from(q, v));
}
H h_m34_rotate_axis() {
	M34 a = anyM34(); V3 u = unit3(), v = any3(); R t = any(); PART(3);
	if (part == 0) { a.rotate(u, t); truth(a); } if (part == 1) { a.rotatePre(u, t); truth(a); } if (part == 2) truth(M34::from(u, t, v));
}
H h_m34_invert() { M34 a = anyM34(); PART(2); if (part) forget(a); a.invert(); truth(a); truth(M34::One); truth(M34::Zero); a.setIdentity(); truth(a); }

static void m4_ops(const int part) {
	const int trs = vp_choice(2); M4 a = trs ? anyTrs() : anyM4(); V3 v = any3(), w = any3(); R k = any(), s = nonzero();
	if (part & 1) forget(a);
	switch (part / 2) {
	case 0: truth(a); a *= k; truth(a); break;
	case 1: a /= s; truth(a); break;
	case 2: truth(a * k); break;
	case 3: truth(a / s); truth(-a); break;
	case 4: truth(a.transposed()); a.transpose(); truth(a); break;
	case 5: truth(a.scaled(v)); a.scale(v); truth(a); break;
	case 6: truth(a.scaledPre(v)); a.scalePre(v); truth(a); break;
	case 7: truth(a.translated(v)); a.translate(w); truth(a); break;
	case 8: truth(a.translatedPre(v)); a.translatePre(w); truth(a); break;
	case 9: { M4 b; b.set(a); truth(b); b = M4(); b = a; truth(b); } break;
	case 10: { M4 b; b.set(v, w, v, w); truth(b); truth(M4(k)); truth(M4::from(v, w, w, v)); truth(M4(v, w, v, w)); } break;
	case 11: { M4 b; V4 x = any4(); b.set(a.y, a.x, x, a.t); truth(b); truth(M4::from(a.x, x, a.z, a.t)); } break;
	}
}
H h_m4_ops_a() { m4_ops(0 + vp_choice(6)); }
H h_m4_ops_b() { m4_ops(6 + vp_choice(6)); }
H h_m4_ops_c() { m4_ops(12 + vp_choice(6)); }
H h_m4_ops_d() { m4_ops(18 + vp_choice(6)); }
static void m4_product(const int part) {
	const int trs = vp_choice(4); M4 a = trs & 1 ? anyTrs() : anyM4(), b = trs & 2 ? anyTrs() : anyM4();
	if (part & 1) forget(a);
	switch (part / 2) {
	case 0: truth(a * b); break;
	case 1: truth(a.transformed(b)); break;
	case 2: a.transform(b); truth(a); break;
	case 3: a.transformPre(b); truth(a); break;
	case 4: truth(a.transformedPre(b)); break;
	}
}
H h_m4_product_a() { m4_product(0 + vp_choice(2)); }
H h_m4_product_b() { m4_product(2 + vp_choice(2)); }
H h_m4_product_c() { m4_product(4 + vp_choice(2)); }
H h_m4_product_d() { m4_product(6 + vp_choice(2)); }
H h_m4_product_e() { m4_product(8 + vp_choice(2)); }
H h_m4_rotate() {
	const int k = vp_choice(3), trs = vp_choice(2); PART(5); M4 a = trs ? anyTrs() : anyM4(); R t = any();
	if (part == 0) { a.rotate(coord(k), t); truth(a); } if (part == 1) { a.rotatePre(coord(k), t); truth(a); } if (part == 2) truth(a.rotated(coord(k), t)); if (part == 3) truth(a.rotatedPre(coord(k), t));
	if (part == 4) { truth(M4::from(coord(k), t)); M4 b; b.set(coord(k), t); truth(b); }
}
H h_m4_rotate_by() {
	const int trs = vp_choice(2); PART(5); M4 a = trs ? anyTrs() : anyM4(); R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false); V3 v = any3();
	if (part == 0) { a.rotate(q); truth(a); } if (part == 1) { a.rotatePre(q); truth(a); } if (part == 2) truth(a.rotated(q)); if (part == 3) truth(a.rotatedPre(q));
	if (part == 4) truth(M4::from(q, v));
}
H h_m4_rotate_axis() {
	const int trs = vp_choice(2); PART(5); M4 a = trs ? anyTrs() : anyM4(); V3 u = unit3(); R t = any();
	if (part == 0) { a.rotate(u, t); truth(a); } if (part == 1) { a.rotatePre(u, t); truth(a); } if (part == 2) truth(a.rotated(u, t)); if (part == 3) truth(a.rotatedPre(u, t));
	if (part == 4) truth(M4::from(u, t));
}
static void m4_inverse(const int part) { M4 a = anyM4(); vp_assume(!rawTrs(a)); if (part) { a.invert(); truth(a); } else truth(a.inversed()); }
H h_m4_inverse_a() { m4_inverse(0 + vp_choice(1)); }
H h_m4_inverse_b() { m4_inverse(1 + vp_choice(1)); }
H h_m4_inverse_trs() { PART(4); M4 a = anyTrs(); if (part & 1) forget(a); if (part & 2) { a.invert(); truth(a); } else truth(a.inversed()); }
H h_m4_make() {
	M4 a; truth(M4::One); truth(M4::Zero); a.setIdentity(); truth(a); V3 x, y, z; rotCols(x, y, z); a = M4(x, y, z); truth(a); a.orthonormalise(); truth(a);
	truth(a.transposed()); truth(a.inversed()); a.transpose(); truth(a);
}
H h_m4_frame() {
	V3 e = any3(), v = any3(); const int i = vp_choice(3), j = vp_choice(3); vp_assume(i != j);
	truth(M4::from(coord(i), e, coord(j), v));
}

// two-step histories: the second step gives what the entries alone demand
static inline bool loose(const M3& m) { return (normErr(m) > M3::DefaultTolerance.normal) | (orthErr(m) > M3::DefaultTolerance.orthogonal); }
static inline R det(const M3& m) { return dot(m.x, crs(m.y, m.z)); }
static inline void one(const M3& m, const char* l) { eq3(m.x, 1, 0, 0, l); eq3(m.y, 0, 1, 0, l); eq3(m.z, 0, 0, 1, l); }
static inline M3 prod(const M3& a, const M3& b) { M3 r; r.x = ap(a, b.x); r.y = ap(a, b.y); r.z = ap(a, b.z); return r; }
// a first step from identity, rotation, scaling or shear to something else
static inline M3 stepped(const int from) {
	M3 m; const int to = vp_choice(6); R h = any(), a = any(), b = any(), c = any();
	if (from == 0) m = M3::One; if (from == 1) m = M3::from(Coord::Z, h); if (from == 2) m = M3(mk3(a, 0, 0), mk3(0, b, 0), mk3(0, 0, c)); if (from == 3) m = M3(mk3(1, 0, 0), mk3(h, 1, 0), mk3(0, 0, 1));
	R k = any();
	if (to == 0) m.scale(mk3(k, 1, 1)); if (to == 1) m.rotate(Coord::X, k); if (to == 2) m.transpose(); if (to == 3) m *= M3(mk3(1, 0, 0), mk3(0, 1, 0), mk3(0, k, 1)); if (to == 4) m *= k; if (to == 5) m = m.inversed();
	return m;
}
static void m3_history_inverse(const int from) { M3 m = stepped(from); vp_assume(loose(m) && det(m) != 0); M3 i = m; PART(2); if (part) i.invert(); else i = m.inversed(); one(prod(i, m), "inverse after another operation"); }
static void m3_history_product(const int from) {
	M3 m = stepped(from); vp_assume(idErr(m) > M3::DefaultTolerance.identity); M3 b = anyM3(); NI(b); PART(4);
	if (part == 0) isProd(m * b, m, b, "product after another operation"); if (part == 1) isProd(b * m, b, m, "product after another operation");
	if (part == 2) { M3 r = b; r.rotate(m); isProd(r, m, b, "rotate after another operation"); } if (part == 3) { M3 r = m; r.rotate(b); isProd(r, b, m, "rotate after another operation"); }
}
static inline M4 stepped4(const int from) {
	M4 m; const int to = vp_choice(8); R h = any(), a = any(), b = any(), c = any(); V3 t = any3();
	if (from == 0) m = M4::One; if (from == 1) m = M4::from(Coord::Z, h); if (from == 2) m = M4(mk3(a, 0, 0), mk3(0, b, 0), mk3(0, 0, c), t); if (from == 3) m = M4(mk3(1, 0, 0), mk3(h, 1, 0), mk3(0, 0, 1), t);
	R k = any();
	if (to == 0) m.scale(mk3(k, 1, 1)); if (to == 1) m.rotate(Coord::X, k); if (to == 2) m.transpose(); if (to == 3) m *= k; if (to == 4) m.translate(t); if (to == 5) m.scalePre(mk3(1, 1, k)); if (to == 6) m.translatePre(t); if (to == 7) m.rotatePre(Coord::Y, k);
	return m;
}
static inline M4 prod(const M4& a, const M4& b) { M4 r; r.x = ap(a, b.x); r.y = ap(a, b.y); r.z = ap(a, b.z); r.t = ap(a, b.t); return r; }
static inline void one(const M4& m, const char* l) { eq4(m.x, 1, 0, 0, 0, l); eq4(m.y, 0, 1, 0, 0, l); eq4(m.z, 0, 0, 1, 0, l); eq4(m.t, 0, 0, 0, 1, l); }
static void m4_history_inverse(const int from) {
	M4 m = stepped4(from); M3 l(xyz(m.x), xyz(m.y), xyz(m.z)); R w = m.determinant(); vp_assume(w != 0 && (!rawTrs(m) | loose(l)));
	M4 i = m; PART(2); if (part) i.invert(); else i = m.inversed(); one(prod(i, m), "inverse after another operation");
}
static void m4_history_product(const int from) {
	M4 m = stepped4(from); vp_assume(idErr(m) > M4::DefaultTolerance.identity); M4 b = anyTrs(); NI(b); PART(4);
	if (part == 0) isProd(m * b, m, b, "product after another operation"); if (part == 1) isProd(b * m, b, m, "product after another operation");
	if (part == 2) { M4 r = b; r.transform(m); isProd(r, m, b, "transform after another operation"); } if (part == 3) { M4 r = m; r.transform(b); isProd(r, b, m, "transform after another operation"); }
}
H t_m3_history_inverse_one() { m3_history_inverse(0); }
H h_m3_history_inverse_rot() { m3_history_inverse(1); }
H t_m3_history_inverse_diag() { m3_history_inverse(2); }
H h_m3_history_inverse_shear() { m3_history_inverse(3); }
H t_m3_history_product_one() { m3_history_product(0); }
H h_m3_history_product_rot() { m3_history_product(1); }
H t_m3_history_product_diag() { m3_history_product(2); }
H h_m3_history_product_shear() { m3_history_product(3); }
H t_m4_history_inverse_one() { m4_history_inverse(0); }
H h_m4_history_inverse_rot() { m4_history_inverse(1); }
H t_m4_history_inverse_diag() { m4_history_inverse(2); }
H h_m4_history_inverse_shear() { m4_history_inverse(3); }
H t_m4_history_product_one() { m4_history_product(0); }
H h_m4_history_product_rot() { m4_history_product(1); }
H t_m4_history_product_diag() { m4_history_product(2); }
H t_m4_history_product_shear() { m4_history_product(3); }
// only a default-constructed matrix, until it is classified, counts as uninitialized
#define INIT(e) vp_check((e).isInitialized(), "initialized")
static void init2(const int part) {
	R k = any(), s = nonzero(); V2 u = any2(), v = any2(); M2 a, b; vp_check(!a.isInitialized(), "default"); a.x = u; a.y = v;
	if (part == 0) { a.optimize(); INIT(a); } if (part == 1) { b.set(u, v); INIT(b); } if (part == 2) { INIT(M2(k)); INIT(M2::One); INIT(M2::Zero); b.setIdentity(); INIT(b); }
	 if (part == 3) INIT(M2(u, v));
	if (part == 4) { a.optimize(); INIT(a * k); } if (part == 5) { a.optimize(); INIT(a / s); } if (part == 6) { a.optimize(); INIT(a.transposed()); INIT(-a); a.transpose(); INIT(a); }
}
H h_init2() { init2(vp_choice(7)); }
static void init3(const int part) {
	V3 u = any3(), v = any3(), w = any3(), t = any3(); M3 a, b; M34 c, d; vp_check(!a.isInitialized() && !c.isInitialized(), "default"); a.x = u; a.y = v; a.z = w; c.rs = a; c.t = t;
	if (part == 0) { a.optimize(); INIT(a); a.transpose(); INIT(a); INIT(-a); } if (part == 1) { b.set(u, v, w); INIT(b); } if (part == 2) { INIT(M3(u.x)); INIT(M3::One); INIT(M3::Zero); b.setIdentity(); INIT(b); }
	if (part == 3) { d.set(u, v, w, t); INIT(d); d.transpose(); INIT(d); d.translate(u); INIT(d); } if (part == 4) { INIT(M34(u.x)); INIT(M34::One); INIT(M34::Zero); d.setIdentity(); INIT(d); }
}
H h_init3() { init3(vp_choice(5)); }
static void init4(const int part) {
	V3 u = any3(), v = any3(), w = any3(), t = any3(); M4 a, b; vp_check(!a.isInitialized(), "default"); a.x = mk4(u.x, u.y, u.z, t.x); a.y = mk4(v.x, v.y, v.z, t.y); a.z = mk4(w.x, w.y, w.z, t.z); a.t = mk4(t.x, t.y, t.z, t.x);
	if (part == 0) { a.optimize(); INIT(a); a.transpose(); INIT(a); INIT(-a); } if (part == 1) { b.set(u, v, w, t); INIT(b); b.translate(u); INIT(b); } if (part == 2) { INIT(M4(u.x)); INIT(M4::One); INIT(M4::Zero); b.setIdentity(); INIT(b); }
}
H h_init4() { init4(vp_choice(3)); }
