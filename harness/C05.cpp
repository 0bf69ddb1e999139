// C05: matrix products are compositions of linear maps; scaling, translating, scalar operations; operands aliased.
//@ * biglim=8
#include "h.h"

H h_m2_product() {
	M2 a = anyM2(), b = anyM2(); NI(a); NI(b);
	isProd(a * b, a, b, "row by column"); M2 r; M2::multiply(r, a, b); isProd(r, a, b, "multiply");
	M2 c = a; M2& ret = (c *= b); isProd(c, a, b, "*="); vp_check(&ret == &c, "*= returns the matrix");
	V2 v = any2();
	eq((a * b) * v, a * (b * v), "composition"); eq(a * v, ap(a, v), "matrix times vector");
	eq2(v * a, dot(v, a.x), dot(v, a.y), "vector times matrix"); V2 w = v; w *= a; eq(w, v * a, "vector *= matrix");
	M2 d = anyM2(); NI(d);
	M2 ab = a * b, bd = b * d; NI(ab); NI(bd);
	eq(ab * d, a * bd, "associative");
}
H h_m2_self() {
	M2 a = anyM2(); NI(a); M2 c = a; c *= c; isProd(c, a, a, "*= itself"); isProd(a * a, a, a, "square");
}
H h_m2_identity() {
	M2 a = anyM2(), b = a; NI(a);
	eq(a * M2::One, a, "times one"); eq(M2::One * a, a, "one times"); b *= M2::One; eq(b, a, "*= one"); b = M2::One; b *= a; eq(b, a, "one *=");
	M2 z = a * M2::Zero; isProd(z, a, M2::Zero, "times zero"); isProd(M2::Zero * a, M2::Zero, a, "zero times");
	M2 i; i.setIdentity(); eq(i, M2(R(1)), "setIdentity"); eq(i * a, a, "identity times"); 
	eq2(M2::One.x, 1, 0, "one"); eq2(M2::One.y, 0, 1, "one"); eq2(M2::Zero.x, 0, 0, "zero"); eq2(M2::Zero.y, 0, 0, "zero");
}
// only a matrix classified as identity may be dropped from a product
H h_m2_near() {
	M2 a = nearM2(), b = anyM2(); vp_assume(a.isIdentity());
	M2 r = a * b, s = b * a;
	M2 e, f; e.x = ap(a, b.x); e.y = ap(a, b.y); f.x = ap(b, a.x); f.y = ap(b, a.y);
	vp_check(same(r, b) | same(r, a) | same(r, e), "product with a near identity"); vp_check(same(s, b) | same(s, a) | same(s, f), "product with a near identity");
}
H h_m2_rotate() {
	M2 a = anyM2(); R t = any(); R s = std::sin(t), c = std::cos(t);
	M2 r(mk2(c, s), mk2(-s, c));
	M2 b = a; M2& ret = b.rotate(t); isProd(b, r, a, "rotate: the turn after the matrix"); vp_check(&ret == &b, "rotate returns the matrix");
	b = a; b.rotatePre(t); isProd(b, a, r, "rotatePre: the turn before the matrix"); isProd(a.rotated(t), r, a, "rotated");
}
H h_m2_scalar() {
	M2 a = anyM2(); R k = any(), q = nonzero(); V2 v = any2();
	M2 b = a; b *= k; eq(b.x, mul(a.x, k), "*= k"); eq(b.y, mul(a.y, k), "*= k"); eq(a * k, b, "* k");
	b = a; b /= q; eq(b.x * q, a.x, "/= k"); eq(b.y * q, a.y, "/= k"); eq(a / q, b, "/ k");
	b = -a; eq2(b.x, -a.x.x, -a.x.y, "minus"); eq2(b.y, -a.y.x, -a.y.y, "minus");
	b = a; b.scale(v); eq(b.x, mul(a.x, v.x), "scale: columns"); eq(b.y, mul(a.y, v.y), "scale: columns"); eq(a.scaled(v), b, "scaled = scale");
	M2 e = a; vp_check(e == a && !(e != a), "equality"); vp_check((a == b) == (a.x.x == b.x.x && a.x.y == b.x.y && a.y.x == b.y.x && a.y.y == b.y.y), "equality is entry by entry");
	vp_eq(a.trace(), a.x.x + a.y.y, "trace");
	eq(M2::from(a.x, a.y), a, "from columns"); M2 c; c.set(a.x, a.y); eq(c, a, "set columns"); c.set(b); eq(c, b, "set");
	const R* d = a.data(); vp_eq(d[0], a.x.x, "data"); vp_eq(d[1], a.x.y, "data"); vp_eq(d[2], a.y.x, "data"); vp_eq(d[3], a.y.y, "data");
	eq2(M2(k).x, k, 0, "scalar matrix"); eq2(M2(k).y, 0, k, "scalar matrix");
}

H h_m3_product() {
	M3 a = anyM3(), b = anyM3(); NI(a); NI(b);
	PART(7); M3 c = a, r;
	if (part == 0) { isProd(a * b, a, b, "row by column"); V3 u = any3(); eq((a * b) * u, a * (b * u), "composition"); }
	if (part == 1) { M3::multiply(r, a, b); isProd(r, a, b, "multiply"); }
	if (part == 2) { M3& ret = (c *= b); isProd(c, a, b, "*="); vp_check(&ret == &c, "*= returns the matrix"); }
	if (part == 3) { M3& re2 = c.rotate(b); isProd(c, b, a, "rotate: the new map after the matrix"); vp_check(&re2 == &c, "rotate returns the matrix"); }
	if (part == 4) { c.rotatePre(b); isProd(c, a, b, "rotatePre: the new map before the matrix"); }
	if (part == 5) isProd(a.rotated(b), b, a, "rotated");
	if (part == 6) isProd(a.rotatedPre(b), a, b, "rotatedPre");
	V3 v = any3();
	eq(a * v, ap(a, v), "matrix times vector");
	eq3(v * a, dot(v, a.x), dot(v, a.y), dot(v, a.z), "vector times matrix"); V3 w = v; w *= a; eq(w, v * a, "vector *= matrix");
}
H h_m3_self() {
	M3 a = anyM3(); NI(a); M3 c = a; c *= c; isProd(c, a, a, "*= itself"); isProd(a * a, a, a, "square");
	c = a; c.rotate(c); isProd(c, a, a, "rotate by itself"); c = a; c.rotatePre(c); isProd(c, a, a, "rotatePre by itself");
}
H h_m3_identity() {
	M3 a = anyM3(), b = a, one = M3::One; NI(a);
	eq(a * one, a, "times one"); eq(one * a, a, "one times"); b *= one; eq(b, a, "*= one"); b = one; b *= a; eq(b, a, "one *=");
	b = a; b.rotate(one); eq(b, a, "rotate by one"); b = one; b.rotate(a); eq(b, a, "one rotated");
	b = a; b.rotatePre(one); eq(b, a, "rotatePre by one"); b = one; b.rotatePre(a); eq(b, a, "one rotatePre");
	eq(a.rotated(one), a, "rotated by one"); eq(one.rotated(a), a, "one rotated"); eq(a.rotatedPre(one), a, "rotatedPre by one"); eq(one.rotatedPre(a), a, "one rotatedPre");
	isProd(a * M3::Zero, a, M3::Zero, "times zero"); isProd(M3::Zero * a, M3::Zero, a, "zero times");
	M3 i; i.setIdentity(); eq(i, M3(R(1)), "setIdentity"); eq(i * a, a, "identity times");
	eq3(one.x, 1, 0, 0, "one"); eq3(one.y, 0, 1, 0, "one"); eq3(one.z, 0, 0, 1, "one"); eq3(M3::Zero.x, 0, 0, 0, "zero"); eq3(M3::Zero.y, 0, 0, 0, "zero"); eq3(M3::Zero.z, 0, 0, 0, "zero");
}
H h_m3_near() {
	M3 a = nearM3(), b = anyM3(); vp_assume(a.isIdentity()); PART(4);
	M3 e, f; e.x = ap(a, b.x); e.y = ap(a, b.y); e.z = ap(a, b.z); f.x = ap(b, a.x); f.y = ap(b, a.y); f.z = ap(b, a.z);
	M3 r = part == 0 ? a * b : part == 1 ? b * a : part == 2 ? a.rotated(b) : b.rotated(a);
	if (part == 0) vp_check(same(r, b) | same(r, a) | same(r, e), "product with a near identity");
	if (part == 1) vp_check(same(r, b) | same(r, a) | same(r, f), "product with a near identity");
	if (part == 2) vp_check(same(r, b) | same(r, a) | same(r, f), "rotation of a near identity");
	if (part == 3) vp_check(same(r, b) | same(r, a) | same(r, e), "rotation by a near identity");
}
H h_m3_rotate_coord() {
	M3 a = anyM3(); R t = any(); R s = std::sin(t), c = std::cos(t);
	int k = vp_choice(3);
	V3 e = axis3(k);
	V3 p[3];
	for (int i = 0; i < 3; ++i) { V3 u = axis3(i); p[i] = add(add(mul(u, c), mul(crs(e, u), s)), mul(e, dot(e, u) * (1 - c))); }
	M3 r(p[0], p[1], p[2]);
	M3 b = a; M3& ret = b.rotate(coord(k), t); isProd(b, r, a, "rotate about a coordinate axis"); vp_check(&ret == &b, "rotate returns the matrix");
	b = a; b.rotatePre(coord(k), t); isProd(b, a, r, "rotatePre about a coordinate axis");
	isProd(a.rotated(coord(k), t), r, a, "rotated about a coordinate axis"); isProd(a.rotatedPre(coord(k), t), a, r, "rotatedPre about a coordinate axis");
}
// rotation given as quaternion or axis and angle: like the matrix built from it
H h_m3_rotate_by() {
	M3 a = anyM3(); NI(a);
	R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false);
	M3 r = M3::from(q); NI(r);
	M3 b = a; b.rotate(q); isProd(b, r, a, "rotate by a quaternion"); b = a; b.rotatePre(q); isProd(b, a, r, "rotatePre by a quaternion");
	isProd(a.rotated(q), r, a, "rotated by a quaternion"); isProd(a.rotatedPre(q), a, r, "rotatedPre by a quaternion");
}
H h_m3_rotate_axis() {
	M3 a = anyM3(); NI(a);
	V3 v = unit3(); R t = any();
	M3 m = M3::from(v, t); NI(m);
	M3 b = a; b.rotate(v, t); isProd(b, m, a, "rotate about an axis"); b = a; b.rotatePre(v, t); isProd(b, a, m, "rotatePre about an axis");
	isProd(a.rotated(v, t), m, a, "rotated about an axis"); isProd(a.rotatedPre(v, t), a, m, "rotatedPre about an axis");
}
H h_m3_scalar() {
	M3 a = anyM3(); R k = any(), q = nonzero(); V3 v = any3();
	M3 b = a; b *= k; eq(b.x, mul(a.x, k), "*= k"); eq(b.y, mul(a.y, k), "*= k"); eq(b.z, mul(a.z, k), "*= k"); eq(a * k, b, "* k");
	b = a; b /= q; eq(b.x * q, a.x, "/= k"); eq(b.y * q, a.y, "/= k"); eq(b.z * q, a.z, "/= k"); eq(a / q, b, "/ k");
	b = -a; eq(b.x, mul(a.x, -1), "minus"); eq(b.y, mul(a.y, -1), "minus"); eq(b.z, mul(a.z, -1), "minus");
	b = a; b.scale(v); eq(b.x, mul(a.x, v.x), "scale: columns"); eq(b.y, mul(a.y, v.y), "scale: columns"); eq(b.z, mul(a.z, v.z), "scale: columns"); eq(a.scaled(v), b, "scaled = scale");
	vp_eq(a.trace(), a.x.x + a.y.y + a.z.z, "trace");
	eq(M3::from(a.x, a.y, a.z), a, "from columns"); M3 c; c.set(a.x, a.y, a.z); eq(c, a, "set columns"); c.set(b); eq(c, b, "set");
	const R* d = a.data(); for (int i = 0; i < 9; ++i) vp_eq(d[i], comp(i < 3 ? a.x : i < 6 ? a.y : a.z, i % 3), "data");
	eq3(M3(k).x, k, 0, 0, "scalar matrix"); eq3(M3(k).y, 0, k, 0, "scalar matrix"); eq3(M3(k).z, 0, 0, k, "scalar matrix");
}
H h_m3_equal() {
	M3 a = anyM3(), b = a;
	vp_check(a == b && !(a != b), "equality");
	int k = vp_choice(9); b.data()[k] = a.data()[k] + nonzero();
	vp_check(!(a == b) && a != b, "difference in one entry");
}

H h_m34_product() {
	M34 a = anyM34(), b = anyM34(); NI(a.rs); NI(b.rs);
	PART(9); M34 c = a, r; V3 v = any3();
	if (part == 0) { isProd(a * b, a, b, "row by column"); eq((a * b) * v, a * (b * v), "composition"); eq(a * v, ap(a, v), "matrix times vector"); }
	if (part == 1) { M34::multiply(r, a, b); isProd(r, a, b, "multiply"); }
	if (part == 2) { M34& ret = (c *= b); isProd(c, a, b, "*="); vp_check(&ret == &c, "*= returns the matrix"); }
	if (part == 3) { M34& re2 = c.transform(b); isProd(c, b, a, "transform: the new map after the matrix"); vp_check(&re2 == &c, "transform returns the matrix"); }
	if (part == 4) { c.transformPre(b); isProd(c, a, b, "transformPre: the new map before the matrix"); }
	const M3& m = b.rs; M34 m34(m, mk3(0, 0, 0));
	if (part == 5) isProd(a * m, a, m34, "times Mat3");
	if (part == 6) { c *= m; isProd(c, a, m34, "*= Mat3"); }
	if (part == 7) { c.transform(m); isProd(c, m34, a, "transform by Mat3"); }
	if (part == 8) { c.transformPre(m); isProd(c, a, m34, "transformPre by Mat3"); }
	eq((-a).rs.x, mul(a.rs.x, -1), "minus"); eq((-a).t, mul(a.t, -1), "minus");
}
H h_m34_self() {
	M34 a = anyM34(); NI(a.rs); M34 c = a; c *= c; isProd(c, a, a, "*= itself"); c = a; c.transform(c); isProd(c, a, a, "transform by itself"); c = a; c.transformPre(c); isProd(c, a, a, "transformPre by itself");
	M34 l(a.rs, mk3(0, 0, 0));
	c = a; c.transform(c.rs); isProd(c, l, a, "transform by its own linear part"); c = a; c.transformPre(c.rs); isProd(c, a, l, "transformPre by its own linear part");
	isProd(a * a, a, a, "square");
}
H h_m34_identity() {
	M34 a = anyM34(), b = a, one = M34::One; NI(a.rs);
	eq(a * one, a, "times one"); eq(one * a, a, "one times"); b *= one; eq(b, a, "*= one"); b = one; b *= a; eq(b, a, "one *=");
	b = a; b.transform(one); eq(b, a, "transform by one"); b = one; b.transform(a); eq(b, a, "one transformed");
	M34 i; i.setIdentity(); eq(i, one, "setIdentity"); eq(i.t, mk3(0, 0, 0), "setIdentity");
	eq(M34(R(1)), one, "scalar"); R k = any(); eq(M34(k).rs, M3(k), "scalar"); eq(M34(k).t, mk3(0, 0, 0), "scalar"); eq(M34::Zero.rs, M3(R(0)), "zero"); eq(M34::Zero.t, mk3(0, 0, 0), "zero");
	// pure translations compose by addition
	V3 u = any3(), v = any3(); M34 p(M3::One, u), q(M3::One, v);
	eq((p * q).t, add(u, v), "translations add"); b = p; b *= q; eq(b.t, add(u, v), "translations add"); b = p; b.transform(q); eq(b.t, add(u, v), "translations add");
}
H h_m34_moves() {
	M34 a = anyM34(); V3 v = any3(), u = any3();
	M34 b = a; M34& ret = b.translate(v); eq(b.rs, a.rs, "translate"); eq(b.t, add(a.t, v), "translate: after the matrix"); vp_check(&ret == &b, "translate returns the matrix");
	b = a; b.translatePre(v); eq(ap(b, u), ap(a, add(u, v)), "translatePre: before the matrix");
	b = a; b.scale(v); eq(b.rs.x, mul(a.rs.x, v.x), "scale"); eq(b.rs.y, mul(a.rs.y, v.y), "scale"); eq(b.rs.z, mul(a.rs.z, v.z), "scale"); eq3(b.t, a.t.x * v.x, a.t.y * v.y, a.t.z * v.z, "scale");
	b = a; b.scalePre(v); eq(ap(b, u), ap(a, mk3(u.x * v.x, u.y * v.y, u.z * v.z)), "scalePre: before the matrix");
	b = a; b.translate(b.t); eq(b.t, mul(a.t, 2), "translate by its own translation"); b = a; b.translatePre(b.t); eq(b.t, ap(a, a.t), "translatePre by its own translation");
	M34 c; c.set(a.rs, v); eq(c.rs, a.rs, "set"); eq(c.t, v, "set"); c.set(a.rs.x, a.rs.y, a.rs.z, a.t); eq(c, a, "set columns"); eq(M34::from(a.rs.x, a.rs.y, a.rs.z, a.t), a, "from columns"); c = b; c.set(a); eq(c, a, "set matrix");
	vp_check(a == c && !(a != c), "equality");
	const R* d = a.data(); for (int i = 0; i < 12; ++i) vp_eq(d[i], comp(i < 3 ? a.rs.x : i < 6 ? a.rs.y : i < 9 ? a.rs.z : a.t, i % 3), "data");
	for (int k = 0; k < 3; ++k) { eq(((const M34&)a)[coord(k)], k == 0 ? a.rs.x : k == 1 ? a.rs.y : a.rs.z, "column access"); M34 e = a; e[coord(k)] = v; eq(((const M34&)e)[coord(k)], v, "column access"); }
}
H h_m34_rotate() {
	M34 a = anyM34(); NI(a.rs);
	R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false);
	M34 r(M3::from(q), mk3(0, 0, 0)); NI(r.rs);
	M34 b = a; b.rotate(q); isProd(b, r, a, "rotate by a quaternion"); b = a; b.rotatePre(q); isProd(b, a, r, "rotatePre by a quaternion");
}
H h_m34_rotate_axis() {
	M34 a = anyM34(); NI(a.rs); V3 z = mk3(0, 0, 0);
	V3 v = unit3(); R t = any();
	M34 m(M3::from(v, t), z); NI(m.rs);
	M34 b = a; b.rotate(v, t); isProd(b, m, a, "rotate about an axis"); b = a; b.rotatePre(v, t); isProd(b, a, m, "rotatePre about an axis");
}
H h_m34_rotate_coord() {
	M34 a = anyM34(); NI(a.rs); V3 z = mk3(0, 0, 0); R t = any();
	for (int k = 0; k < 3; ++k) {
		M34 n(M3::from(coord(k), t), z); NI(n.rs);
		M34 b = a; b.rotate(coord(k), t); isProd(b, n, a, "rotate about a coordinate axis"); b = a; b.rotatePre(coord(k), t); isProd(b, a, n, "rotatePre about a coordinate axis");
	}
}
H h_m34_near() {
	M3 ar = nearM3(); V3 at = any3(); M34 a(ar, at), b = anyM34(); vp_assume(a.rs.isIdentity());
	M34 r = a * b, s = b * a;
	V3 rt = ap(a, b.t), st = ap(b, a.t);
	eq(r.t, rt, "translation of a product with a near identity"); eq(s.t, st, "translation of a product with a near identity");
	M34 c = a; c *= b; eq(c.t, rt, "translation of *="); c = b; c *= a; eq(c.t, st, "translation of *=");
	c = a; c.transform(b); eq(c.t, st, "translation of transform"); c = b; c.transform(a); eq(c.t, rt, "translation of transform");
}

static inline void m4_product(const M4& a, const M4& b) {
	PART(6); M4 c = a;
	if (part == 0) isProd(a * b, a, b, "row by column");
	if (part == 1) { M4 r; M4::multiply(r, a, b); isProd(r, a, b, "multiply"); }
	if (part == 2) { M4& re2 = c.transform(b); isProd(c, b, a, "transform: the new map after the matrix"); vp_check(&re2 == &c, "transform returns the matrix"); }
	if (part == 3) { c.transformPre(b); isProd(c, a, b, "transformPre: the new map before the matrix"); }
	if (part == 4) isProd(a.transformed(b), b, a, "transformed");
	if (part == 5) isProd(a.transformedPre(b), a, b, "transformedPre");
	V4 v = any4(); if (part == 0) eq((a * b) * v, a * (b * v), "composition"); eq(a * v, ap(a, v), "matrix times vector");
	V3 u = any3(); V4 w = ap(a, mk4(u.x, u.y, u.z, 1)); eq3(a * u, w.x, w.y, w.z, "matrix times point");
	V3 d; a.transformVector(d, u); w = ap(a, mk4(u.x, u.y, u.z, 0)); eq3(d, w.x, w.y, w.z, "transformVector");
}
H h_m4_product() { M4 a = anyM4(), b = anyM4(); NI(a); NI(b); m4_product(a, b); }
H h_m4_product_trs() { M4 a = anyTrs(), b = anyTrs(); NI(a); NI(b); m4_product(a, b); }
H h_m4_points() { M4 a = anyTrs(), b = anyTrs(); NI(a); NI(b); V3 u = any3(); eq((a * b) * u, a * (b * u), "composition on points"); }
H h_m4_product_mixed() { M4 a = anyTrs(), b = anyM4(); NI(a); NI(b); if (vp_choice(2)) m4_product(a, b); else m4_product(b, a); }
H h_m4_self() {
	M4 a = anyM4(); NI(a); M4 c = a; c.transform(c); isProd(c, a, a, "transform by itself"); c = a; c.transformPre(c); isProd(c, a, a, "transformPre by itself"); isProd(a * a, a, a, "square");
}
H h_m4_identity() {
	M4 a = anyM4(), b = a, one = M4::One; NI(a);
	eq(a * one, a, "times one"); eq(one * a, a, "one times");
	b.transform(one); eq(b, a, "transform by one"); b = one; b.transform(a); eq(b, a, "one transformed"); b = a; b.transformPre(one); eq(b, a, "transformPre by one"); b = one; b.transformPre(a); eq(b, a, "one transformPre");
	eq(a.transformed(one), a, "transformed by one"); eq(one.transformed(a), a, "one transformed"); eq(a.transformedPre(one), a, "transformedPre by one"); eq(one.transformedPre(a), a, "one transformedPre");
	M4 i; i.setIdentity(); eq(i, one, "setIdentity"); eq4(i.x, 1, 0, 0, 0, "one"); eq4(i.y, 0, 1, 0, 0, "one"); eq4(i.z, 0, 0, 1, 0, "one"); eq4(i.t, 0, 0, 0, 1, "one");
	eq4(M4::Zero.x, 0, 0, 0, 0, "zero"); eq4(M4::Zero.y, 0, 0, 0, 0, "zero"); eq4(M4::Zero.z, 0, 0, 0, 0, "zero"); eq4(M4::Zero.t, 0, 0, 0, 0, "zero");
	R k = any(); M4 s(k); eq4(s.x, k, 0, 0, 0, "scalar matrix"); eq4(s.y, 0, k, 0, 0, "scalar matrix"); eq4(s.z, 0, 0, k, 0, "scalar matrix"); eq4(s.t, 0, 0, 0, 1, "scalar matrix");
}
H h_m4_near() {
	M4 a = vp_choice(2) ? nearTrs() : nearM4(), b = anyM4(); vp_assume(a.isIdentity()); PART(4);
	M4 e, f; e.x = ap(a, b.x); e.y = ap(a, b.y); e.z = ap(a, b.z); e.t = ap(a, b.t); f.x = ap(b, a.x); f.y = ap(b, a.y); f.z = ap(b, a.z); f.t = ap(b, a.t);
	M4 r = part == 0 ? a * b : part == 1 ? b * a : part == 2 ? a.transformed(b) : b.transformed(a);
	if (part == 0) vp_check(same(r, b) | same(r, a) | same(r, e), "product with a near identity");
	if (part == 1) vp_check(same(r, b) | same(r, a) | same(r, f), "product with a near identity");
	if (part == 2) vp_check(same(r, b) | same(r, a) | same(r, f), "transform of a near identity");
	if (part == 3) vp_check(same(r, b) | same(r, a) | same(r, e), "transform by a near identity");
}
H h_m4_scalar() {
	M4 a = vp_choice(2) ? anyTrs() : anyM4(); R k = any(), q = nonzero(); PART(5);
	M4 c = a;
	if (part == 0) { M4& ret = (c *= k); vp_check(&ret == &c, "*= k returns the matrix"); }
	if (part == 1) c = a * k;
	if (part == 2) c /= q;
	if (part == 3) c = a / q;
	if (part == 4) { c = -a; vp_eq(a.trace(), a.x.x + a.y.y + a.z.z + a.t.w, "trace"); }
	for (int i = 0; i < 16; ++i) if (part == 4) vp_eq(c.data()[i], -a.data()[i], "minus"); else if (part > 1) vp_eq(c.data()[i] * q, a.data()[i], "division by a scalar"); else vp_eq(c.data()[i], a.data()[i] * k, "product with a scalar");
}
H h_m4_access() {
	M4 a = anyM4(); V4 v = any4(); V3 p = any3(), q = any3(), r = any3(), t = any3();
	const R* d = a.data(); vp_eq(d[0], a.x.x, "data"); vp_eq(d[3], a.x.w, "data"); vp_eq(d[6], a.y.z, "data"); vp_eq(d[9], a.z.y, "data"); vp_eq(d[12], a.t.x, "data"); vp_eq(d[15], a.t.w, "data");
	for (int k = 0; k < 3; ++k) { eq(((const M4&)a)[coord(k)], k == 0 ? a.x : k == 1 ? a.y : a.z, "column access"); M4 e = a; e[coord(k)] = v; eq(((const M4&)e)[coord(k)], v, "column access"); }
	M4 b; b.set(a.x, a.y, a.z, a.t); eq(b, a, "set columns"); eq(M4::from(a.x, a.y, a.z, a.t), a, "from columns"); 
	b.set(p, q, r, t); eq4(b.x, p.x, p.y, p.z, 0, "set columns"); eq4(b.y, q.x, q.y, q.z, 0, "set columns"); eq4(b.z, r.x, r.y, r.z, 0, "set columns"); eq4(b.t, t.x, t.y, t.z, 1, "set columns");
	eq(M4(p, q, r, t), b, "columns"); eq(M4::from(p, q, r, t), b, "from columns"); b.set(a); eq(b, a, "set matrix");
	vp_check(a == b && !(a != b), "equality");
	int k = vp_choice(16); b.data()[k] = a.data()[k] + nonzero(); vp_check(!(a == b) && a != b, "difference in one entry");
}
H h_m4_moves() {
	M4 a = vp_choice(2) ? anyTrs() : anyM4(); V3 v = any3(), u = any3(); PART(8);
	M4 b = a;
	if (part < 2) {
		if (part == 0) { M4& ret = b.translate(v); vp_check(&ret == &b, "translate returns the matrix"); } else b = a.translated(v);
		eq4(b.t, a.t.x + v.x, a.t.y + v.y, a.t.z + v.z, a.t.w, "translate: after the matrix"); eq(b.x, a.x, "translate"); eq(b.y, a.y, "translate"); eq(b.z, a.z, "translate");
	} else if (part < 4) {
		if (part == 2) b.translatePre(v); else b = a.translatedPre(v);
		V4 w = ap(a, mk4(v.x, v.y, v.z, 0)); eq4(b.t, a.t.x + w.x, a.t.y + w.y, a.t.z + w.z, a.t.w, "translatePre: before the matrix"); eq(b.x, a.x, "translatePre"); eq(b.y, a.y, "translatePre"); eq(b.z, a.z, "translatePre");
	} else {
		if (part == 4) b.scale(v); else if (part == 5) b = a.scaled(v); else if (part == 6) b.scalePre(v); else b = a.scaledPre(v);
		for (int i = 0; i < 4; ++i) { vp_eq(b.x.data()[i], a.x.data()[i] * v.x, "scale"); vp_eq(b.y.data()[i], a.y.data()[i] * v.y, "scale"); vp_eq(b.z.data()[i], a.z.data()[i] * v.z, "scale"); }
		if (part < 6) eq4(b.t, a.t.x * v.x, a.t.y * v.y, a.t.z * v.z, a.t.w, "scale: translation");
		else { eq(b.t, a.t, "scalePre: translation"); eq(b * u, a * mk3(u.x * v.x, u.y * v.y, u.z * v.z), "scalePre: before the matrix"); }
	}
}
H h_m4_rotate() {
	M4 a = vp_choice(2) ? anyTrs() : anyM4(); NI(a);
	R p[4]; vp_unit(p, 4); Q q(p[0], p[1], p[2], p[3], false);
	M4 r = M4::from(q); NI(r);
	M4 b = a; b.rotate(q); isProd(b, r, a, "rotate by a quaternion"); eq(a.rotated(q), b, "rotated = rotate"); b = a; b.rotatePre(q); isProd(b, a, r, "rotatePre by a quaternion"); eq(a.rotatedPre(q), b, "rotatedPre = rotatePre");
}
H h_m4_rotate_axis() {
	M4 a = vp_choice(2) ? anyTrs() : anyM4(); NI(a);
	V3 v = unit3(); R t = any();
	M4 m = M4::from(v, t); NI(m);
	M4 b = a; b.rotate(v, t); isProd(b, m, a, "rotate about an axis"); eq(a.rotated(v, t), b, "rotated = rotate"); b = a; b.rotatePre(v, t); isProd(b, a, m, "rotatePre about an axis"); eq(a.rotatedPre(v, t), b, "rotatedPre = rotatePre");
}
H h_m4_rotate_coord() {
	M4 a = vp_choice(2) ? anyTrs() : anyM4(); NI(a);
	R t = any(); int k = vp_choice(3);
	M4 n = M4::from(coord(k), t); NI(n);
	M4 b = a; b.rotate(coord(k), t); isProd(b, n, a, "rotate about a coordinate axis"); eq(a.rotated(coord(k), t), b, "rotated = rotate"); b = a; b.rotatePre(coord(k), t); isProd(b, a, n, "rotatePre about a coordinate axis"); eq(a.rotatedPre(coord(k), t), b, "rotatedPre = rotatePre");
}

// narrowing a matrix rounds each entry, and nothing else
H f_cast() {
	R v[16]; for (int i = 0; i < 16; ++i) v[i] = vp_f64();
	PART(4);
	if (part == 0) { M2 a; a.x = mk2(v[0], v[1]); a.y = mk2(v[2], v[3]); Mat2<float> b = a.cast<float>();
		vp_same32(b.x.x, (float)v[0], "cast"); vp_same32(b.x.y, (float)v[1], "cast"); vp_same32(b.y.x, (float)v[2], "cast"); vp_same32(b.y.y, (float)v[3], "cast"); }
	if (part == 1) { M3 a; a.x = mk3(v[0], v[1], v[2]); a.y = mk3(v[3], v[4], v[5]); a.z = mk3(v[6], v[7], v[8]); Mat3<float> b = a.cast<float>(); const float* d = b.data(); for (int i = 0; i < 9; ++i) vp_same32(d[i], (float)v[i], "cast"); }
	if (part == 2) { M34 a; a.rs.x = mk3(v[0], v[1], v[2]); a.rs.y = mk3(v[3], v[4], v[5]); a.rs.z = mk3(v[6], v[7], v[8]); a.t = mk3(v[9], v[10], v[11]); Mat34<float> b = a.cast<float>(); const float* d = b.rs.data(); for (int i = 0; i < 9; ++i) vp_same32(d[i], (float)v[i], "cast"); vp_same32(b.t.x, (float)v[9], "cast"); vp_same32(b.t.y, (float)v[10], "cast"); vp_same32(b.t.z, (float)v[11], "cast"); }
	if (part == 3) { M4 a; a.x = mk4(v[0], v[1], v[2], v[3]); a.y = mk4(v[4], v[5], v[6], v[7]); a.z = mk4(v[8], v[9], v[10], v[11]); a.t = mk4(v[12], v[13], v[14], v[15]); Mat4<float> b = a.cast<float>(); const float* d = b.data(); for (int i = 0; i < 16; ++i) vp_same32(d[i], (float)v[i], "cast"); }
}
H h_data() {
	PART(4); R k = any();
	if (part == 0) { M2 a; const int i = vp_choice(4); a.x = any2(); a.y = any2(); const M2 b = a; vp_eq(b.data()[i], i < 2 ? comp(b.x, i) : comp(b.y, i - 2), "data"); a.data()[i] = k; vp_eq(a.data()[i], k, "data writable"); vp_eq(a.data()[(i + 1) % 4], b.data()[(i + 1) % 4], "data writable"); }
	if (part == 1) { M34 a; const int i = vp_choice(12); a.rs.x = any3(); a.rs.y = any3(); a.rs.z = any3(); a.t = any3(); const M34 b = a; const R* d = b.data(); vp_eq(d[i], comp(i < 3 ? b.rs.x : i < 6 ? b.rs.y : i < 9 ? b.rs.z : b.t, i % 3), "data"); a.data()[i] = k; vp_eq(comp(i < 3 ? a.rs.x : i < 6 ? a.rs.y : i < 9 ? a.rs.z : a.t, i % 3), k, "data writable"); }
	if (part == 2) { M3 a; const int i = vp_choice(9); a.x = any3(); a.y = any3(); a.z = any3(); const M3 b = a; vp_eq(b.data()[i], comp(i < 3 ? b.x : i < 6 ? b.y : b.z, i % 3), "data"); a.data()[i] = k; vp_eq(comp(i < 3 ? a.x : i < 6 ? a.y : a.z, i % 3), k, "data writable"); }
	if (part == 3) { M4 a; const int i = vp_choice(16); a.x = any4(); a.y = any4(); a.z = any4(); a.t = any4(); const M4 b = a; V4 c = i < 4 ? b.x : i < 8 ? b.y : i < 12 ? b.z : b.t; R e = i % 4 == 0 ? c.x : i % 4 == 1 ? c.y : i % 4 == 2 ? c.z : c.w; vp_eq(b.data()[i], e, "data"); a.data()[i] = k; vp_eq(a.data()[i], k, "data writable"); }
}
