// C06: inverse, determinant, adjoint and transpose.
//@ * biglim=8
#include "h.h"

// "not classified orthonormal", judged by the entries: those matrices are inverted exactly
template <class M> static inline bool loose(const M& m) { return (normErr(m) > M::DefaultTolerance.normal) | (orthErr(m) > M::DefaultTolerance.orthogonal); }
static inline R det(const M2& m) { return m.x.x * m.y.y - m.x.y * m.y.x; }
static inline R det(const M3& m) { return dot(m.x, crs(m.y, m.z)); }
static inline R det3(const V3& a, const V3& b, const V3& c) { return dot(a, crs(b, c)); }
static R det(const M4& m) {
	R s = 0; const V4* c[4] = {&m.x, &m.y, &m.z, &m.t};
	for (int i = 0; i < 4; ++i) {
		V3 r[3]; int n = 0;
		for (int j = 0; j < 4; ++j) if (j != i) r[n++] = xyz(*c[j]);
		s += (i % 2 ? 1 : -1) * c[i]->w * det3(r[0], r[1], r[2]);
	}
	return s;
}
static inline void one(const M2& m, const char* l) { eq2(m.x, 1, 0, l); eq2(m.y, 0, 1, l); }
static inline void one(const M3& m, const char* l) { eq3(m.x, 1, 0, 0, l); eq3(m.y, 0, 1, 0, l); eq3(m.z, 0, 0, 1, l); }
static inline void one(const M4& m, const char* l) { eq4(m.x, 1, 0, 0, 0, l); eq4(m.y, 0, 1, 0, 0, l); eq4(m.z, 0, 0, 1, 0, l); eq4(m.t, 0, 0, 0, 1, l); }
static inline void zero(const M2& m, const char* l) { eq2(m.x, 0, 0, l); eq2(m.y, 0, 0, l); }
static inline void zero(const M3& m, const char* l) { eq3(m.x, 0, 0, 0, l); eq3(m.y, 0, 0, 0, l); eq3(m.z, 0, 0, 0, l); }
static inline void zero(const M4& m, const char* l) { eq4(m.x, 0, 0, 0, 0, l); eq4(m.y, 0, 0, 0, 0, l); eq4(m.z, 0, 0, 0, 0, l); eq4(m.t, 0, 0, 0, 0, l); }
// raw products, without the library
static inline M2 prod(const M2& a, const M2& b) { M2 r; r.x = ap(a, b.x); r.y = ap(a, b.y); return r; }
static inline M3 prod(const M3& a, const M3& b) { M3 r; r.x = ap(a, b.x); r.y = ap(a, b.y); r.z = ap(a, b.z); return r; }
static inline M4 prod(const M4& a, const M4& b) { M4 r; r.x = ap(a, b.x); r.y = ap(a, b.y); r.z = ap(a, b.z); r.t = ap(a, b.t); return r; }
// entries given one by one (a determinant depends on nothing else)
static inline M2 raw2() { M2 m; m.x = any2(); m.y = any2(); return m; }
static inline M3 raw3() { M3 m; m.x = any3(); m.y = any3(); m.z = any3(); return m; }
static inline M4 raw4() { M4 m; m.x = any4(); m.y = any4(); m.z = any4(); m.t = any4(); return m; }
template <class M> static inline void inverseOf(const M& i, const M& m, const char* l) { one(prod(i, m), l); one(prod(m, i), l); }

H h_m2_inverse() {
	M2 m = anyM2(); vp_assume(det(m) != 0 && loose(m)); inverseOf(m.inversed(), m, "inverse times matrix");
}
H h_m2_rotation() {
	V2 u = unit2(); PART(2); M2 m = part ? M2(u, mk2(-u.y, u.x)) : M2(u, mk2(u.y, -u.x)); inverseOf(m.inversed(), m, "inverse of a rotation or reflection");
	M2 r; R t = any(); r.set(t); inverseOf(r.inversed(), r, "inverse of a rotation by an angle");
}
H h_m2_singular() {
	V2 u = any2(); R k = any(); PART(2); M2 m = part ? M2(u, mul(u, k)) : M2(mul(u, k), u); zero(m.inversed(), "singular matrix");
}
// classified orthonormal: true inverse or transposed, whichever is used
H h_m2_near() {
	V2 u = unit2(), v = mk2(-u.y, u.x); M2 m(add(u, mk2(vp_range(-0.03, 0.03), vp_range(-0.03, 0.03))), add(v, mk2(vp_range(-0.03, 0.03), vp_range(-0.03, 0.03))));
	vp_assume(!loose(m) && det(m) != 0); M2 i = m.inversed(), p = prod(i, m);
	vp_check(isOne(p) | (idErr(p) < 1e-9) | (same(i.x.data(), mk2(m.x.x, m.y.x).data(), 2) & same(i.y.data(), mk2(m.x.y, m.y.y).data(), 2)), "inverse of a nearly orthonormal matrix");
}
H h_m2_forms() {
	M2 a = anyM2(); R d = a.determinant();
	vp_eq(d, det(a), "determinant is the signed area"); 
	M2 j = a.adjoint(), c = a.cofactors(), p = prod(a, j), q = prod(j, a);
	eq2(p.x, d, 0, "matrix times adjoint"); eq2(p.y, 0, d, "matrix times adjoint"); eq2(q.x, d, 0, "adjoint times matrix"); eq2(q.y, 0, d, "adjoint times matrix");
	eq2(c.x, j.x.x, j.y.x, "cofactors are the transposed adjoint"); eq2(c.y, j.x.y, j.y.y, "cofactors are the transposed adjoint");
	M2 t = a.transposed(); eq2(t.x, a.x.x, a.y.x, "transposed"); eq2(t.y, a.x.y, a.y.y, "transposed"); eq(t.transposed(), a, "transposing twice"); vp_eq(t.determinant(), d, "determinant of the transposed");
	M2 s = a; M2& ret = s.transpose(); eq(s, t, "transpose = transposed"); vp_check(&ret == &s, "transpose returns the matrix");
}
H h_m2_multiplicative() {
	M2 a = raw2(), b = raw2(), ab = prod(a, b);
	vp_eq(ab.determinant(), a.determinant() * b.determinant(), "determinant is multiplicative");
}

H h_m3_inverse() {
	M3 m = anyM3(); vp_assume(det(m) != 0 && loose(m)); PART(2); 
	M3 i = m; if (part) { M3& ret = i.invert(); vp_check(&ret == &i, "invert returns the matrix"); } else i = m.inversed();
	inverseOf(i, m, "inverse times matrix");
}
H h_m3_rotation() {
	M3 m = anyRot3(); PART(4); if (part & 1) m = M3(m.y, m.x, m.z);
	M3 i = m; if (part & 2) i.invert(); else i = m.inversed();
	inverseOf(i, m, "inverse of a rotation or reflection");
}
H h_m3_singular() {
	V3 u = any3(), v = any3(); R h = any(), k = any(); V3 w = add(mul(u, h), mul(v, k));
	PART(6); const int p = part % 3; M3 m = p == 0 ? M3(w, u, v) : p == 1 ? M3(u, w, v) : M3(u, v, w);
	vp_assume(loose(m)); M3 i = m; if (part < 3) i.invert(); else i = m.inversed(); zero(i, "singular matrix");
}
H h_m3_forms() {
	M3 a = anyM3(); R d = a.determinant();
	vp_eq(d, det(a), "determinant is the signed volume");
	M3 j = a.adjoint(), c = a.cofactors(), p = prod(a, j), q = prod(j, a);
	eq3(p.x, d, 0, 0, "matrix times adjoint"); eq3(p.y, 0, d, 0, "matrix times adjoint"); eq3(p.z, 0, 0, d, "matrix times adjoint");
	eq3(q.x, d, 0, 0, "adjoint times matrix"); eq3(q.y, 0, d, 0, "adjoint times matrix"); eq3(q.z, 0, 0, d, "adjoint times matrix");
	eq3(c.x, j.x.x, j.y.x, j.z.x, "cofactors are the transposed adjoint"); eq3(c.y, j.x.y, j.y.y, j.z.y, "cofactors are the transposed adjoint"); eq3(c.z, j.x.z, j.y.z, j.z.z, "cofactors are the transposed adjoint");
	M3 t = a.transposed(); eq3(t.x, a.x.x, a.y.x, a.z.x, "transposed"); eq3(t.y, a.x.y, a.y.y, a.z.y, "transposed"); eq3(t.z, a.x.z, a.y.z, a.z.z, "transposed");
	eq(t.transposed(), a, "transposing twice"); vp_eq(t.determinant(), d, "determinant of the transposed");
	M3 s = a; M3& ret = s.transpose(); eq(s, t, "transpose = transposed"); vp_check(&ret == &s, "transpose returns the matrix");
}
H h_m3_multiplicative() {
	M3 a = raw3(), b = raw3(), ab = prod(a, b);
	vp_eq(ab.determinant(), a.determinant() * b.determinant(), "determinant is multiplicative");
}

// affine maps: the inverse undoes the map
static inline void undoes(const M34& i, const M34& m, const char* l) {
	one(prod(i.rs, m.rs), l); one(prod(m.rs, i.rs), l); eq3(ap(i, m.t), 0, 0, 0, l); eq3(ap(m, i.t), 0, 0, 0, l);
}
H h_m34_inverse() {
	M34 m = anyM34(); vp_assume(det(m.rs) != 0 && loose(m.rs)); 
	M34 i = m; M34& ret = i.invert(); vp_check(&ret == &i, "invert returns the matrix"); undoes(i, m, "inverse of an affine map");
}
H h_m34_rigid() {
	V3 x, y, z; rotCols(x, y, z); V3 t = any3(); PART(2); M34 m = part & 1 ? M34(y, x, z, t) : M34(x, y, z, t); NI(m);
	M34 i = m; i.invert(); undoes(i, m, "inverse of a rigid map");
}
H h_m34_translation() {
	V3 t = any3(); PART(2); M34 m; m.setIdentity(); if (part & 1) { m.t = t; m.optimize(); } else m = M34(M3::One, t);
	M34 i = m; i.invert(); undoes(i, m, "inverse of a translation");
}
H h_m34_forms() {
	M34 a = anyM34(); M34 t = a; t.transpose(); eq3(t.rs.x, a.rs.x.x, a.rs.y.x, a.rs.z.x, "transposed"); eq3(t.rs.y, a.rs.x.y, a.rs.y.y, a.rs.z.y, "transposed"); eq3(t.rs.z, a.rs.x.z, a.rs.y.z, a.rs.z.z, "transposed");
}

static inline bool loose4(const M4& m, bool trs) { return (normErr(m, trs) > M4::DefaultTolerance.normal) | (orthErr(m, trs) > M4::DefaultTolerance.orthogonal); }
H h_m4_inverse() {
	M4 m = anyM4(); vp_assume(!rawTrs(m) && det(m) != 0); inverseOf(m.inversed(), m, "inverse times matrix");
}
H h_m4_invert() {
	M4 m = anyM4(); vp_assume(!rawTrs(m) && det(m) != 0); M4 i = m; M4& ret = i.invert(); vp_check(&ret == &i, "invert returns the matrix"); inverseOf(i, m, "inverse times matrix");
}
H h_m4_trs() {
	M4 m = anyTrs(); vp_assume(det3(xyz(m.x), xyz(m.y), xyz(m.z)) != 0 && loose4(m, true));
	PART(2); M4 i = m; if (part) i.invert(); else i = m.inversed(); inverseOf(i, m, "inverse of an affine matrix");
}
H h_m4_rigid() {
	V3 x, y, z; rotCols(x, y, z); V3 t = any3(); PART(4); M4 m = part & 1 ? M4(y, x, z, t) : M4(x, y, z, t);
	M4 i = m; if (part & 2) i.invert(); else i = m.inversed(); inverseOf(i, m, "inverse of a rigid matrix");
}
// orthonormal columns, but no affine matrix
H h_m4_projective() {
	V3 x, y, z; rotCols(x, y, z); V3 t = any3(), n = any3(); R w = any(); vp_assume(w != 1 || n.x != 0 || n.y != 0 || n.z != 0);
	PART(2); M4 m(mk4(x.x, x.y, x.z, n.x), mk4(y.x, y.y, y.z, n.y), mk4(z.x, z.y, z.z, n.z), mk4(t.x, t.y, t.z, w)); vp_assume(det(m) != 0);
	M4 i = m; if (part) i.invert(); else i = m.inversed(); inverseOf(i, m, "inverse of a projective matrix with a rotation part");
}
H h_m4_orthogonal() {
	V4 a, b; R p[4], q[4]; vp_unit(p, 4); PART(2);   // isoclinic rotation of four dimensions
	M4 m(mk4(p[0], p[1], p[2], p[3]), mk4(-p[1], p[0], -p[3], p[2]), mk4(-p[2], p[3], p[0], -p[1]), mk4(-p[3], -p[2], p[1], p[0])); vp_assume(!rawTrs(m));
	M4 i = m; if (part) i.invert(); else i = m.inversed(); inverseOf(i, m, "inverse of a four-dimensional rotation");
}
H h_m4_singular() {
	V4 u = any4(), v = any4(), s = any4(); R h = any(), k = any(), l = any(); V4 w = mk4(h * u.x + k * v.x + l * s.x, h * u.y + k * v.y + l * s.y, h * u.z + k * v.z + l * s.z, h * u.w + k * v.w + l * s.w);
	PART(8); const int p = part % 4; M4 m = p == 0 ? M4(w, u, v, s) : p == 1 ? M4(u, w, v, s) : p == 2 ? M4(u, v, w, s) : M4(u, v, s, w);
	vp_assume(!rawTrs(m)); M4 i = m; if (part < 4) i.invert(); else i = m.inversed(); zero(i, "singular matrix");
}
H h_m4_singular_trs() {
	V3 u = any3(), v = any3(), t = any3(); R h = any(), k = any(); V3 w = add(mul(u, h), mul(v, k));
	PART(6); const int p = part % 3; M4 m = p == 0 ? M4(w, u, v, t) : p == 1 ? M4(u, w, v, t) : M4(u, v, w, t);
	vp_assume(loose4(m, true)); M4 i = m; if (part < 3) i.invert(); else i = m.inversed(); zero(i, "singular matrix");
}
H h_m4_forms() {
	M4 a = anyM4(); vp_assume(!rawTrs(a)); R d = a.determinant(); vp_eq(d, det(a), "determinant is the signed volume");
	M4 t = a.transposed(); eq4(t.x, a.x.x, a.y.x, a.z.x, a.t.x, "transposed"); eq4(t.y, a.x.y, a.y.y, a.z.y, a.t.y, "transposed"); eq4(t.z, a.x.z, a.y.z, a.z.z, a.t.z, "transposed"); eq4(t.t, a.x.w, a.y.w, a.z.w, a.t.w, "transposed");
	eq(t.transposed(), a, "transposing twice"); vp_eq(t.determinant(), d, "determinant of the transposed");
	M4 s = a; M4& ret = s.transpose(); eq(s, t, "transpose = transposed"); vp_check(&ret == &s, "transpose returns the matrix");
}
H h_m4_multiplicative() {
	M4 a = raw4(), b = raw4(), ab = prod(a, b);
	vp_eq(ab.determinant(), a.determinant() * b.determinant(), "determinant is multiplicative");
}
// nearly orthonormal: inverted by transposing or exactly (and a near identity may stay as it is)
static inline bool tr(const M3& i, const M3& m) { M3 t; t.x = mk3(m.x.x, m.y.x, m.z.x); t.y = mk3(m.x.y, m.y.y, m.z.y); t.z = mk3(m.x.z, m.y.z, m.z.z); return same(i, t); }
static inline bool one9(const M3& m) { return isOne(m) | (idErr(m) < 1e-9); }
H h_m3_near() {
	M3 m = nearM3(); vp_assume(!loose(m) && det(m) != 0); PART(2); M3 i = m; if (part) i.invert(); else i = m.inversed();
	vp_check(tr(i, m) | one9(prod(i, m)) | (same(i, m) & (idErr(m) <= M3::DefaultTolerance.identity)), "inverse of a nearly orthonormal matrix");
}
H h_m34_near() {
	M3 r = nearM3(); V3 t = any3(); M34 m(r, t); vp_assume(!loose(r)); M34 i = m; i.invert();
	vp_check(tr(i.rs, r) | one9(prod(i.rs, r)) | (same(i.rs, r) & (idErr(r) <= M3::DefaultTolerance.identity)), "inverse of a nearly orthonormal matrix");
	eq(i.t, mul(ap(i.rs, t), -1), "translation of the inverse");
}
H h_m4_near() {
	M4 m = nearTrs(); vp_assume(!loose4(m, true)); PART(2); M4 i = m; if (part) i.invert(); else i = m.inversed();
	M3 r, s; r.x = xyz(i.x); r.y = xyz(i.y); r.z = xyz(i.z); s.x = xyz(m.x); s.y = xyz(m.y); s.z = xyz(m.z);
	vp_check(tr(r, s) | one9(prod(r, s)) | (same(i, m) & (idErr(m) <= M4::DefaultTolerance.identity)), "inverse of a nearly orthonormal matrix");
	vp_check(same(i, m) | (dot(add(xyz(i.t), ap(r, xyz(m.t))), add(xyz(i.t), ap(r, xyz(m.t)))) < 1e-9), "translation of the inverse"); vp_check(rawTrs(i), "inverse of an affine matrix is affine");
}
