// C09: rotation matrices from axis and angle, frames, orthonormalising.
#include "h.h"
//@ h_ deadline=90

static V3 col(const M3& m, int k) { return k == 0 ? m.x : k == 1 ? m.y : m.z; }
static V3 col(const M34& m, int k) { return col(m.rs, k); }
static V3 col(const M4& m, int k) { V4 c = k == 0 ? m.x : k == 1 ? m.y : m.z; return mk3(c.x, c.y, c.z); }
static void affine(const M3&) {}
static void affine(const M34& m) { eq3(m.t, 0, 0, 0, "no translation"); }
static void affine(const M4& m) { vp_eq(m.x.w, 0, "affine"); vp_eq(m.y.w, 0, "affine"); vp_eq(m.z.w, 0, "affine"); eq4(m.t, 0, 0, 0, 1, "no translation"); }
// orthonormal with determinant one
static void rotation(const V3& x, const V3& y, const V3& z) {
	vp_eq(dot(x, x), 1, "unit column"); vp_eq(dot(y, y), 1, "unit column"); vp_eq(dot(x, y), 0, "perpendicular columns");
	eq(crs(x, y), z, "right-handed");
}
template <class M> static void rotation(const M& m) { rotation(col(m, 0), col(m, 1), col(m, 2)); }
// u + perpendicular part turned counter-clockwise
static V3 rodrigues(const V3& u, R s, R c, const V3& v) { return add(add(mul(v, c), mul(crs(u, v), s)), mul(u, dot(u, v) * (1 - c))); }

template <class M> static void axisAngle() {
	V3 u = unit3(); R a = any(), k = positive();
	R s = std::sin(a), c = std::cos(a);
	M m; M& ret = m.set(mul(u, k), a); vp_check(&ret == &m, "set returns the matrix");
	for (int i = 0; i < 3; ++i) eq(col(m, i), rodrigues(u, s, c, axis3(i)), "turn about an axis");
	rotation(m); affine(m);
	eq(add(add(mul(col(m, 0), u.x), mul(col(m, 1), u.y)), mul(col(m, 2), u.z)), u, "axis kept");
	eq(M::from(mul(u, k), a), m, "from = set");
	Q q; q.set(mul(u, k), a);
	for (int i = 0; i < 3; ++i) eq(q.rotated(coord(i)), col(m, i), "as the quaternion");
}
H h_axis_angle_m3() { axisAngle<M3>(); }
H h_axis_angle_m34() { axisAngle<M34>(); }
H h_axis_angle_m4() { axisAngle<M4>(); }
template <class M> static void coordAngle() {
	R a = any(), s = std::sin(a), c = std::cos(a);
	for (int k = 0; k < 3; ++k) {
		V3 u = axis3(k);
		M m; M& ret = m.set(coord(k), a); vp_check(&ret == &m, "set returns the matrix");
		for (int i = 0; i < 3; ++i) { eq(col(m, i), rodrigues(u, s, c, axis3(i)), "turn about a coordinate axis"); eq(axis3(i).rotated(coord(k), a), col(m, i), "as rotating the vector"); }
		rotation(m); affine(m);
		eq(M::from(coord(k), a), m, "from = set");
		M n; n.set(u, a); for (int i = 0; i < 3; ++i) eq(col(n, i), col(m, i), "as the same axis given as a vector");
	}
}
H h_coord_angle_m3() { coordAngle<M3>(); }
H h_coord_angle_m34() { coordAngle<M34>(); }
H h_coord_angle_m4() { coordAngle<M4>(); }
H h_m34_translation() {
	R a = any(); V3 u = unit3(), t = any3();
	M34 m; m.set(u, a, t); eq(m.t, t, "translation"); eq(m.rs, M3::from(u, a), "turn"); eq(M34::from(u, a, t), m, "from = set");
	for (int k = 0; k < 3; ++k) { m.set(coord(k), a, t); eq(m.t, t, "translation"); eq(m.rs, M3::from(coord(k), a), "turn"); eq(M34::from(coord(k), a, t), m, "from = set"); }
}
H h_m2() {
	R a = any(); V2 v = any2();
	M2 m; M2& ret = m.set(a); vp_check(&ret == &m, "set returns the matrix");
	eq2(m.x, std::cos(a), std::sin(a), "turn of the plane"); eq2(m.y, -std::sin(a), std::cos(a), "turn of the plane");
	eq(ap(m, v), v.rotated(a), "as rotating the vector"); eq(M2::from(a), m, "from = set");
}
H h_m2_angle() {
	R a = vp_range(-3.1415926, 3.1415926);
	vp_eq(M2::from(a).angle(), a, "angle of a turn");
}

// exact axis along X, approximate one in the half plane of X and Y on Y's side
template <class M> static void frame() {
	V3 x, y, z; rotCols(x, y, z);
	R k = positive(), l = positive(), a = vp_range(0.0000001, 3.1415926);
	V3 e = mul(x, k), p = add(mul(x, l * std::cos(a)), mul(y, l * std::sin(a)));
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
		M m; M& ret = m.set(coord(i), e, coord(j), p); vp_check(&ret == &m, "set returns the matrix");
		eq(col(m, i), x, "exact axis"); eq(col(m, j), y, "approximate axis on its own side");
		int o = 3 - i - j; bool even = (j - i + 3) % 3 == 1;
		eq(col(m, o), mul(z, even ? 1 : -1), "right-handed"); affine(m);
		eq(M::from(coord(i), e, coord(j), p), m, "from = set");
	}
}
H h_frame_m3() { frame<M3>(); }
H h_frame_m34() { frame<M34>(); }
H h_frame_m4() { frame<M4>(); }
template <class M> static void noFrame() {
	V3 v = any3(); R k = any(); PART(2);
	V3 e = part ? v : mk3(0, 0, 0), p = part ? mul(v, k) : v;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
		M m; m.set(coord(i), e, coord(j), p);
		for (int c = 0; c < 3; ++c) eq(col(m, c), axis3(c), "identity without a direction"); affine(m);
	}
}

H h_ortho_m2() {
	V2 x = any2(), y = any2(); vp_assume((x.x != 0) | (x.y != 0));
	M2 m(x, y); M2& ret = m.orthonormalise(); vp_check(&ret == &m, "returns the matrix");
	R l = std::sqrt(dot(x, x));
	eq(mul(m.x, l), x, "first direction kept"); eq2(m.y, -m.x.y, m.x.x, "second perpendicular to it"); vp_eq(dot(m.x, m.x), 1, "unit column");
}
H h_ortho_m3() {
	M3 m = anyM3(); M3& ret = m.orthonormalise(); vp_check(&ret == &m, "returns the matrix"); rotation(m);
}
H h_ortho_m4() {
	M4 m = anyTrs(); M4& ret = m.orthonormalise(); vp_check(&ret == &m, "returns the matrix"); rotation(m);
	vp_eq(m.x.w, 0, "affine"); vp_eq(m.y.w, 0, "affine"); vp_eq(m.z.w, 0, "affine"); vp_eq(m.t.w, 1, "affine");
}
H h_ortho_rotation() {
	V3 x, y, z; rotCols(x, y, z);
	M3 m(x, y, z); m.orthonormalise(); eq(m.x, x, "a rotation is left alone"); eq(m.y, y, "a rotation is left alone"); eq(m.z, z, "a rotation is left alone");
	M4 n(x, y, z); n.orthonormalise(); for (int i = 0; i < 3; ++i) eq(col(n, i), i == 0 ? x : i == 1 ? y : z, "a rotation is left alone");
}
H h_no_frame_m3() { noFrame<M3>(); }
H h_no_frame_m34() { noFrame<M34>(); }
H h_no_frame_m4() { noFrame<M4>(); }
