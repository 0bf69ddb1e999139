// C11: conversions between quaternions, matrices and axis with angle.
#include "h.h"

// the same rotation: equal up to sign
static void sameTurn(const Q& r, const Q& p, const char* l) {
	const R a[4] = { r.x, r.y, r.z, r.w }, b[4] = { p.x, p.y, p.z, p.w };
	for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) vp_eq(a[i] * a[j], b[i] * b[j], l);
}
static M3 ref3(const Q& q) { V3 a = turn(q, axis3(0)), b = turn(q, axis3(1)), c = turn(q, axis3(2)); M3 m; m.x = a; m.y = b; m.z = c; return m; }
static V3 rodrigues(const V3& u, R a, const V3& v) {
	R s = std::sin(a), c = std::cos(a);
	return add(add(mul(v, c), mul(crs(u, v), s)), mul(u, dot(u, v) * (1 - c)));
}

H h_quat_to_mat3() {
	Q q = unitQ(); V3 v = any3();
	M3 m; M3& r = m.set(q); vp_check(&r == &m, "set returns the matrix");
	eq(m, ref3(q), "matrix of a quaternion"); eq(M3::from(q), m, "from = set");
	eq(M3::from(-q), m, "negated: same matrix");
	eq(ap(m, v), q.rotated(v), "rotates as the quaternion");
}
H h_quat_to_mat4() {
	Q q = unitQ();
	M4 m; m.set(q); M3 t = ref3(q);
	for (int k = 0; k < 3; ++k) {
		V4 c = k == 0 ? m.x : k == 1 ? m.y : m.z; V3 d = k == 0 ? t.x : k == 1 ? t.y : t.z;
		eq4(c, d.x, d.y, d.z, 0, "matrix of a quaternion");
	}
	eq4(m.t, 0, 0, 0, 1, "no translation");
	eq(M4::from(q), m, "from = set");
}
H h_mat3_quat_mat3() {
	Q q = unitQ(); M3 m = ref3(q);
	Q r; Q& ret = r.set(m); vp_check(&ret == &r, "set returns the quaternion");
	sameTurn(r, q, "quaternion of a rotation matrix");
	eq(Q::from(m), r, "from = set");
}
H h_mat4_quat_mat4() {
	Q q = unitQ(); M3 t = ref3(q); V3 d = any3();
	M4 m; m.x = V4(t.x.x, t.x.y, t.x.z, 0); m.y = V4(t.y.x, t.y.y, t.y.z, 0); m.z = V4(t.z.x, t.z.y, t.z.z, 0); m.t = V4(d.x, d.y, d.z, 1);
	Q r; Q& ret = r.set(m); vp_check(&ret == &r, "set returns the quaternion");
	sameTurn(r, q, "quaternion of a rotation matrix with translation");
	eq(Q::from(m), r, "from = set");
}
H h_round_trip() {
	Q q = unitQ(); M3 m = ref3(q);
	Q r = Q::from(m);
	eq(ref3(r), m, "matrix to quaternion and back");
	vp_eq(n2(r), 1, "unit quaternion");
}
H h_axis_angle() {
	V3 u = unit3(); R a = any(), k = positive(); V3 v = any3();
	Q q; Q& ret = q.set(mul(u, k), a); vp_check(&ret == &q, "set returns the quaternion");
	R s = std::sin(a / 2), c = std::cos(a / 2);
	eqQ(q, u.x * s, u.y * s, u.z * s, c, "quaternion of axis and angle");
	eq(Q::from(mul(u, k), a), q, "from = set");
	eq(turn(q, v), rodrigues(u, a, v), "turns counter-clockwise by the angle");
	eq(Q::from(u, -a), q.inverse(), "negative angle");
	eq(Q::from(mk3(0, 0, 0), a), Q::One, "no axis");
}
H h_to_axis_angle() {
	Q q = unitQ(); V3 ax; R an;
	q.toAxisAngle(ax, an);
	vp_eq(dot(ax, ax), 1, "unit axis");
	vp_check(an >= 0, "angle not negative"); vp_check(an <= 6.2831854, "at most a full turn");
	R s = std::sin(an / 2), c = std::cos(an / 2);
	if (q.x * q.x + q.y * q.y + q.z * q.z > 0) eqQ(q, ax.x * s, ax.y * s, ax.z * s, c, "axis and angle of a quaternion");
	else vp_eq(an, 0, "no turn");
}
H h_axis_angle_back() {
	V3 u = unit3(); R a = vp_range(0, 6.2831853), k = positive();
	Q q; q.set(mul(u, k), a);
	V3 ax; R an; q.toAxisAngle(ax, an);
	sameTurn(Q::from(ax, an), q, "axis and angle back");
}
// to is from turned by an angle between zero and pi about a perpendicular axis, with lengths of their own
H h_from_to() {
	V3 x, y, z; rotCols(x, y, z);
	R a = vp_range(0.0000001, 3.1415926), k = positive(), l = positive();
	R s = std::sin(a), c = std::cos(a);
	V3 to = add(mul(x, c), mul(y, s));
	Q q; Q& ret = q.set(mul(x, k), mul(to, l)); vp_check(&ret == &q, "set returns the quaternion");
	R h = std::sin(a / 2);
	eqQ(q, z.x * h, z.y * h, z.z * h, std::cos(a / 2), "the shortest turn");
	eq(turn(q, x), to, "carries the first onto the second");
	eq(Q::from(mul(x, k), mul(to, l)), q, "from = set");
}
H h_from_to_same() {
	V3 x = unit3(); R k = positive(), l = positive();
	eq(Q::from(mul(x, k), mul(x, l)), Q::One, "same direction");
}
H h_from_to_opposite() {
	V3 x = unit3(); R k = positive(), l = positive();
	Q q = Q::from(mul(x, k), mul(x, -l));
	vp_eq(n2(q), 1, "unit quaternion"); eq(turn(q, x), mul(x, -1), "carries a direction onto its opposite");
}
H h_quat_to_affine() {
	Q q = unitQ(); V3 t = any3(), v = any3();
	V3 r = add(turn(q, v), t);
	M4 m; m.set(q, t); V4 p = ap(m, mk4(v.x, v.y, v.z, 1)); eq4(p, r.x, r.y, r.z, 1, "4x4 from quaternion and translation"); eq(M4::from(q, t), m, "from = set");
	M34 n; n.set(q, t); eq(ap(n, v), r, "3x4 from quaternion and translation"); eq(M34::from(q, t), n, "from = set");
	M34 o; o.set(q); eq(ap(o, v), turn(q, v), "3x4 from quaternion"); eq(M34::from(q), o, "from = set");
}
