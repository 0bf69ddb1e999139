// C10: quaternion algebra and action on vectors.
#include "h.h"

H h_product() {
	Q a = anyQ(), b = anyQ(), c = anyQ();
	Q p = a * b;
	eq(p, ham(a, b), "product");
	eq((a * b) * c, a * (b * c), "associative");
	vp_eq(n2(p), n2(a) * n2(b), "norms multiply");
	eq(a * Q::One, a, "one on the right"); eq(Q::One * a, a, "one on the left");
	eqQ(Q::One, 0, 0, 0, 1, "One");
	eqQ(-a, -a.x, -a.y, -a.z, -a.w, "negation");
	eq((-a) * b, -p, "negation in a product");
	Q i; i.setIdentity(); eq(i, Q::One, "setIdentity");
}
H h_aliased() {
	Q a = anyQ(), b = anyQ();
	Q x = a; x = x * b; eq(x, ham(a, b), "product in place, left");
	x = b; x = a * x; eq(x, ham(a, b), "product in place, right");
	x = a; x = x * x; eq(x, ham(a, a), "square in place");
	x = a; x = x; eq(x, a, "self assignment"); x.set(x); eq(x, a, "set itself");
	Q c(b); eq(c, b, "copy"); eq(Q::from(b), b, "from");
	Q d; Q& r = d.set(b); eq(d, b, "set"); vp_check(&r == &d, "set returns the quaternion");
	Q& s = (d = a); eq(d, a, "assignment"); vp_check(&s == &d, "assignment returns the quaternion");
	x = a; x = x.inverse(); eqQ(x, -a.x, -a.y, -a.z, a.w, "inverse in place");
}
H h_inverse() {
	Q a = anyQ(), b = anyQ();
	Q i = a.inverse();
	eqQ(a * i, 0, 0, 0, n2(a), "times the conjugate"); eqQ(i * a, 0, 0, 0, n2(a), "conjugate times");
	eq(i.inverse(), a, "twice");
	eq((a * b).inverse(), b.inverse() * a.inverse(), "inverse of a product");
	Q u = unitQ();
	eq(u * u.inverse(), Q::One, "inverse undoes"); eq(u.inverse() * u, Q::One, "inverse undoes");
	eq(b * u * u.inverse(), b, "undo a product");
}
H h_divide() {
	Q a = anyQ(), u = unitQ();
	eq(a / u, a * u.inverse(), "division by a unit quaternion");
	eq((a / u) * u, a, "undoes the product"); eq((a * u) / u, a, "undone by the product");
	eq(u / u, Q::One, "by itself");
	Q x = a; x = x / u; eq(x, a / u, "in place");
	x = u; x = a / x; eq(x, a / u, "in place");
}
H h_normalize() {
	Q a = anyQ(); vp_assume(n2(a) > 0);
	Q n = a; Q& r = n.normalize(); vp_check(&r == &n, "returns the quaternion");
	vp_eq(n2(n), 1, "normalized");
	R k = std::sqrt(n2(a)); eqQ(n, a.x / k, a.y / k, a.z / k, a.w / k, "direction kept");
	eq(Q(a.x, a.y, a.z, a.w), n, "constructor normalizes");
	Q raw(a.x, a.y, a.z, a.w, false); eq(raw, a, "constructor keeps");
	Q z(0, 0, 0, 0); eq(z, Q::One, "null becomes one");
	Q u = unitQ(), v = u; v.normalize(); eq(v, u, "unit kept");
}
H h_compare() {
	Q a = anyQ(), b = anyQ();
	bool e = (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.w == b.w);
	vp_check((a == b) == e, "equal"); vp_check((a != b) == !e, "unequal");
	vp_check(a.data()[0] == a.x && a.data()[1] == a.y && a.data()[2] == a.z && a.data()[3] == a.w, "data");
	b.data()[2] = a.x; vp_check(b.z == a.x, "data writes");
}
H h_rotated() {
	Q q = unitQ(); V3 v = any3(), w = any3();
	V3 r = q.rotated(v);
	eq(r, turn(q, v), "rotation");
	vp_eq(dot(r, q.rotated(w)), dot(v, w), "lengths and angles kept");
	eq((-q).rotated(v), r, "negated: same rotation");
	eq(q.inverse().rotated(r), v, "undone by the inverse");
	eq(Q::One.rotated(v), v, "one keeps every vector");
	V3 x = v; x = q.rotated(x); eq(x, r, "in place");
	V3 u = mk3(q.x, q.y, q.z); eq(q.rotated(u), u, "axis kept");
}
H h_rotated_axes() {
	Q q = unitQ();
	for (int k = 0; k < 3; ++k) { eq(q.rotated(coord(k)), turn(q, axis3(k)), "rotated coordinate axis"); eq(q.rotated(axis3(k)), q.rotated(coord(k)), "as the vector"); }
	V3 x = q.rotated(Coord::X), y = q.rotated(Coord::Y), z = q.rotated(Coord::Z);
	eq(crs(x, y), z, "right-handed");
}
H h_compose() {
	Q p = unitQ(), q = unitQ(); V3 v = any3();
	eq((p * q).rotated(v), p.rotated(q.rotated(v)), "product rotates by the right factor first");
}
H h_compose_matrix() {
	Q p = unitQ(), q = unitQ();
	M3 a = M3::from(p), b = M3::from(q); NI(a); NI(b);
	M3 r = a * b;
	Q s = p * q;
	for (int k = 0; k < 3; ++k) eq(k == 0 ? r.x : k == 1 ? r.y : r.z, turn(s, axis3(k)), "matrix product in the same order");
}
// the product of a quaternion with a vector: the vector part of the product with the pure quaternion
H h_times_vector() {
	Q q = anyQ(); V3 v = any3();
	Q p = ham(q, mkQ(v.x, v.y, v.z, 0));
	eq(q * v, mk3(p.x, p.y, p.z), "times a vector");
}
H h_cast() {
	Q a = anyQ();
	Quat<float> f = a.cast<float>(); 
	eq(f.cast<double>(), mkQ((float)a.x, (float)a.y, (float)a.z, (float)a.w), "cast");
	eq(a.cast<double>(), a, "cast");
}
// in-place and copying forms on a matrix: the turn after (rotate) and before (rotatePre) it
H h_mat3_forms() {
	M3 m = anyM3(); NI(m);
	Q q = unitQ(); M3 t = M3::from(q); NI(t);
	M3 a = m; M3& ra = a.rotate(q); eq(a, m.rotated(q), "rotate = rotated"); vp_check(&ra == &a, "rotate returns the matrix");
	M3 b = m; M3& rb = b.rotatePre(q); eq(b, m.rotatedPre(q), "rotatePre = rotatedPre"); vp_check(&rb == &b, "rotatePre returns the matrix");
	for (int k = 0; k < 3; ++k) eq(k == 0 ? a.x : k == 1 ? a.y : a.z, turn(q, k == 0 ? m.x : k == 1 ? m.y : m.z), "rotate turns the columns");
	V3 v = axis3(0); eq(ap(b, v), ap(m, turn(q, v)), "rotatePre turns first");
}
