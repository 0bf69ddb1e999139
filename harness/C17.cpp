// C17: planes.
#include "h.h"
typedef Plane<R> P; typedef Ray3<R> Ry; typedef Line3<R> Ln; typedef Sphere<R> S;
inline P anyP() { P p; p.normal = unit3(); p.d = any(); return p; }
inline R sd(const P& p, const V3& q) { return dot(p.normal, q) - p.d; }
inline Ry ray(const V3& s, const V3& d) { Ry r; r.start = s; r.direction = d; return r; }
inline Ln line(const V3& s, const V3& e) { Ln l; l.start = s; l.end = e; return l; }
// normal is the unit vector along n
static void along(const P& p, const V3& n, const char* l) {
	vp_eq(dot(p.normal, p.normal), 1, l);
	eq(crs(p.normal, n), mk3(0, 0, 0), l);
	vp_check(dot(p.normal, n) > 0, l);
}
static void fromNormal(int form) {
	V3 n = any3(), q = any3(); R d = any();
	vp_assume(dot(n, n) > 0);
	P p;
	if (form == 0) p.set(n, d);
	if (form == 1) p = P::from(n, d);
	if (form == 2) p.set(q, n);
	if (form == 3) p = P::from(q, n);
	along(p, n, "normal");
	if (form < 2) eq(p.d, d, "distance from the origin");
	else eq(sd(p, q), 0, "contains its point");
}
H h_set_normal() { fromNormal(0); }
H h_from_normal() { fromNormal(1); }
H h_set_point() { fromNormal(2); }
H h_from_point() { fromNormal(3); }
static void tangents(int form) {
	V3 q = any3(), u = any3(), v = any3(), n = crs(u, v); R a = any(), b = any();
	vp_assume(dot(n, n) > 0);
	P p;
	if (form == 0) p.setFromPointAndTangents(q, u, v);
	if (form == 1) p = P::fromPointAndTangents(q, u, v);
	if (form == 2) p.set(q, add(q, u), add(q, v));
	if (form == 3) p = P::from(q, add(q, u), add(q, v));
	along(p, n, "normal");
	eq(sd(p, q), 0, "contains its point");
	eq(sd(p, add(q, add(mul(u, a), mul(v, b)))), 0, "contains the points it spans");
}
//@ h_*tangents opqmax=400000
H h_set_tangents() { tangents(0); }
H h_from_tangents() { tangents(1); }
H h_set_points() { tangents(2); }
H h_from_points() { tangents(3); }
// points and normals that are the plane's own
H h_own() {
	P p = anyP(), q = p; V3 n = p.normal; R d = p.d, k = any();
	q.set(q, k); eq(q.normal, n, "set from itself"); eq(q.d, d + k, "set from itself");
	q = p; V3 x = any3(); q.set(x, q.normal); eq(q.normal, n, "set with own normal"); eq(sd(q, x), 0, "set with own normal");
	q = p; q.set(q.normal, k); eq(q.normal, n, "set with own normal"); eq(q.d, k, "set with own normal");
}
H h_null_normal() {
	V3 z = mk3(0, 0, 0), q = any3(); P p; p.set(q, z);
	eq(p.normal, z, "null normal stays null"); eq(P::from(z, 2).normal, z, "null normal stays null");
}
H h_parallel() {
	P p = anyP(); R k = any(); P a; a.set(p, k); P b = P::from(p, k), c = p.moved(k), d = p; d.move(k);
	V3 x = any3();
	eq(sd(a, x), sd(p, x) - k, "parallel plane"); eq(a.normal, p.normal, "parallel plane");
	eq(sd(b, x), sd(p, x) - k, "parallel plane from"); eq(b.normal, p.normal, "parallel plane from");
	eq(sd(c, x), sd(p, x) - k, "moved"); eq(c.normal, p.normal, "moved");
	eq(sd(d, x), sd(p, x) - k, "move"); eq(d.normal, p.normal, "move");
	P f = p.flipped(), g = p; vp_check(&g.flip() == &g, "flip returns the plane");
	eq(sd(f, x), -sd(p, x), "flipped"); eq(sd(g, x), -sd(p, x), "flip"); eq(f.normal, mul(p.normal, -1), "flipped"); eq(g.normal, mul(p.normal, -1), "flip");
}
H h_access() {
	V3 n = any3(); R d = any(); P p(n, d); const P& c = p;
	for (int i = 0; i < 3; ++i) { eq(p.data()[i], comp(n, i), "data"); eq(c.data()[i], comp(n, i), "data"); eq(comp(p.normal, i), comp(n, i), "constructor"); }
	eq(p.data()[3], d, "data"); eq(c.data()[3], d, "data"); eq(p.d, d, "constructor");
	V3 x = any3();
	eq(P::XY.distance(x), x.z, "XY"); eq(P::YZ.distance(x), x.x, "YZ"); eq(P::ZX.distance(x), x.y, "ZX");
	P q = p; vp_check(q == p && !(q != p), "equal");
	PART(2);
	P r; r.normal = part == 0 ? n : any3(); r.d = any();
	bool e = (r.d == d) & (r.normal.x == n.x) & (r.normal.y == n.y) & (r.normal.z == n.z);
	vp_check((r == p) == e && (r != p) == !e, "comparison");
}
H f_cast() {
	Plane<double> p; p.normal = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); p.d = vp_f64();
	Plane<float> q = p.cast<float>();
	vp_same32(q.normal.x, (float)p.normal.x, "cast"); vp_same32(q.normal.y, (float)p.normal.y, "cast"); vp_same32(q.normal.z, (float)p.normal.z, "cast"); vp_same32(q.d, (float)p.d, "cast");
}

H h_distance() {
	P p = anyP(); V3 x = any3(); R tol = any();
	eq(p.distance(x), sd(p, x), "signed distance");
	R t = any(); eq(p.distance(add(x, mul(p.normal, t))), p.distance(x) + t, "distance grows along the normal");
	R s = sd(p, x);
	vp_check(p.contains(x, tol) == ((s <= tol) & (-s <= tol)), "contains within tolerance");
}
H h_project() {
	P p = anyP(); V3 x = any3(), f = x, y;
	R t = p.project(f, x);
	eq(t, sd(p, x), "distance returned");
	eq(sd(p, f), 0, "projection in the plane");
	eq(crs(sub(x, f), p.normal), mk3(0, 0, 0), "projection straight along the normal");
	// nearest: any other point q of the plane is further, |x-q|^2 = |x-f|^2 + |q-f|^2
	y = any3(); V3 q = sub(y, mul(p.normal, sd(p, y)));
	eq(dot(sub(x, q), sub(x, q)), dot(sub(x, f), sub(x, f)) + dot(sub(q, f), sub(q, f)), "projection is the nearest point");
	V3 z = x; p.project(z, z); eq(z, f, "projected in place");
}
H h_projectDir() {
	P p = anyP(); V3 x = any3(), d = any3(), f;
	R c = dot(d, p.normal);
	bool r = p.project(f, x, d);
	vp_check(r == (c != 0), "projects unless the direction is parallel");
	if (r) {
		eq(sd(p, f), 0, "projection in the plane");
		eq(crs(sub(f, x), d), mk3(0, 0, 0), "projection along the direction");
		V3 z = x; p.project(z, z, d); eq(z, f, "projected in place");
	}
}
// path: start + t dir; a signed distance of start, b per unit of t
H h_rayIntersects() {
	P p = anyP(); V3 s = any3(), d = any3(), h; R t;
	R a = sd(p, s), b = dot(p.normal, d), u = any();
	if (p.intersects(h, t, ray(s, d))) {
		vp_check(t >= 0, "not behind the start"); eq(h, add(s, mul(d, t)), "point at the parameter"); eq(a + b * t, 0, "point in the plane"); vp_check(b != 0, "not parallel");
	}
	else vp_check((b == 0) | (u < 0) | (a + b * u != 0), "missed ray does not meet the plane");
}
H h_rayHits() {
	P p = anyP(); V3 s = any3(), d = any3(), h; R t;
	R a = sd(p, s), b = dot(p.normal, d);
	bool r = p.hits(h, t, ray(s, d));
	vp_check(r == ((a >= 0) & (b < 0)), "hit exactly from the front going back");
	if (r) { vp_check(t >= 0, "not behind the start"); eq(h, add(s, mul(d, t)), "point at the parameter"); eq(a + b * t, 0, "point in the plane"); }
}
H h_lineIntersects() {
	P p = anyP(); V3 s = any3(), e = any3(), h; R t;
	R a = sd(p, s), b = sd(p, e), u = any();
	if (p.intersects(h, t, line(s, e))) {
		vp_check((t >= 0) & (t <= 1), "within the line"); eq(h, add(s, mul(sub(e, s), t)), "point at the parameter"); eq(a + (b - a) * t, 0, "point in the plane");
	}
	else vp_check((a == b) | (u < 0) | (u > 1) | (a + (b - a) * u != 0), "missed line does not meet the plane");
}
H h_lineHits() {
	P p = anyP(); V3 s = any3(), e = any3(), h; R t;
	R a = sd(p, s), b = sd(p, e);
	bool r = p.hits(h, t, line(s, e));
	vp_check(r == ((a >= 0) & (b < 0)), "hit exactly from the front to the back");
	if (r) { vp_check((t >= 0) & (t <= 1), "within the line"); eq(h, add(s, mul(sub(e, s), t)), "point at the parameter"); eq(a + (b - a) * t, 0, "point in the plane"); }
}
H h_sweptSphere() {
	P p = anyP(); V3 s = any3(), e = any3(), h; R t, k = any(); vp_assume(k >= 0);
	R a = sd(p, s), b = sd(p, e);
	bool r = p.hits(h, t, line(s, e), k);
	vp_check(r == ((a >= k) & (b < k)), "hit exactly when the sphere comes to touch");
	if (r) { vp_check((t >= 0) & (t <= 1), "within the line"); eq(h, add(s, mul(sub(e, s), t)), "point at the parameter"); eq(a + (b - a) * t, k, "touching the plane"); }
}
H h_sphere() {
	P p = anyP(); S s; s.center = any3(); s.radius = any(); vp_assume(s.radius >= 0);
	R a = sd(p, s.center), t1, t2;
	bool i = p.intersects(t1, s), h = p.hits(t2, s);
	vp_check(i == ((a <= s.radius) & (-a <= s.radius)), "sphere meets the plane exactly when its centre is near enough");
	vp_check(h == ((a <= s.radius) & (a >= 0)), "hit from the front");
	if (i) eq(t1, s.radius - a, "penetration depth");
	if (h) eq(t2, s.radius - a, "penetration depth of the hit");
}
// three planes: normals of any length, so that the decision depends on their determinant
H h_three() {
	P a, b, c; a.normal = any3(); b.normal = any3(); c.normal = any3(); a.d = any(); b.d = any(); c.d = any();
	V3 x;
	R det = dot(crs(a.normal, b.normal), c.normal);
	if (P::intersectAtSinglePoint(x, a, b, c)) {
		vp_check(det != 0, "no single point of parallel planes");
		eq(sd(a, x), 0, "on the first plane"); eq(sd(b, x), 0, "on the second plane"); eq(sd(c, x), 0, "on the third plane");
	}
	else vp_check((det < 0.001) & (det > -0.001), "well separated planes have a single point");
}
// the local axes and coordinate planes of a transformation
template <class M> static void local(const M& m, const V3& x, const V3& y, const V3& z, const V3& t) {
	PART(6); V3 n = part / 2 == 0 ? x : part / 2 == 1 ? y : z; const Axis a[6] = { Axis::X, Axis::NX, Axis::Y, Axis::NY, Axis::Z, Axis::NZ };
	vp_assume(dot(n, n) > 0);
	if (part % 2 == 0) {
		Ry r = m.localAxis(coord(part / 2)); eq(r.start, t, "starts at the origin of the frame"); eq(crs(r.direction, n), mk3(0, 0, 0), "local axis"); vp_check(dot(r.direction, n) > 0, "local axis");
		P p = m.localPlane(coord(part / 2)); along(p, n, "local plane"); eq(sd(p, t), 0, "through the origin of the frame");
	}
	P p = m.localPlane(a[part]); along(p, part % 2 ? mul(n, -1) : n, "local plane"); eq(sd(p, t), 0, "through the origin of the frame");
}
H h_localM34() { M34 m; m.rs.x = any3(); m.rs.y = any3(); m.rs.z = any3(); m.t = any3(); local(m, m.rs.x, m.rs.y, m.rs.z, m.t); }
H h_localM4() { M4 m; m.x = any4(); m.y = any4(); m.z = any4(); m.t = any4(); local(m, xyz(m.x), xyz(m.y), xyz(m.z), xyz(m.t)); }
