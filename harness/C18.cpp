// C18: lines and rays.
#include "h.h"
struct D2 { typedef V2 V; typedef Line2<R> L; typedef Ray2<R> Y; enum { n = 2 }; };
struct D3 { typedef V3 V; typedef Line3<R> L; typedef Ray3<R> Y; enum { n = 3 }; };
inline V2 anyv(V2*) { return any2(); }
inline V3 anyv(V3*) { return any3(); }
inline V2 unitv(V2*) { return unit2(); }
inline V3 unitv(V3*) { return unit3(); }
inline R crs2(const V2& a, const V2& b) { R c = a.x * b.y - a.y * b.x; return c * c; }
inline R crs2(const V3& a, const V3& b) { V3 c = crs(a, b); return dot(c, c); }
#define ANY anyv((typename D::V*)0)

template <class D> void build() {
	typedef typename D::V V;
	V s = ANY, e = ANY; R t = any();
	typename D::L l = D::L::from(s, e);
	eq(l.start, s, "line start"); eq(l.end, e, "line end");
	V v = sub(e, s);
	eq(l.lengthSqr(), dot(v, v), "line lengthSqr");
	R k = l.length(); vp_check(k >= 0, "line length"); eq(k * k, dot(v, v), "line length");
	eq(l.pointAt(t), add(s, mul(v, t)), "line pointAt");
	vp_check(l == l && !(l != l), "line equals itself");
	vp_check(l.isNull() == (dot(v, v) == 0), "line isNull");
}
H h_line2() { build<D2>(); }
H h_line3() { build<D3>(); }
template <class D> void buildRay() {
	typedef typename D::V V;
	V s = ANY, d = ANY; R t = any();
	vp_assume(dot(d, d) > 0);
	typename D::Y y = D::Y::from(s, d);
	eq(y.start, s, "ray start");
	eq(dot(y.direction, y.direction), 1, "ray direction unit");
	eq(crs2(y.direction, d), 0, "ray direction parallel"); vp_check(dot(y.direction, d) > 0, "ray direction forward");
	eq(y.pointAt(t), add(s, mul(y.direction, t)), "ray pointAt");
	vp_check(y == y && !(y != y), "ray equals itself");
}
H h_ray2() { buildRay<D2>(); }
H h_ray3() { buildRay<D3>(); }
H h_nullRay() {
	V3 s = any3(); V2 u = any2();
	eq(Ray3<R>::from(s, V3::Zero).direction, V3::Zero, "null direction stays null");
	eq(Ray2<R>::from(u, V2::Zero).direction, V2::Zero, "null direction stays null");
}
template <class D> void compare() {
	typename D::L a, b; typename D::Y c, d;
	PART(4);
	a.start = ANY; a.end = ANY; b.start = part & 1 ? a.start : ANY; b.end = part & 1 ? ANY : a.end;
	c.start = a.start; c.direction = a.end; d.start = b.start; d.direction = b.end;
	bool e = (dot(sub(a.start, b.start), sub(a.start, b.start)) == 0) & (dot(sub(a.end, b.end), sub(a.end, b.end)) == 0);
	if (part < 2) vp_check((a == b) == e && (a != b) == !e, "line comparison");
	else vp_check((c == d) == e && (c != d) == !e, "ray comparison");
}
H h_compare2() { compare<D2>(); }
H h_compare3() { compare<D3>(); }

// |w - t v|^2 |v|^2 = (|v|^2 t - v.w)^2 + |v x w|^2: the nearest point of the carrier is |v x w| / |v| away,
// at t >= 0 exactly when v.w >= 0.
template <class D> void lineDistance() {
	typedef typename D::V V;
	V s = ANY, e = ANY, p = ANY, v = sub(e, s), w = sub(p, s);
	typename D::L l; l.start = s; l.end = e;
	R d = l.distance(p);
	vp_check(d >= 0, "distance not negative");
	if (dot(v, v) == 0) eq(d * d, dot(w, w), "distance to a null line");
	else eq(d * d * dot(v, v), crs2(v, w), "distance to the line");
}
//@ h_lineDistance3 opqmax=500000
H h_lineDistance2() { lineDistance<D2>(); }
H h_lineDistance3() { lineDistance<D3>(); }
template <class D> void lineOn() {
	typedef typename D::V V;
	V s = ANY, v = ANY; R t = any();
	vp_assume(dot(v, v) > 0);
	typename D::L l; l.start = s; l.end = add(s, v);
	eq(l.distance(l.pointAt(t)), 0, "point of the line");
	eq(l.distance(s), 0, "start"); eq(l.distance(l.end), 0, "end");
}
H h_lineOn2() { lineOn<D2>(); }
H h_lineOn3() { lineOn<D3>(); }
template <class D> void rayDistance() {
	typedef typename D::V V;
	V s = ANY, u = unitv((V*)0), p = ANY, w = sub(p, s);
	typename D::Y y; y.start = s; y.direction = u;
	R d = y.distance(p);
	vp_check(d >= 0, "distance not negative");
	if (dot(u, w) <= 0) eq(d * d, dot(w, w), "nearest point is the start");
	else eq(d * d, crs2(u, w), "nearest point ahead");
}
H h_rayDistance2() { rayDistance<D2>(); }
H h_rayDistance3() { rayDistance<D3>(); }
template <class D> void rayOn() {
	typedef typename D::V V;
	V s = ANY, u = unitv((V*)0); R t = any();
	typename D::Y y; y.start = s; y.direction = u;
	eq(y.distance(y.pointAt(t)), t >= 0 ? 0 : -t, "point of the ray or behind its start");
	y.direction = V::Zero; V p = ANY; R d = y.distance(p);
	vp_check(d >= 0, "distance to a null ray"); eq(d * d, dot(sub(p, s), sub(p, s)), "distance to a null ray");
}
H h_rayOn2() { rayOn<D2>(); }
H h_rayOn3() { rayOn<D3>(); }

H h_intersection() {
	V2 f = any2(), t = any2(), a = any2(), b = any2(), u = sub(t, f), v = sub(b, a); R x, y;
	R det = u.x * v.y - u.y * v.x;
	int r = intersection(f, t, a, b, x, y);
	vp_check((r != 0) == (det != 0), "reported exactly when not parallel");
	if (r) eq(add(f, mul(u, x)), add(a, mul(v, y)), "both parameters denote the same point");
	else { eq(x, 0, "no parameters"); eq(y, 0, "no parameters"); }
}
// a known crossing is found
H h_crossing() {
	V2 p = any2(), u = any2(), v = any2(); R x = any(), y = any(), i, j;
	vp_assume(u.x * v.y - u.y * v.x != 0);
	V2 f = sub(p, mul(u, x)), a = sub(p, mul(v, y));
	vp_check(intersection(f, add(f, u), a, add(a, v), i, j) != 0, "crossing found");
	eq(i, x, "parameter on the first"); eq(j, y, "parameter on the second");
}
H f_cast() {
	Line3<double> l; l.start = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); l.end = Vec3<double>(vp_f64(), vp_f64(), vp_f64());
	Line3<float> k = l.cast<float>();
	vp_same32(k.start.x, (float)l.start.x, "cast"); vp_same32(k.start.y, (float)l.start.y, "cast"); vp_same32(k.start.z, (float)l.start.z, "cast");
	vp_same32(k.end.x, (float)l.end.x, "cast"); vp_same32(k.end.y, (float)l.end.y, "cast"); vp_same32(k.end.z, (float)l.end.z, "cast");
	Line2<double> m; m.start = Vec2<double>(vp_f64(), vp_f64()); m.end = Vec2<double>(vp_f64(), vp_f64());
	Line2<float> n = m.cast<float>();
	vp_same32(n.start.x, (float)m.start.x, "cast"); vp_same32(n.start.y, (float)m.start.y, "cast"); vp_same32(n.end.x, (float)m.end.x, "cast"); vp_same32(n.end.y, (float)m.end.y, "cast");
}
H h_rayCast() {   // over the reals: the cast keeps start and direction
	Ray3<R> y; y.start = any3(); y.direction = unit3(); Ray3<R> z = y.cast<R>();
	eq(z.start, y.start, "cast start"); eq(z.direction, y.direction, "cast direction");
	Ray2<R> a; a.start = any2(); a.direction = unit2(); Ray2<R> b = a.cast<R>();
	eq(b.start, a.start, "cast start"); eq(b.direction, a.direction, "cast direction");
}
