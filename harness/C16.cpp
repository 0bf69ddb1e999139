// C16: circles and spheres as sets of points, bounding, segment tests.
#include "h.h"
struct D2 { typedef V2 V; typedef Circle<R> S; enum { n = 2 };
	static bool hits(const S& s, V& h, R& t, const V& a, const V& b, R az, R bz) { return s.hits(h, t, line(a, b, az, bz)); }
	static bool cross(const S& s, V& h, R& t, const V& a, const V& b, R az, R bz) { return s.intersects(h, t, line(a, b, az, bz)); }
	static bool cross(const S& s, const V& a, const V& b, R az, R bz) { return s.intersects(line(a, b, az, bz)); }
	static Line3<R> line(const V& a, const V& b, R az, R bz) { Line3<R> l; l.start = mk3(a.x, a.y, az); l.end = mk3(b.x, b.y, bz); return l; }
};
struct D3 { typedef V3 V; typedef Sphere<R> S; enum { n = 3 };
	static bool hits(const S& s, V& h, R& t, const V& a, const V& b, R, R) { return s.hits(h, t, line(a, b)); }
	static bool cross(const S& s, V& h, R& t, const V& a, const V& b, R, R) { return s.intersects(h, t, line(a, b)); }
	static bool cross(const S& s, const V& a, const V& b, R, R) { return s.intersects(line(a, b)); }
	static Line3<R> line(const V& a, const V& b) { Line3<R> l; l.start = a; l.end = b; return l; }
};
inline V2 anyv(V2*) { return any2(); }
inline V3 anyv(V3*) { return any3(); }
template <class D> typename D::S anyS() { typename D::S s; s.center = anyv((typename D::V*)0); s.radius = any(); vp_assume(s.radius >= 0); return s; }
template <class V> R dist2(const V& a, const V& b) { V d = sub(a, b); return dot(d, d); }

template <class D> void contains() {
	typedef typename D::V V;
	typename D::S s = anyS<D>();
	V p = anyv((V*)0);
	vp_check(s.contains(p) == (dist2(p, s.center) <= s.radius * s.radius), "contains point");
}
H h_contains2() { contains<D2>(); }
H h_contains3() { contains<D3>(); }
// one in the other: exactly when centre distance plus inner radius does not exceed the outer radius
template <class D> void containsS() {
	typedef typename D::V V;
	typename D::S a = anyS<D>(), b = anyS<D>();
	R d = a.radius - b.radius;
	vp_check(a.contains(b) == ((d >= 0) & (dist2(a.center, b.center) <= d * d)), "contains circle or sphere");
}
H h_containsS2() { containsS<D2>(); }
H h_containsS3() { containsS<D3>(); }
// and from the points: along any direction u the far point of b is in a
template <class V> V unitv();
template <> V2 unitv<V2>() { return unit2(); }
template <> V3 unitv<V3>() { return unit3(); }
template <class D> void farPoint() {
	typedef typename D::V V;
	// no loss of generality: the distance between the centres is m >= 0 along a unit vector w
	V w = unitv<V>(); R m = any(); vp_assume(m >= 0);
	typename D::S a = anyS<D>(), b; b.center = add(a.center, mul(w, m)); b.radius = any(); vp_assume(b.radius >= 0);
	V p = add(b.center, mul(w, b.radius));
	bool c = a.contains(b);
	vp_check(c == ((m + b.radius) <= a.radius), "contained exactly when the farthest point is inside");
	vp_check(!c | a.intersects(b), "a contained one intersects");
	vp_check(!c | (dist2(p, a.center) <= a.radius * a.radius), "the farthest point of a contained one is inside");
}
H h_farPoint2() { farPoint<D2>(); }
H h_farPoint3() { farPoint<D3>(); }

template <class D> void meet() {
	typedef typename D::V V;
	typename D::S a = anyS<D>(), b = anyS<D>();
	R r = a.radius + b.radius;
	bool c = a.intersects(b);
	vp_check(c == (dist2(a.center, b.center) <= r * r), "intersects");
	PART(2);
	if (part == 0) vp_check(b.intersects(a) == c, "intersects symmetric");
	if (part == 1) { V h; R t; vp_check(a.intersects(h, t, b) == c, "both forms agree"); }
}
H h_meet2() { meet<D2>(); }
H h_meet3() { meet<D3>(); }
template <class D> void meetPoint() {
	typedef typename D::V V;
	V w = unitv<V>(); R m = positive();
	typename D::S a = anyS<D>(), b; b.center = add(a.center, mul(w, m)); b.radius = any(); vp_assume(b.radius >= 0);
	V h; R t;
	if (a.intersects(h, t, b)) {
		eq(t, a.radius + b.radius - m, "penetration depth");
		eq(h, sub(b.center, mul(w, b.radius)), "point of the other surface towards this centre");
		vp_check(t >= 0, "depth not negative");
	}
	else vp_check(m > a.radius + b.radius, "apart");
}
H h_meetPoint2() { meetPoint<D2>(); }
H h_meetPoint3() { meetPoint<D3>(); }

// Segment from p along f: with A = f.f, B = f.(p-c), C = |p-c|^2 - r^2 the point at s has
// A (|p + s f - c|^2 - r^2) = (A s + B)^2 - (B^2 - A C).
// No loss of generality in 3D: f lies along the first column of a rotation and p-c in the plane of the first two.
inline void pair(V2& f, V2& e) { f = any2(); e = any2(); }
inline void pair(V3& f, V3& e) {
	V3 x, y, z; rotCols(x, y, z);
	R m = any(), b = any(), d = any(); vp_assume(m >= 0);
	f = mul(x, m); e = add(mul(x, b), mul(y, d));
}
template <class D> void seg(int form) {
	typedef typename D::V V;
	typename D::S s = anyS<D>();
	V f, e; pair(f, e);
	V p = add(s.center, e), q = add(p, f);
	R z0 = any(), z1 = any();
	R A = dot(f, f), B = dot(f, e), C = dot(e, e) - s.radius * s.radius, E = B * B - A * C;
	V h; R t; bool r;
	if (form == 0) r = D::hits(s, h, t, p, q, z0, z1);
	if (form == 1) r = D::cross(s, h, t, p, q, z0, z1);
	if (form == 2) r = D::cross(s, p, q, z0, z1);
	if (r) {
		vp_check(A > 0, "no hit on a null segment");
		vp_check(C >= 0, "the segment does not start inside");
		vp_check(E >= 0, "the carrier reaches the shape");
		vp_check(B <= 0, "the segment approaches");
		// entry parameter (-B - sqrt(E)) / A <= 1: the nearest point is passed, or the end is inside
		vp_check((A + B >= 0) | (A + 2 * B + C <= 0), "entered before the end");
		if (form < 2) {
			vp_check((t >= 0) & (t <= 1), "parameter within the segment");
			eq(h, add(p, mul(f, t)), "hit point is the point at the parameter");
			eq(dist2(add(p, mul(f, t)), s.center), s.radius * s.radius, "hit on the surface");
			vp_check(A * t + B <= 0, "first of the two surface points");
		}
	}
	else {
		// starting outside and entering needs E >= 0, B < 0 and the nearest point passed or the end inside
		vp_check((C <= 0) | (A == 0) | (E < 0) | (B > 0) | ((A + B < 0) & (A + 2 * B + C > 0)), "missed segment does not enter");
	}
}
//@ h_seg* biglim=4 deadline=90
H h_seg2_hits() { seg<D2>(0); }
H h_seg2_point() { seg<D2>(1); }
H h_seg2() { seg<D2>(2); }
H h_seg3_hits() { seg<D3>(0); }
H h_seg3_point() { seg<D3>(1); }
H h_seg3() { seg<D3>(2); }

template <class D> void build() {
	typedef typename D::V V; typedef typename D::S S;
	V c = anyv((V*)0); R r = any(); vp_assume(r >= 0);
	S a(c, r), b, d = S::from(c, r); b.set(c, r);
	eq(a.center, c, "constructor"); eq(a.radius, r, "constructor");
	eq(b.center, c, "set"); eq(b.radius, r, "set");
	eq(d.center, c, "from"); eq(d.radius, r, "from");
	const S& k = a;
	for (int i = 0; i < D::n; ++i) { eq(k.data()[i], comp(c, i), "data"); eq(a.data()[i], comp(c, i), "data"); }
	eq(k.data()[D::n], r, "data"); eq(a.data()[D::n], r, "data");
	vp_check(a == b && !(a != b), "equal");
	V t = anyv((V*)0);
	S p = a + t, m = a - t, q = a;
	eq(p.center, add(c, t), "plus"); eq(p.radius, r, "plus");
	eq(m.center, sub(c, t), "minus"); eq(m.radius, r, "minus");
	q += t; eq(q.center, add(c, t), "plus in place"); eq(q.radius, r, "plus in place");
	q = a; q -= t; eq(q.center, sub(c, t), "minus in place"); eq(q.radius, r, "minus in place");
	q = a; q += q.center; eq(q.center, mul(c, 2), "plus own centre"); eq(q.radius, r, "plus own centre");
	R x = positive();
	S u = a * x, v = a / x;
	eq(u.center, c, "times"); eq(u.radius, r * x, "times");
	eq(v.center, c, "divided"); eq(v.radius, r / x, "divided");
	q = a; q *= x; eq(q.center, c, "times in place"); eq(q.radius, r * x, "times in place");
	q = a; q /= x; eq(q.center, c, "divided in place"); eq(q.radius, r / x, "divided in place");
	eq(S::One.center, V::Zero, "One"); eq(S::One.radius, 1, "One");
}
H h_build2() { build<D2>(); }
H h_build3() { build<D3>(); }
template <class D> void compare() {
	typename D::S a = anyS<D>(), b = anyS<D>();
	PART(3);
	if (part == 1) b.center = a.center;
	if (part == 2) b.radius = a.radius;
	bool e = a.radius == b.radius;
	for (int i = 0; i < D::n; ++i) e = e & (comp(a.center, i) == comp(b.center, i));
	if (part != 1) vp_check((a == b) == e, "equal");
	if (part != 0) vp_check((a != b) == !e, "not equal");
}
H h_compare2() { compare<D2>(); }
H h_compare3() { compare<D3>(); }

// bound: one to three points (2D), one or two (3D) in the quick tier, contiguous and strided
template <class D, int N> void points(int form) {
	typedef typename D::V V; typedef typename D::S S;
	int n = 1 + vp_choice(N);
	V p[N]; struct T { V v; R pad; } s[N];
	for (int i = 0; i < N; ++i) { p[i] = anyv((V*)0); s[i].v = p[i]; s[i].pad = 0; }
	S b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(T));
	if (form == 2) b = S::from(n, p);
	if (form == 3) b = S::from(n, &s[0].v, sizeof(T));
	R r2 = b.radius * b.radius;
	bool all = true, touch = false;
	for (int i = 0; i < n; ++i) { R d = dist2(p[i], b.center); all = all & (d <= r2); touch = touch | (d == r2); }
	vp_check(b.radius >= 0, "radius not negative");
	vp_check(all, "bounding shape contains every point");
	vp_check(touch, "bounding shape reaches a point");
	if (n == 1) { eq(b.center, p[0], "one point is its own bound"); eq(b.radius, 0, "one point is its own bound"); }
}
// more points: some of the coordinates at fixed values, each in turn
// bound: up to three points in space with one coordinate fixed, four in the plane or in space along each axis with the others fixed
inline void put(V2& v, int k, R x) { if (k == 0) v.x = x; else v.y = x; }
inline void put(V3& v, int k, R x) { if (k == 0) v.x = x; else if (k == 1) v.y = x; else v.z = x; }
template <class D, int N, int F> void points_fixed(int form) {
	typedef typename D::V V; typedef typename D::S S;
	static const R at[3][4] = {{1, -2, 3, 0}, {-3, 2, 1, 0}, {0, 2, -1, 1}};
	PART(D::n);
	V p[N]; struct T { V v; R pad; } s[N];
	for (int i = 0; i < N; ++i) {
		for (int k = 0; k < D::n; ++k) { bool fr = F == 1 ? k == part : k != part; put(p[i], k, fr ? any() : at[k][i]); }
		s[i].v = p[i]; s[i].pad = 0; }
	S b;
	if (form == 0) b.set(N, p); else b.set(N, &s[0].v, sizeof(T));
	R r2 = b.radius * b.radius;
	bool all = true, touch = false;
	for (int i = 0; i < N; ++i) { R d = dist2(p[i], b.center); all = all & (d <= r2); touch = touch | (d == r2); }
	vp_check(b.radius >= 0, "radius not negative");
	vp_check(all, "bounding shape contains every point");
	vp_check(touch, "bounding shape reaches a point");
}
// bound: also five to twenty points, all fixed between -1/8 and 1/8 except one, anywhere between 1 and 64 away along one axis
template <class D, int N> void manyPoints(int form) {
	typedef typename D::V V; typedef typename D::S S;
	int n = 5 + vp_choice(N - 4), w = vp_choice(3), a = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
	struct T { V v; R pad; } s[N]; V p[N];
	for (int i = 0; i < n; ++i) for (int k = 0; k < D::n; ++k) put(p[i], k, ((i * 5 + k * 3) % 9 - 4) / 32.0);
	R x = vp_range(1, 64);
	put(p[a], (n + w) % D::n, n % 2 ? x : -x);
	for (int i = 0; i < n; ++i) { s[i].v = p[i]; s[i].pad = 1000; }
	S b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(T));
	if (form == 2) b = S::from(n, p);
	if (form == 3) b = S::from(n, &s[0].v, sizeof(T));
	R r2 = b.radius * b.radius;
	bool all = true, touch = false;
	for (int i = 0; i < n; ++i) { R d = dist2(p[i], b.center); all = all & (d <= r2); touch = touch | (d == r2); }
	vp_check(b.radius >= 0, "radius not negative");
	vp_check(all, "bounding shape contains every point");
	vp_check(touch, "bounding shape reaches a point");
}
H h_many2_set() { manyPoints<D2, 20>(0); }
H h_many2_setStride() { manyPoints<D2, 20>(1); }
H h_many2_from() { manyPoints<D2, 20>(2); }
H h_many2_fromStride() { manyPoints<D2, 20>(3); }
H h_many3_set() { manyPoints<D3, 20>(0); }
H h_many3_setStride() { manyPoints<D3, 20>(1); }
H h_many3_from() { manyPoints<D3, 20>(2); }
H h_many3_fromStride() { manyPoints<D3, 20>(3); }
H h_pointsFix3_set() { points_fixed<D3, 3, 2>(0); }
H h_pointsFix3_setStride() { points_fixed<D3, 3, 2>(1); }
H h_pointsFix3_set4() { points_fixed<D3, 4, 1>(0); }
H h_pointsFix3_setStride4() { points_fixed<D3, 4, 1>(1); }
H h_pointsFix2_set4() { points_fixed<D2, 4, 1>(0); }
H h_pointsFix2_setStride4() { points_fixed<D2, 4, 1>(1); }
//@ h_points* maxpaths=20000 deadline=90
H h_points2_set() { points<D2, 3>(0); }
H h_points2_setStride() { points<D2, 3>(1); }
H h_points2_from() { points<D2, 2>(2); }
H h_points2_fromStride() { points<D2, 2>(3); }
H h_points3_set() { points<D3, 2>(0); }
H h_points3_setStride() { points<D3, 2>(1); }
H h_points3_from() { points<D3, 2>(2); }
H h_points3_fromStride() { points<D3, 2>(3); }
H t_points3_set() { points<D3, 3>(0); }
H t_points3_setStride() { points<D3, 3>(1); }
H t_points2_set() { points<D2, 4>(0); }
H t_points2_setStride() { points<D2, 4>(1); }
H f_cast() {
	Sphere<double> b; b.center = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); b.radius = vp_f64(); vp_assume(b.radius >= 0);
	Sphere<float> c = b.cast<float>();
	vp_same32(c.center.x, (float)b.center.x, "cast"); vp_same32(c.center.y, (float)b.center.y, "cast"); vp_same32(c.center.z, (float)b.center.z, "cast"); vp_same32(c.radius, (float)b.radius, "cast");
	Circle<float> d; d.center = Vec2<float>(vp_f32(), vp_f32()); d.radius = vp_f32(); vp_assume(d.radius >= 0);
	Circle<double> e = d.cast<double>();
	vp_same64(e.center.x, d.center.x, "cast"); vp_same64(e.center.y, d.center.y, "cast"); vp_same64(e.radius, d.radius, "cast");
}
