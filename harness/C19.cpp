// C19: triangle and frustum containment.
#include "h.h"
typedef Frustum<R> F; typedef Sphere<R> S;
// no loss of generality: with a non-degenerate triangle every point is a + u (b-a) + v (c-a)
H h_triangle() {
	V2 a = any2(), e = any2(), f = any2(); R u = any(), v = any();
	vp_assume(e.x * f.y - e.y * f.x != 0);
	Tri2<R> t = Tri2<R>::from(a, add(a, e), add(a, f));
	eq(t.a, a, "corner a"); eq(t.b, add(a, e), "corner b"); eq(t.c, add(a, f), "corner c");
	V2 p = add(a, add(mul(e, u), mul(f, v)));
	vp_check(t.contains(p) == ((u >= 0) & (v >= 0) & (u + v <= 1)), "exactly the convex combinations");
}
H h_triangleOrder() {
	V2 a = any2(), b = any2(), c = any2(), p = any2();
	Tri2<R> t = Tri2<R>::from(a, b, c);
	PART(3);
	bool r = t.contains(p);
	if (part == 0) vp_check(Tri2<R>::from(b, c, a).contains(p) == r, "turning the corners changes nothing");
	if (part == 1) vp_check(Tri2<R>::from(a, c, b).contains(p) == r, "swapping corners changes nothing");
	if (part == 2) vp_check(t.contains(a) && t.contains(b) && t.contains(c), "contains its corners");
}
H h_triangleCompare() {
	Tri2<R> s, t; s.a = any2(); s.b = any2(); s.c = any2(); t = s;
	vp_check(s == t && !(s != t), "equal");
	PART(3);
	V2 d = any2(); vp_assume(dot(d, d) > 0);
	if (part == 0) t.a = add(t.a, d);
	if (part == 1) t.b = add(t.b, d);
	if (part == 2) t.c = add(t.c, d);
	vp_check(!(s == t) && s != t, "a different corner");
}
inline R sd(const Plane<R>& p, const V3& q) { return dot(p.normal, q) - p.d; }
inline F anyF() { F f; for (int i = 0; i < 6; ++i) { f.planes[i].normal = any3(); f.planes[i].d = any(); } for (int i = 0; i < 8; ++i) f.corners[i] = mk3(i, 1, 2); return f; }
H h_point() {
	F f = anyF(); V3 p = any3(); bool in = true;
	for (int i = 0; i < 6; ++i) in = in & (sd(f.planes[i], p) <= 0);
	vp_check(f.contains(p) == in, "contains point");
	PART(2);
	if (part == 1) { R w = any(); vp_assume(w != 0);
		V4 q = mk4(p.x, p.y, p.z, 1); vp_check(f.contains(q) == in, "contains homogeneous point"); }
}
H h_sphere() {
	F f = anyF(); S s; s.center = any3(); s.radius = any(); vp_assume(s.radius >= 0);
	bool in = true, near = true;
	for (int i = 0; i < 6; ++i) { R d = sd(f.planes[i], s.center); in = in & (d <= -s.radius); near = near & (d <= s.radius); }
	PART(2);
	if (part == 0) vp_check(f.contains(s) == in, "contains sphere");
	else vp_check(f.intersects(s) == near, "intersects sphere");
}
// one plane at a time: a sphere sharing a point with the inner half space is never rejected, and the whole
// of a contained sphere is inside. No loss of generality: the shared point is centre + r (cos n + sin m), m perpendicular to n.
H h_shared() {
	F f; for (int i = 0; i < 6; ++i) { f.planes[i].normal = mk3(0, 0, 0); f.planes[i].d = 1e30; }
	V3 x, y, z; rotCols(x, y, z); V2 a = unit2(); int k = vp_choice(6);
	f.planes[k].normal = x; f.planes[k].d = any();
	S s; s.center = any3(); s.radius = vp_range(0, 1e6); R r = any(); vp_assume((r >= 0) & (r <= s.radius));
	V3 q = add(s.center, mul(add(mul(x, a.x), mul(y, a.y)), r));
	PART(2);
	if (part == 0) vp_check(f.intersects(s) | !(sd(f.planes[k], q) <= 0), "a sphere sharing a point is not rejected");
	if (part == 1) vp_check(!f.contains(s) | (sd(f.planes[k], q) <= 0), "every point of a contained sphere is inside");
}
// a view volume: near rectangle [l,r]x[b,t] at z=-n, far rectangle [L,R]x[B,T] at z=-f
struct Volume {
	R l, r, b, t, L, U, B, T, n, f;
	V3 c[8];
	Volume() {
		l = any(); r = l + positive(); b = any(); t = b + positive(); L = any(); U = L + positive(); B = any(); T = B + positive(); n = any(); f = n + positive();
		c[0] = mk3(r, t, -n); c[1] = mk3(r, b, -n); c[2] = mk3(l, b, -n); c[3] = mk3(l, t, -n);
		c[4] = mk3(U, T, -f); c[5] = mk3(U, B, -f); c[6] = mk3(L, B, -f); c[7] = mk3(L, T, -f);
	}
	// the point at the fraction s of the depth, x and y the offsets from the right and the top, or the left and the bottom
	bool in(R s, R x, R y) const {
		return (s >= 0) & (s <= 1) & (x <= r + (U - r) * s) & (x >= l + (L - l) * s) & (y <= t + (T - t) * s) & (y >= b + (B - b) * s);
	}
};
H h_volume() {
	Volume v; F f(v.c);
	R s = any(), x = any(), y = any();
	V3 p = mk3(x, y, -(v.n + (v.f - v.n) * s));
	vp_check(f.contains(p) == v.in(s, x, y), "exactly the points of the view volume");
}
H h_volumeCorners() {
	Volume v; F f; f.set(v.c);
	for (int i = 0; i < 8; ++i) eq(f.corners[i], v.c[i], "corners kept");
	int i = vp_choice(8);
	for (int k = 0; k < 6; ++k) { vp_le(sd(f.planes[k], v.c[i]), 0, "no corner outside"); eq(dot(f.planes[k].normal, f.planes[k].normal), 1, "unit normals"); }
}
// moved by a matrix
static const R CUBE[8][3] = { {2,1,-1}, {2,-1,-1}, {-1,-1,-1}, {-1,1,-1}, {5,3,-7}, {5,-3,-7}, {-4,-3,-7}, {-4,3,-7} };
static void moved(int form) {
	V3 c[8]; for (int i = 0; i < 8; ++i) c[i] = mk3(CUBE[i][0], CUBE[i][1], CUBE[i][2]);
	R k = 0.25;   // bound: matrices with one free column and any translation
	int free = vp_choice(3);
	V3 x = free == 0 ? any3() : mk3(1, k, 0), y = free == 1 ? any3() : mk3(0, 1, -k), z = free == 2 ? any3() : mk3(k, k, 2), t = any3();
	F f;
	if (form == 0) f.set(M34(x, y, z, t), c); else f.set(M4(x, y, z, t), c);
	for (int i = 0; i < 8; ++i) eq(f.corners[i], add(add(mul(x, c[i].x), mul(y, c[i].y)), add(mul(z, c[i].z), t)), "corners moved");
}
H h_moved34() { moved(0); }
H h_moved4() { moved(1); }
static void movedVolume(int form) {   // planes follow the moved corners
	V3 c[8], w[8], t = any3();
	for (int i = 0; i < 8; ++i) { c[i] = mk3(CUBE[i][0], CUBE[i][1], CUBE[i][2]); w[i] = add(mk3(-c[i].y, c[i].x, c[i].z), t); }
	F f, g(w);
	if (form == 0) f.set(M34(V3::OneY, mk3(-1, 0, 0), V3::OneZ, t), c);
	else f.set(M4(V3::OneY, mk3(-1, 0, 0), V3::OneZ, t), c);
	for (int k = 0; k < 6; ++k) { eq(f.planes[k].normal, g.planes[k].normal, "planes of the moved corners"); eq(f.planes[k].d, g.planes[k].d, "planes of the moved corners"); }
	R a = any(), b = any(), s = any(); V3 p = add(mk3(-b, a, -(1 + 6 * s)), t);
	vp_check(f.contains(p) == ((s >= 0) & (s <= 1) & (a <= 2 + 3 * s) & (a >= -1 - 3 * s) & (b <= 1 + 2 * s) & (b >= -1 - 2 * s)), "points of the moved volume");
}
H h_movedVolume34() { movedVolume(0); }
H h_movedVolume4() { movedVolume(1); }
H f_cast() {
	Frustum<double> f; for (int i = 0; i < 8; ++i) f.corners[i] = Vec3<double>(i, 2, 3); for (int i = 0; i < 6; ++i) { f.planes[i].normal = Vec3<double>(i, 5, 6); f.planes[i].d = i; }
	int k = vp_choice(8), j = vp_choice(6); f.corners[k] = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); f.planes[j].normal.y = vp_f64(); f.planes[j].d = vp_f64();
	Frustum<float> g = f.cast<float>();
	for (int i = 0; i < 8; ++i) { vp_same32(g.corners[i].x, (float)f.corners[i].x, "cast"); vp_same32(g.corners[i].z, (float)f.corners[i].z, "cast"); }
	for (int i = 0; i < 6; ++i) { vp_same32(g.planes[i].normal.x, (float)f.planes[i].normal.x, "cast"); vp_same32(g.planes[i].normal.y, (float)f.planes[i].normal.y, "cast"); vp_same32(g.planes[i].d, (float)f.planes[i].d, "cast"); }
}
H f_triangleCast() {
	R v[6]; for (int i = 0; i < 6; ++i) v[i] = vp_f64();
	Tri2<float> t = Tri2<R>::from(mk2(v[0], v[1]), mk2(v[2], v[3]), mk2(v[4], v[5])).cast<float>();
	vp_same32(t.a.x, (float)v[0], "cast"); vp_same32(t.a.y, (float)v[1], "cast"); vp_same32(t.b.x, (float)v[2], "cast"); vp_same32(t.b.y, (float)v[3], "cast"); vp_same32(t.c.x, (float)v[4], "cast"); vp_same32(t.c.y, (float)v[5], "cast");
}
