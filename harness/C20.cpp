// C20: cubic segments.
#include "h.h"
typedef BezierSegment3<R> B; typedef HermiteSplineSegment3<R> S; typedef BezierSegmentFwdDiff3d F;

static V3 lin(const V3& a, R i, const V3& b, R j, const V3& c, R k, const V3& d, R l) { return add(add(mul(a, i), mul(b, j)), add(mul(c, k), mul(d, l))); }
static V3 bern(const V3& a, const V3& b, const V3& c, const V3& d, R t) { R u = 1 - t; return lin(a, u * u * u, b, 3 * t * u * u, c, 3 * t * t * u, d, t * t * t); }
static V3 dbern(const V3& a, const V3& b, const V3& c, const V3& d, R t) { R u = 1 - t; return mul(add(add(mul(sub(b, a), u * u), mul(sub(c, b), 2 * t * u)), mul(sub(d, c), t * t)), 3); }
static V3 ddbern(const V3& a, const V3& b, const V3& c, const V3& d, R t) { return mul(add(mul(add(sub(c, b), sub(a, b)), 1 - t), mul(add(sub(d, c), sub(b, c)), t)), 6); }

H h_bezier() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R t = vp_range(0, 1);
	B s(a, b, c, d);
	eq(s.p1(), a, "first control point"); eq(s.p2(), b, "second control point"); eq(s.p3(), c, "third control point"); eq(s.p4(), d, "fourth control point");
	eq(s.pointAt(t), bern(a, b, c, d, t), "Bernstein combination"); eq(s.tangentAt(t), dbern(a, b, c, d, t), "derivative");
	eq(s.pointAt(0), a, "starts at the first"); eq(s.pointAt(1), d, "ends at the last");
	eq(s.r1(), dbern(a, b, c, d, 0), "start tangent"); eq(s.r4(), dbern(a, b, c, d, 1), "end tangent");
	eq(s.tangentAt(0), s.r1(), "start tangent"); eq(s.tangentAt(1), s.r4(), "end tangent");
	B e; e.set(a, b, c, d); eq(e.pointAt(t), s.pointAt(t), "set"); eq(e.p2(), b, "set"); eq(e.p3(), c, "set");
	e.set(e.p4(), e.p3(), e.p2(), e.p1()); eq(e.pointAt(t), s.pointAt(1 - t), "reversed in place");
}
H h_bezier_basis() {
	R t = any(), u = 1 - t;
	vp_eq(B::hp1(t), u * u * u, "basis 1"); vp_eq(B::hp2(t), 3 * t * u * u, "basis 2"); vp_eq(B::hp3(t), 3 * t * t * u, "basis 3"); vp_eq(B::hp4(t), t * t * t, "basis 4");
	vp_eq(B::hp1(t) + B::hp2(t) + B::hp3(t) + B::hp4(t), 1, "basis sums to one");
	vp_eq(B::dhp1(t), -3 * u * u, "derivative 1"); vp_eq(B::dhp2(t), 3 * (1 - 4 * t + 3 * t * t), "derivative 2"); vp_eq(B::dhp3(t), 3 * (2 * t - 3 * t * t), "derivative 3"); vp_eq(B::dhp4(t), 3 * t * t, "derivative 4");
}
H h_hermite_basis() {
	R t = any(), q = t * t, c = q * t;
	vp_eq(S::hp1(t), 2 * c - 3 * q + 1, "basis p1"); vp_eq(S::hp4(t), 3 * q - 2 * c, "basis p4"); vp_eq(S::hr1(t), c - 2 * q + t, "basis r1"); vp_eq(S::hr4(t), c - q, "basis r4");
	vp_eq(S::dhp1(t), 6 * q - 6 * t, "derivative p1"); vp_eq(S::dhp4(t), 6 * t - 6 * q, "derivative p4"); vp_eq(S::dhr1(t), 3 * q - 4 * t + 1, "derivative r1"); vp_eq(S::dhr4(t), 3 * q - 2 * t, "derivative r4");
}
H h_hermite() {
	V3 p = any3(), q = any3(), r = any3(), v = any3(); R t = vp_range(0, 1);
	S s(p, q, r, v);
	eq(s.p1(), p, "start"); eq(s.p4(), q, "end"); eq(s.r1(), r, "start tangent"); eq(s.r4(), v, "end tangent");
	eq(s.pointAt(0), p, "starts at the first"); eq(s.pointAt(1), q, "ends at the last"); eq(s.tangentAt(0), r, "starts along its tangent"); eq(s.tangentAt(1), v, "ends along its tangent");
	V3 b = add(p, mul(r, 1.0 / 3)), c = sub(q, mul(v, 1.0 / 3));
	(void)b; (void)c;
	V3 three = mul(s.pointAt(t), 3), same = bern(mul(p, 3), add(mul(p, 3), r), sub(mul(q, 3), v), mul(q, 3), t);
	eq(three, same, "the Bezier segment with the same ends and tangents");
	eq(mul(s.tangentAt(t), 3), dbern(mul(p, 3), add(mul(p, 3), r), sub(mul(q, 3), v), mul(q, 3), t), "its derivative");
	S e; e.set(p, q, r, v); eq(e.pointAt(t), s.pointAt(t), "set");
	e.set(e.p4(), e.p1(), e.r4(), e.r1()); eq(e.p1(), q, "set from its own"); eq(e.p4(), p, "set from its own"); eq(e.r1(), v, "set from its own"); eq(e.r4(), r, "set from its own");
}
H h_convert() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R t = vp_range(0, 1);
	B s(a, b, c, d); S h(s.p1(), s.p4(), s.r1(), s.r4());
	eq(h.pointAt(t), s.pointAt(t), "Bezier to Hermite changes no point"); eq(h.tangentAt(t), s.tangentAt(t), "nor tangent");
}
H h_split() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R k = vp_range(0, 1), t = vp_range(0, 1);
	B s(a, b, c, d), x, y; s.split(k, x, y);
	eq(x.pointAt(t), bern(a, b, c, d, k * t), "first part"); eq(y.pointAt(t), bern(a, b, c, d, k + (1 - k) * t), "second part");
	eq(s.pointAt(t), bern(a, b, c, d, t), "the split one is unchanged");
	eq(x.p1(), a, "starts at the start"); eq(y.p4(), d, "ends at the end"); eq(x.p4(), y.p1(), "meet");
	B u(a, b, c, d), z; u.split(k, u, z); eq(u.pointAt(t), x.pointAt(t), "into itself, first part"); eq(z.pointAt(t), y.pointAt(t), "into itself, second part");
	B w(a, b, c, d); w.split(k, z, w); eq(z.pointAt(t), x.pointAt(t), "into itself, first part"); eq(w.pointAt(t), y.pointAt(t), "into itself, second part");
}
// bound: up to 24 steps
H h_forward() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R h = any();
	F f(a, b, c, d, h);
	for (int k = 0; k <= 24; ++k) {
		eq(f.currentPoint(), bern(a, b, c, d, k * h), "point of uniform subdivision"); eq(f.currentTangent(), dbern(a, b, c, d, k * h), "tangent of uniform subdivision");
		f.stepForward();
	}
}
H t_forward() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R h = any();
	F f(a, b, c, d, h);
	for (int k = 0; k <= 100; ++k) {
		eq(f.currentPoint(), bern(a, b, c, d, k * h), "point of uniform subdivision"); eq(f.currentTangent(), dbern(a, b, c, d, k * h), "tangent of uniform subdivision");
		f.stepForward();
	}
}
// bound: up to 4 chords
static void chords(int n) {
	V3 a = any3(), b = any3(), c = any3(), d = any3();
	R l = 0; V3 p = a;
	for (int k = 1; k <= n; ++k) { V3 q = k == n ? d : bern(a, b, c, d, (R)k / n), e = sub(q, p); l += std::sqrt(dot(e, e)); p = q; }
	vp_eq(B(a, b, c, d).length(n), l, "sum of the chords");
}
H h_length() { chords(1 + vp_choice(4)); }
H t_length() { chords(5 + vp_choice(4)); }
H h_length_default() {
	V3 a = any3(), e = any3(); R l = 0;
	l = std::sqrt(dot(e, e)) * 3;
	vp_eq(B(a, add(a, e), add(a, mul(e, 2)), add(a, mul(e, 3))).length(), l, "straight segment");
}
// the segment through p at t with derivative u and second derivative w there (third derivative k)
static B at(R t, V3 p, V3 u, V3 w, V3 k) {
	V3 a = add(sub(p, mul(u, t)), sub(mul(w, t * t / 2), mul(k, t * t * t / 6))), r = add(sub(u, mul(w, t)), mul(k, t * t / 2)), q = sub(w, mul(k, t));
	V3 b = add(a, mul(r, 1 / 3.0)), c = add(sub(mul(b, 2), a), mul(q, 1 / 6.0)), d = add(add(a, r), add(mul(q, 0.5), mul(k, 1 / 6.0)));
	return B(a, b, c, d);
}
H h_frame() {
	V3 a = any3(), b = any3(), c = any3(), d = any3(); R t = vp_range(0, 1);
	V3 u = dbern(a, b, c, d, t), w = ddbern(a, b, c, d, t), x = crs(u, w);
	M3 m; bool ok = B(a, b, c, d).frenetFrameAt(m, t);
	if (ok) {
		vp_eq(dot(m.y, m.y), 1, "unit tangent"); vp_eq(dot(m.x, m.x), 1, "unit binormal"); eq(crs(m.x, m.y), m.z, "right-handed"); vp_eq(dot(m.x, m.y), 0, "perpendicular");
		R l = std::sqrt(dot(u, u)), k = std::sqrt(dot(x, x)); eq(mul(m.y, l), u, "along the derivative"); eq(mul(m.x, k), x, "binormal");
	}
}
H h_frame_where() {
	V3 p = any3(), u = any3(), w = any3(), k = any3(); R t = vp_range(0, 1);
	V3 x = crs(u, w); B s = at(t, p, u, w, k);
	eq(s.tangentAt(t), u, "as constructed");
	M3 m; bool ok = s.frenetFrameAt(m, t);
	vp_check(ok | !(dot(x, x) > 0), "defined where the curve bends");
}
H h_frame_not() {
	V3 p = any3(), u = any3(), k = any3(); R t = vp_range(0, 1), f = any();
	PART(2);
	B s = part == 0 ? at(t, p, u, mul(u, f), k) : at(t, p, V3(0, 0, 0), u, k);
	M3 m; vp_check(!s.frenetFrameAt(m, t), "undefined where it does not bend");
}
