// C21: smooth cubic chains through given points.
// bound: 2 to 16 points (up to 33 with --thorough), arbitrary coordinates
#include "h.h"
typedef SplineSolver3<R> SS;

struct Chain { V3 k[34], k0[34], p2[34], p3[34]; int n;
	Chain(int n_) : n(n_) { for (int i = 0; i < n; ++i) { V3 p = any3(); k[i] = p; k0[i] = p; } } };
// neighbouring segments i-1 and i meet at point i with equal derivatives
static void joint(const Chain& c, int before, int i) {
	const V3 &p = c.k[i], &a = c.p2[before], &b = c.p3[before], &d = c.p2[i], &e = c.p3[i];
	eq(add(b, d), mul(p, 2), "first derivative agrees");
	eq(add(sub(a, mul(b, 2)), p), add(sub(p, mul(d, 2)), e), "second derivative agrees");
}
static void same(const Chain& c) { for (int i = 0; i < c.n; ++i) eq(c.k[i], c.k0[i], "input points unchanged"); }
static void natural(int n) {
	Chain c(n); bool ok = SS::naturalBezierSpline(n, c.k, c.p2, c.p3);
	vp_check(ok, "solved"); if (!ok) return;
	for (int i = 1; i < n - 1; ++i) joint(c, i - 1, i);
	eq(add(c.k[0], c.p3[0]), mul(c.p2[0], 2), "no curvature at the start");
	eq(add(c.k[n - 1], c.p2[n - 2]), mul(c.p3[n - 2], 2), "no curvature at the end");
	same(c);
}
static void clamped(int n) {
	Chain c(n); V3 s = any3(), e = any3(); bool ok = SS::bezierSpline(n, c.k, s, e, c.p2, c.p3);
	vp_check(ok, "solved"); if (!ok) return;
	for (int i = 1; i < n - 1; ++i) joint(c, i - 1, i);
	eq(c.p2[0], s, "start control as asked"); eq(c.p3[n - 2], e, "end control as asked"); same(c);
	c.p2[0] = s; c.p3[n - 2] = e;
	V3 q = n > 2 ? c.p2[1] : s;
	vp_check(SS::bezierSpline(n, c.k, c.p2[0], c.p3[n - 2], c.p2, c.p3), "solved"); eq(c.p2[0], s, "controls given in place"); eq(c.p3[n - 2], e, "controls given in place");
	if (n > 2) eq(c.p2[1], q, "controls given in place");
}
static void closed(int n) {
	Chain c(n); bool ok = SS::closedBezierSpline(n, c.k, c.p2, c.p3);
	vp_check(ok, "solved"); if (!ok) return;
	for (int i = 0; i < n; ++i) joint(c, (i + n - 1) % n, i);
	same(c);
}
H h_natural() { natural(2 + vp_choice(15)); }
H h_clamped() { clamped(2 + vp_choice(15)); }
H h_closed() { closed(2 + vp_choice(15)); }
H t_natural() { natural(17 + vp_choice(17)); }
H t_clamped() { clamped(17 + vp_choice(17)); }
H t_closed() { closed(17 + vp_choice(17)); }
// a segment of the chain runs between its two points
H h_passes() {
	PART(3); const int n = 3; Chain c(n); R t = vp_range(0, 1);
	bool ok;
	if (part == 0) ok = SS::naturalBezierSpline(n, c.k, c.p2, c.p3);
	else if (part == 1) { V3 s = any3(), e = any3(); ok = SS::bezierSpline(n, c.k, s, e, c.p2, c.p3); }
	else ok = SS::closedBezierSpline(n, c.k, c.p2, c.p3);
	vp_check(ok, "solved");
	BezierSegment3<R> a(c.k[0], c.p2[0], c.p3[0], c.k[1]), b(c.k[1], c.p2[1], c.p3[1], c.k[2]);
	eq(a.pointAt(1), c.k0[1], "reaches the point"); eq(b.pointAt(0), c.k0[1], "continues from the point"); eq(a.tangentAt(1), b.tangentAt(0), "smoothly");
	(void)t;
}
