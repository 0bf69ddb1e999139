// C15: rays and segments against boxes.
// No loss of generality: on an axis where the direction d is not zero, a bound is start + a d for exactly one a.
#include "h.h"
typedef AABB2<R> B2; typedef AABB3<R> B3;
inline void setc(V2& v, int k, R x) { (k == 0 ? v.x : v.y) = x; }
inline void setc(V3& v, int k, R x) { (k == 0 ? v.x : k == 1 ? v.y : v.z) = x; }
struct D2 { typedef V2 V; typedef B2 B; typedef Ray2<R> Ray; typedef Line2<R> Line; enum { n = 2 }; };
struct D3 { typedef V3 V; typedef B3 B; typedef Ray3<R> Ray; typedef Line3<R> Line; enum { n = 3 }; };
const R BIG = 1e300;   // bound: parameters at which the path crosses a side are below 1e300
template <class D> struct Scene {
	typename D::B b; typename D::V start, dir;
	bool par[3], slab[3]; R a[3], z[3];
	// mode of axis k: 0 parallel, 1 forward, 2 backward; 3, 4 the same through a box of no thickness
	void axis(int k, int mode) {
		R s = any(), d = 0, lo, hi;
		par[k] = mode == 0; slab[k] = true; a[k] = z[k] = 0;
		if (mode == 0) { lo = any(); hi = any(); vp_assume(lo <= hi); slab[k] = (lo <= s) & (s <= hi); open[k] = (lo < s) & (s < hi); }
		else {
			bool fwd = mode & 1;
			d = fwd ? positive() : -positive();
			a[k] = any(); z[k] = mode > 2 ? a[k] : any();
			vp_assume((a[k] >= -BIG) & (z[k] <= BIG));
			if (mode <= 2) vp_assume(a[k] < z[k]);
			lo = s + (fwd ? a[k] : z[k]) * d; hi = s + (fwd ? z[k] : a[k]) * d;
			open[k] = (a[k] < 0) & (0 < z[k]);
		}
		setc(start, k, s); setc(dir, k, d); setc(b.inf, k, lo); setc(b.sup, k, hi);
	}
	bool open[3];
	bool in(R s) const { bool r = true; for (int k = 0; k < D::n; ++k) r = r & (par[k] ? slab[k] : (a[k] <= s) & (s <= z[k])); return r; }
	bool inside() const { bool r = true; for (int k = 0; k < D::n; ++k) r = r & open[k]; return r; }
	bool enters(R t) const { bool r = false; for (int k = 0; k < D::n; ++k) r = r | (!par[k] & (t == a[k])); return r; }
	bool leaves(R t) const { bool r = false; for (int k = 0; k < D::n; ++k) r = r | (!par[k] & (t == z[k])); return r; }
	bool still() const { bool r = true; for (int k = 0; k < D::n; ++k) r = r & par[k]; return r; }
	typename D::Ray ray() const { typename D::Ray r; r.start = start; r.direction = dir; return r; }
	typename D::Line line() const { typename D::Line l; l.start = start; l.end = add(start, dir); return l; }
};
// the parametrisation above is that of the path itself
template <class D> void meaning() {
	Scene<D> c; for (int k = 0; k < D::n; ++k) c.axis(k, vp_choice(D::n == 2 ? 5 : 3));
	R s = any();
	vp_check(c.b.contains(c.ray().pointAt(s)) == c.in(s), "point of the ray in the box");
	if (vp_choice(2)) vp_check(c.b.contains(c.line().pointAt(s)) == c.in(s), "point of the line in the box");
}
H h_meaning2() { meaning<D2>(); }
//@ h_meaning3 cost=50
H h_meaning3() { meaning<D3>(); }

template <class D> void rayCross(const Scene<D>& c) {
	R t1, t2, s = any(); vp_assume((s >= 0) & (s <= BIG));
	bool r = c.b.intersects(t1, t2, c.ray());
	vp_check(r | !c.in(s), "missed ray has no point in the box");
	if (r) {
		vp_check((t1 >= 0) & (t1 <= t2), "parameters ordered and not negative");
		vp_check(c.in(t1), "first point in the box");
		vp_check(!c.in(s) | ((t1 <= s) & (s <= t2)), "every point in the box is between the parameters");
		if (!c.still()) {
			vp_check(c.in(t2), "last point in the box");
			vp_check((t1 == 0) | c.enters(t1), "first point on the surface or the start");
			vp_check(c.leaves(t2), "last point on the surface");
		}
	}
}
template <class D> void rayHit(const Scene<D>& c) {
	R t, s = any(); vp_assume((s >= 0) & (s <= BIG));
	bool r = c.b.hits(t, c.ray());
	if (r & !c.still()) {
		vp_check(t >= 0, "hit not behind the start");
		vp_check(c.in(t), "hit in the box");
		vp_check(c.enters(t), "hit on the surface");
		vp_check(!c.in(s) | (s >= t), "no earlier point in the box");
	}
	vp_check(r | c.in(0) | !c.in(s), "ray from outside that reaches the box hits it");
	if (!c.still()) vp_check(!r | !c.inside(), "ray from inside enters nothing");
}
template <class D> void lineCross(const Scene<D>& c) {
	R t1, t2, s = any(); vp_assume((s >= 0) & (s <= 1));
	bool r = c.b.intersects(t1, t2, c.line());
	vp_check(r | !c.in(s), "missed line has no point in the box");
	if (r) {
		vp_check((t1 >= 0) & (t1 <= t2) & (t2 <= 1), "parameters ordered and within the line");
		vp_check(c.in(t1) & c.in(t2), "first and last point in the box");
		vp_check(!c.in(s) | ((t1 <= s) & (s <= t2)), "every point in the box is between the parameters");
		vp_check((t1 == 0) | c.enters(t1), "first point on the surface or the start");
		vp_check((t2 == 1) | c.leaves(t2), "last point on the surface or the end");
	}
}
template <class D> void lineHit(const Scene<D>& c) {
	R t, s = any(); vp_assume((s >= 0) & (s <= 1));
	bool r = c.b.hits(t, c.line());
	if (r & !c.still()) {
		vp_check((t >= 0) & (t <= 1), "hit within the line");
		vp_check(c.in(t), "hit in the box");
		vp_check(c.enters(t), "hit on the surface");
		vp_check(!c.in(s) | (s >= t), "no earlier point in the box");
	}
	vp_check(r | c.in(0) | !c.in(s), "line from outside that reaches the box hits it");
	if (!c.still()) vp_check(!r | !c.inside(), "line from inside enters nothing");
}
#define SCENE2 Scene<D2> c; c.axis(0, vp_choice(5)); c.axis(1, vp_choice(5));
#define SCENE3(ym, zm) Scene<D3> c; c.axis(0, vp_choice(3)); c.axis(1, ym); c.axis(2, zm);
//@ * cost=20
H h_rayCross2() { SCENE2 rayCross(c); }
H h_rayHit2() { SCENE2 rayHit(c); }
H h_lineCross2() { SCENE2 lineCross(c); }
H h_lineHit2() { SCENE2 lineHit(c); }
#define THREE(f) H h_##f##3_flat() { SCENE3(vp_choice(3), 0) f(c); } H h_##f##3_up() { SCENE3(vp_choice(2), 1) f(c); } H h_##f##3_down() { SCENE3(vp_choice(2), 2) f(c); } \
	H h_##f##3_thin() { Scene<D3> c; int k = vp_choice(3); for (int i = 0; i < 3; ++i) c.axis(i, i == k ? 3 + vp_choice(2) : vp_choice(2)); f(c); } \
	H h_##f##3_upback() { SCENE3(2, 1) f(c); } H h_##f##3_downback() { SCENE3(2, 2) f(c); }
THREE(rayCross)
THREE(rayHit)
THREE(lineCross)
THREE(lineHit)
