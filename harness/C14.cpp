// C14: centred boxes stand for the same sets as bound-based boxes.
#include "h.h"
typedef AABB2<R> B2; typedef AABB3<R> B3; typedef CAABB2<R> C2; typedef CAABB3<R> C3;
inline bool le(const V2& a, const V2& b) { return (a.x <= b.x) & (a.y <= b.y); }
inline bool le(const V3& a, const V3& b) { return (a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z); }
inline V2 anyv(V2*) { return any2(); }
inline V3 anyv(V3*) { return any3(); }
inline V2 ones(V2*) { return mk2(1, 1); }
inline V3 ones(V3*) { return mk3(1, 1, 1); }
inline R prod(const V2& v) { return v.x * v.y; }
inline R prod(const V3& v) { return v.x * v.y * v.z; }
inline R least(const V2& v) { return v.x < v.y ? v.x : v.y; }
inline R least(const V3& v) { R m = v.x < v.y ? v.x : v.y; return m < v.z ? m : v.z; }
inline V2 cm(const V2& a, const V2& b) { return mk2(a.x * b.x, a.y * b.y); }
inline V3 cm(const V3& a, const V3& b) { return mk3(a.x * b.x, a.y * b.y, a.z * b.z); }
struct D2 { typedef V2 V; typedef B2 B; typedef C2 C; enum { n = 2 };
	static R measure(const C& c) { return c.area(); }
	static Circle<R> inner(const C& c) { return c.innerCircle(); }
	static Circle<R> outer(const C& c) { return c.outerCircle(); }
};
struct D3 { typedef V3 V; typedef B3 B; typedef C3 C; enum { n = 3 };
	static R measure(const C& c) { return c.volume(); }
	static Sphere<R> inner(const C& c) { return c.innerSphere(); }
	static Sphere<R> outer(const C& c) { return c.outerSphere(); }
};
template <class D> typename D::C anyC() { typename D::C c; c.center = anyv((typename D::V*)0); c.extents = anyv((typename D::V*)0); return c; }
template <class D> typename D::C goodC() { typename D::C c = anyC<D>(); vp_assume(le(D::V::Zero, c.extents)); return c; }
template <class D> typename D::B goodB() { typename D::B b; b.inf = anyv((typename D::V*)0); b.sup = anyv((typename D::V*)0); vp_assume(le(b.inf, b.sup)); return b; }
// the set: at most extents away from the centre, on every axis
template <class C, class V> bool isIn(const C& c, const V& p) { V d = sub(p, c.center); return le(d, c.extents) & le(mul(d, -1), c.extents); }
template <class B, class V> bool isInB(const B& b, const V& p) { return le(b.inf, p) & le(p, b.sup); }

template <class D> void convert() {
	typedef typename D::C C; typedef typename D::B B; typedef typename D::V V;
	C c = anyC<D>();
	B b = B::from(c), b2; b2.set(c);
	eq(b.inf, sub(c.center, c.extents), "to bounds"); eq(b.sup, add(c.center, c.extents), "to bounds");
	eq(b2.inf, b.inf, "to bounds by set"); eq(b2.sup, b.sup, "to bounds by set");
	eq(c.inf(), b.inf, "inf"); eq(c.sup(), b.sup, "sup"); eq(c.size(), mul(c.extents, 2), "size");
	C d; d.set(b);
	eq(d.center, c.center, "there and back"); eq(d.extents, c.extents, "there and back");
	eq(D::measure(c), prod(sub(b.sup, b.inf)), "area or volume");
	V p = anyv((V*)0), s = anyv((V*)0);
	C k(p, s), l, m = C::from(p, s), z, y = C::from(p);
	l.set(p, s); z.set(p);
	eq(k.center, p, "constructor"); eq(k.extents, mul(s, 0.5), "constructor");
	eq(l.center, p, "set"); eq(l.extents, mul(s, 0.5), "set");
	eq(m.center, p, "from"); eq(m.extents, mul(s, 0.5), "from");
	eq(z.center, p, "one point"); eq(z.extents, V::Zero, "one point");
	eq(y.center, p, "from one point"); eq(y.extents, V::Zero, "from one point");
	V t = anyv((V*)0);
	eq(c.pointAt(t), add(c.center, cm(c.extents, t)), "pointAt");
}
H h_convert2() { convert<D2>(); }
H h_convert3() { convert<D3>(); }
// factories that differ between the dimensions
H h_fromInfSup() {
	V2 a = any2(), b = any2();
	C2 c = C2::fromInfSup(a, b);
	eq(c.center, mul(add(a, b), 0.5), "fromInfSup"); eq(c.extents, mul(sub(b, a), 0.5), "fromInfSup");
}
H h_from3() {
	B3 b; b.inf = any3(); b.sup = any3();
	C3 c = C3::from(b);
	eq(c.center, mul(add(b.inf, b.sup), 0.5), "from box"); eq(c.extents, mul(sub(b.sup, b.inf), 0.5), "from box");
}
// both parametrisations reach the same point: [-1,1] of the centred box is [0,1] of the other
template <class D> void param() {
	typedef typename D::V V;
	typename D::C c = anyC<D>();
	V t = anyv((V*)0), u = mul(add(t, ones((V*)0)), 0.5);
	eq(c.pointAt(t), D::B::from(c).pointAt(u), "parametrisations agree");
	vp_assume(le(V::Zero, c.extents) & le(t, ones((V*)0)) & le(mul(t, -1), ones((V*)0)));
	vp_check(c.contains(c.pointAt(t)), "points within [-1,1] inside");
}
H h_param2() { param<D2>(); }
H h_param3() { param<D3>(); }

template <class D> void compare() {
	typename D::C c = anyC<D>(), d = anyC<D>();
	PART(3);
	if (part == 1) d.center = c.center;
	if (part == 2) d.extents = c.extents;
	bool e = le(c.center, d.center) & le(d.center, c.center) & le(c.extents, d.extents) & le(d.extents, c.extents);
	if (part == 0) vp_check((c == d) == e, "equal");
	if (part != 0) vp_check((c != d) == !e, "not equal");
	vp_check(c == c && !(c != c), "equal to itself");
	bool z = le(c.extents, D::V::Zero) & le(D::V::Zero, c.extents);
	if (part == 1) vp_check(c.isNull() == z, "isNull");
}
//@ h_compare* deadline=90
H h_compare2() { compare<D2>(); }
H h_compare3() { compare<D3>(); }
H h_one() {
	eq(C2::One.inf(), B2::One.inf, "One 2D"); eq(C2::One.sup(), B2::One.sup, "One 2D");
	eq(C3::One.inf(), B3::One.inf, "One 3D"); eq(C3::One.sup(), B3::One.sup, "One 3D");
}

template <class D> void relations() {
	typedef typename D::V V;
	typename D::C a = goodC<D>(), b = goodC<D>();
	typename D::B A, B; A.inf = sub(a.center, a.extents); A.sup = add(a.center, a.extents); B.inf = sub(b.center, b.extents); B.sup = add(b.center, b.extents);
	PART(5);
	if (part == 0) { V p = anyv((V*)0); vp_check(a.contains(p) == isIn(a, p), "contains point"); }
	if (part == 1) { V p = anyv((V*)0); vp_check(a.contains(p) == isInB(A, p), "contains point like the bounds"); }
	if (part == 2) vp_check(a.contains(b) == (le(A.inf, B.inf) & le(B.sup, A.sup)), "contains box like the bounds");
	if (part == 3) vp_check(a.intersects(b) == (le(A.inf, B.sup) & le(B.inf, A.sup)), "intersects like the bounds");
	if (part == 4) vp_check(a.intersects(b) == A.intersects(B), "intersects like the bound-based boxes");
}
H h_relations2() { relations<D2>(); }
H h_relations3() { relations<D3>(); }
// from the sets alone, without the bounds
template <class D> void sets() {
	typedef typename D::V V;
	typename D::C a = goodC<D>(), b = goodC<D>();
	V p = anyv((V*)0);
	PART(2);
	if (part == 0) vp_check(!a.contains(b) | !isIn(b, p) | isIn(a, p), "points of a contained box");
	if (part == 1) vp_check(a.intersects(b) | !(isIn(a, p) & isIn(b, p)), "boxes sharing a point");
}
H h_sets2() { sets<D2>(); }
H h_sets3() { sets<D3>(); }
H h_containsSphere() {
	C3 c = goodC<D3>();
	Sphere<R> s; s.center = any3(); s.radius = any(); vp_assume(s.radius >= 0);
	bool in = true;
	for (int k = 0; k < 3; ++k) in = in & (comp(s.center, k) - s.radius >= comp(c.center, k) - comp(c.extents, k)) & (comp(s.center, k) + s.radius <= comp(c.center, k) + comp(c.extents, k));
	vp_check(c.contains(s) == in, "contains sphere");
}
template <class D> void balls() {
	typename D::C c = goodC<D>();
	auto i = D::inner(c); auto o = D::outer(c);
	eq(i.center, c.center, "inner centre"); eq(o.center, c.center, "outer centre");
	eq(i.radius, least(c.extents), "inner radius");
	vp_check(o.radius >= 0, "outer radius not negative");
	eq(o.radius * o.radius, dot(c.extents, c.extents), "outer radius reaches the corners");
}
H h_balls2() { balls<D2>(); }
H h_balls3() { balls<D3>(); }

template <class D> void moves() {
	typedef typename D::V V; typedef typename D::C C;
	C c = anyC<D>(), a = c;
	V t = anyv((V*)0);
	C p = c + t, m = c - t;
	eq(p.center, add(c.center, t), "plus"); eq(p.extents, c.extents, "plus");
	eq(m.center, sub(c.center, t), "minus"); eq(m.extents, c.extents, "minus");
	a += t; eq(a.center, p.center, "plus in place"); eq(a.extents, c.extents, "plus in place");
	a = c; a -= t; eq(a.center, m.center, "minus in place"); eq(a.extents, c.extents, "minus in place");
	a = c; a += a.center; eq(a.center, mul(c.center, 2), "plus own centre"); eq(a.extents, c.extents, "plus own centre");
	R k = any();
	C s = c * k; a = c; a *= k;
	eq(s.center, c.center, "times"); eq(s.extents, mul(c.extents, k), "times");
	eq(a.center, c.center, "times in place"); eq(a.extents, mul(c.extents, k), "times in place");
	auto B = D::B::from(c) * k;
	eq(B.inf, s.inf(), "scaled like the bounds"); eq(B.sup, s.sup(), "scaled like the bounds");
	vp_assume(k != 0);
	C q = c / k; a = c; a /= k;
	eq(q.center, c.center, "divided"); eq(q.extents, mul(c.extents, 1 / k), "divided");
	eq(a.center, c.center, "divided in place"); eq(a.extents, mul(c.extents, 1 / k), "divided in place");
}
H h_moves2() { moves<D2>(); }
H h_moves3() { moves<D3>(); }

// extension: the same box as extending the bounds
template <class D> void extend() {
	typedef typename D::V V; typedef typename D::C C;
	C c = goodC<D>(), e = c;
	V q = anyv((V*)0);
	vp_check(&e.add(q) == &e, "add returns the box");
	typename D::B b; b.inf = sub(c.center, c.extents); b.sup = add(c.center, c.extents);
	for (int k = 0; k < D::n; ++k) {
		R x = comp(q, k), lo = comp(b.inf, k), hi = comp(b.sup, k), a = comp(e.center, k) - comp(e.extents, k), z = comp(e.center, k) + comp(e.extents, k);
		vp_check((a <= x) & (a <= lo) & ((a == x) | (a == lo)), "extended lower bound");
		vp_check((z >= x) & (z >= hi) & ((z == x) | (z == hi)), "extended upper bound");
	}
}
H h_extend2() { extend<D2>(); }
H h_extend3() { extend<D3>(); }
H h_extendOwn() {
	C2 c = goodC<D2>(), e = c; e.add(e.center);
	eq(e.center, c.center, "adding the own centre"); eq(e.extents, c.extents, "adding the own centre");
	C3 d = goodC<D3>(), f = d; f.add(f.center);
	eq(f.center, d.center, "adding the own centre"); eq(f.extents, d.extents, "adding the own centre");
}
// bound: one to four points, contiguous and strided
template <class C, class V, int N> void points(const V* p) {
	int form = vp_choice(4), n = 1 + vp_choice(N);
	struct S { V v; int pad; } s[N];
	for (int i = 0; i < N; ++i) { s[i].v = p[i]; s[i].pad = 0; }
	C b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(S));
	if (form == 2) b = C::from(n, p);
	if (form == 3) b = C::from(n, &s[0].v, sizeof(S));
	int axis = vp_choice(sizeof(V) / sizeof(p->x));
	R a = comp(b.center, axis) - comp(b.extents, axis), z = comp(b.center, axis) + comp(b.extents, axis);
	bool all = true, lo = false, hi = false;
	for (int i = 0; i < n; ++i) {
		R x = comp(p[i], axis);
		all = all & (a <= x) & (x <= z);
		lo = lo | (a == x); hi = hi | (z == x);
	}
	vp_check(all, "box of points contains every point");
	vp_check(lo & hi, "box of points touches points on every side");
}
//@ h_points* maxpaths=20000
template <int N> void points2() {
	V2 p[N]; int k = vp_choice(2);
	for (int i = 0; i < N; ++i) { R a = any(); p[i] = k == 0 ? mk2(a, i * i - i) : mk2(i * i - i, a); }
	points<C2, V2, N>(p);
}
template <int N> void points3() {
	V3 p[N]; int k = vp_choice(3);
	for (int i = 0; i < N; ++i) { R a = any(); p[i] = k == 0 ? mk3(a, i * i - i, 1) : k == 1 ? mk3(1, a, i * i - i) : mk3(i * i - i, 1, a); }
	points<C3, V3, N>(p);
}
H h_points2_axis() { points2<4>(); }
H h_points3_axis() { points3<4>(); }
H h_points2() { V2 p[3]; for (int i = 0; i < 3; ++i) p[i] = any2(); points<C2, V2, 3>(p); }
H h_points3() { V3 p[2]; for (int i = 0; i < 2; ++i) p[i] = any3(); points<C3, V3, 2>(p); }
inline void put(V2& v, int k, R x) { if (k == 0) v.x = x; else v.y = x; }
inline void put(V3& v, int k, R x) { if (k == 0) v.x = x; else if (k == 1) v.y = x; else v.z = x; }
// bound: also five to twenty points, all fixed between -1/8 and 1/8 except one extreme on each side of each axis, at any three places
template <class BX, class V, int N> void manyPoints(int form) {
	const int dim = sizeof(V) / sizeof(R);
	int n = 5 + vp_choice(N - 4), w = N > 20 ? vp_choice(3) : n % 3, a = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
	struct T { V v; R pad; } s[N]; V p[N]; R hi[3], lo[3];
	for (int i = 0; i < n; ++i) for (int k = 0; k < dim; ++k) put(p[i], k, ((i * 5 + k * 3) % 9 - 4) / 32.0);
	for (int k = 0; k < dim; ++k) {
		hi[k] = vp_range(1, 64); lo[k] = vp_range(-64, -1);
		put(p[(a + k) % n], k, hi[k]); put(p[(a + k + 3) % n], k, lo[k]);
	}
	for (int i = 0; i < n; ++i) { s[i].v = p[i]; s[i].pad = 1000; }
	BX b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(T));
	if (form == 2) b = BX::from(n, p);
	if (form == 3) b = BX::from(n, &s[0].v, sizeof(T));
	for (int k = 0; k < dim; ++k) {
		vp_check(comp(b.center, k) - comp(b.extents, k) == lo[k], "box of many points, lower"); vp_check(comp(b.center, k) + comp(b.extents, k) == hi[k], "box of many points, upper");
	}
}
H h_many2_set() { manyPoints<C2, V2, 20>(0); }
H h_many2_setStride() { manyPoints<C2, V2, 20>(1); }
H h_many2_from() { manyPoints<C2, V2, 20>(2); }
H h_many2_fromStride() { manyPoints<C2, V2, 20>(3); }
H h_many3_set() { manyPoints<C3, V3, 20>(0); }
H h_many3_setStride() { manyPoints<C3, V3, 20>(1); }
H h_many3_from() { manyPoints<C3, V3, 20>(2); }
H h_many3_fromStride() { manyPoints<C3, V3, 20>(3); }
H t_many2_set() { manyPoints<C2, V2, 28>(0); }
H t_many2_setStride() { manyPoints<C2, V2, 28>(1); }
H t_many2_from() { manyPoints<C2, V2, 28>(2); }
H t_many2_fromStride() { manyPoints<C2, V2, 28>(3); }
H t_many3_set() { manyPoints<C3, V3, 28>(0); }
H t_many3_setStride() { manyPoints<C3, V3, 28>(1); }
H t_many3_from() { manyPoints<C3, V3, 28>(2); }
H t_many3_fromStride() { manyPoints<C3, V3, 28>(3); }
H t_points2_axis() { points2<6>(); }
H t_points3_axis() { points3<6>(); }
H t_points3() { V3 p[3]; for (int i = 0; i < 3; ++i) p[i] = any3(); points<C3, V3, 3>(p); }
H f_cast() {
	CAABB3<double> b; b.center = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); b.extents = Vec3<double>(vp_f64(), vp_f64(), vp_f64());
	CAABB3<float> c = b.cast<float>();
	vp_same32(c.center.x, (float)b.center.x, "cast"); vp_same32(c.center.y, (float)b.center.y, "cast"); vp_same32(c.center.z, (float)b.center.z, "cast");
	vp_same32(c.extents.x, (float)b.extents.x, "cast"); vp_same32(c.extents.y, (float)b.extents.y, "cast"); vp_same32(c.extents.z, (float)b.extents.z, "cast");
	CAABB2<float> d; d.center = Vec2<float>(vp_f32(), vp_f32()); d.extents = Vec2<float>(vp_f32(), vp_f32());
	CAABB2<double> e = d.cast<double>();
	vp_same64(e.center.x, d.center.x, "cast"); vp_same64(e.center.y, d.center.y, "cast"); vp_same64(e.extents.x, d.extents.x, "cast"); vp_same64(e.extents.y, d.extents.y, "cast");
}
