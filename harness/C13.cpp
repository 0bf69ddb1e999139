// C13: bounding boxes as sets of points. The relations only compare numbers, so deciding them over
// the reals is exact for every finite float and double; f_ harnesses repeat some bit by bit.
#include "h.h"
typedef AABB2<R> B2; typedef AABB3<R> B3;

template <class T> T in();
template <> float in<float>() { return vp_f32(); }
template <> double in<double>() { return vp_real(); }
template <class T> Vec2<T> in2() { T a = in<T>(), b = in<T>(); return Vec2<T>(a, b); }
template <class T> Vec3<T> in3() { T a = in<T>(), b = in<T>(), c = in<T>(); return Vec3<T>(a, b, c); }
template <class T> bool le(const Vec2<T>& a, const Vec2<T>& b) { return (a.x <= b.x) & (a.y <= b.y); }
template <class T> bool le(const Vec3<T>& a, const Vec3<T>& b) { return (a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z); }
template <class T> bool same(const Vec2<T>& a, const Vec2<T>& b) { return (a.x == b.x) & (a.y == b.y); }
template <class T> bool same(const Vec3<T>& a, const Vec3<T>& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
// the set a box stands for
template <class B, class V> bool isIn(const B& b, const V& p) { return le(b.inf, p) & le(p, b.sup); }
template <class T> AABB2<T> inB2() { AABB2<T> b; b.inf = in2<T>(); b.sup = in2<T>(); vp_assume(le(b.inf, b.sup)); return b; }
template <class T> AABB3<T> inB3() { AABB3<T> b; b.inf = in3<T>(); b.sup = in3<T>(); vp_assume(le(b.inf, b.sup)); return b; }

template <class B, class V> void containsP(const B& b, const V& p) {
	vp_check(b.contains(p) == isIn(b, p), "contains point");
}
H f_contains2_f() { AABB2<float> b; b.inf = in2<float>(); b.sup = in2<float>(); containsP(b, in2<float>()); }
H h_contains2() { AABB2<double> b; b.inf = in2<double>(); b.sup = in2<double>(); containsP(b, in2<double>()); }
H f_contains3_f() { AABB3<float> b; b.inf = in3<float>(); b.sup = in3<float>(); containsP(b, in3<float>()); }
H h_contains3() { AABB3<double> b; b.inf = in3<double>(); b.sup = in3<double>(); containsP(b, in3<double>()); }

// a contains b: exactly when every point of b is in a (corners suffice one way, any point the other)
template <class B, class V> void containsB(const B& a, const B& b, const V& p) {
	bool c = a.contains(b);
	vp_check(!c | !isIn(b, p) | isIn(a, p), "contained box: all its points inside");
	vp_check(c | !(isIn(a, b.inf) & isIn(a, b.sup)), "box with both corners inside is contained");
	vp_check(a.contains(a), "box contains itself");
}
H h_containsBox2() { AABB2<double> a = inB2<double>(), b = inB2<double>(); containsB(a, b, in2<double>()); }
H h_containsBox3() { AABB3<double> a = inB3<double>(), b = inB3<double>(); containsB(a, b, in3<double>()); }

template <class V> V hi(const V& a, const V& b);
template <class T> Vec2<T> top(const Vec2<T>& a, const Vec2<T>& b) { Vec2<T> r; r.x = a.x > b.x ? a.x : b.x; r.y = a.y > b.y ? a.y : b.y; return r; }
template <class T> Vec3<T> top(const Vec3<T>& a, const Vec3<T>& b) { Vec3<T> r; r.x = a.x > b.x ? a.x : b.x; r.y = a.y > b.y ? a.y : b.y; r.z = a.z > b.z ? a.z : b.z; return r; }
template <class B, class V> void meet(const B& a, const B& b, const V& p) {
	PART(5);
	if (part == 4) { vp_check(B::fromIntersection(a, b) == B::fromIntersection(b, a), "intersection symmetric"); return; }
	bool c = a.intersects(b);
	if (part == 0) {
		V w = top(a.inf, b.inf);   // if any point is shared, this one is
		vp_check(!c | (isIn(a, w) & isIn(b, w)), "intersecting boxes share a point");
	}
	if (part == 1) vp_check(c | !(isIn(a, p) & isIn(b, p)), "boxes sharing a point intersect");
	if (part == 2) {
		vp_check(c == b.intersects(a), "intersects symmetric");
		vp_check(!a.contains(b) | c, "a contained box intersects");
	}
	if (part == 3) {
		B i = B::fromIntersection(a, b);
		if (c) vp_check(isIn(i, p) == (isIn(a, p) & isIn(b, p)), "intersection: exactly the shared points");
		else vp_check(i.isNull(), "intersection of disjoint boxes is null");
	}
}
//@ h_meet3 deadline=150
//@ h_union3 deadline=150
H h_meet2() { AABB2<double> a = inB2<double>(), b = inB2<double>(); meet(a, b, in2<double>()); }
H h_meet3() { AABB3<double> a = inB3<double>(), b = inB3<double>(); meet(a, b, in3<double>()); }

template <class B, class V> void unite(const B& a, const B& b, const B& c, const V& p) {
	PART(3);
	B u = B::fromUnion(a, b);
	if (part == 0) vp_check(!(isIn(a, p) | isIn(b, p)) | isIn(u, p), "union contains both");
	if (part == 1) {
		bool both = le(c.inf, a.inf) & le(a.sup, c.sup) & le(c.inf, b.inf) & le(b.sup, c.sup);
		vp_check(!both | (le(c.inf, u.inf) & le(u.sup, c.sup)), "union is the least box");
	}
	if (part == 2) vp_check(u == B::fromUnion(b, a), "union symmetric");
}
H h_union2() { AABB2<double> a = inB2<double>(), b = inB2<double>(), c = inB2<double>(); unite(a, b, c, in2<double>()); }
H h_union3() { AABB3<double> a = inB3<double>(), b = inB3<double>(), c = inB3<double>(); unite(a, b, c, in3<double>()); }

// extension by a point, also by one of the box's own corners
template <class B, class V> void extend(B a, const B& c, const V& q, const V& p) {
	B e = a;
	vp_check(&e.add(q) == &e, "add returns the box");
	vp_check((!isIn(a, p) & !same(p, q)) | isIn(e, p), "extension contains box and point");
	vp_check(!(le(c.inf, a.inf) & le(a.sup, c.sup) & isIn(c, q)) | (le(c.inf, e.inf) & le(e.sup, c.sup)), "extension is the least box");
	B s = a;
	s.add(s.inf); s.add(s.sup);
	vp_check(s == a && !(s != a), "adding own corners changes nothing");
}
H h_extend2() { AABB2<double> a = inB2<double>(), c = inB2<double>(); Vec2<double> q = in2<double>(); extend(a, c, q, in2<double>()); }
H h_extend3() { AABB3<double> a = inB3<double>(), c = inB3<double>(); Vec3<double> q = in3<double>(); extend(a, c, q, in3<double>()); }

// bound: point sets of one to four (2D) or three (3D) points, contiguous and strided, one axis at a time
template <class B, class V, int N> void points(const V* p) {
	int form = vp_choice(4), n = 1 + vp_choice(N);
	struct S { V v; int pad; } s[N];
	for (int i = 0; i < N; ++i) { s[i].v = p[i]; s[i].pad = 0; }
	B b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(S));
	if (form == 2) b = B::from(n, p);
	if (form == 3) b = B::from(n, &s[0].v, sizeof(S));
	int axis = vp_choice(sizeof(V) / sizeof(p->x));
	bool all = true, lo = false, hi = false;
	for (int i = 0; i < n; ++i) {
		R x = comp(p[i], axis);
		all = all & (comp(b.inf, axis) <= x) & (x <= comp(b.sup, axis));
		lo = lo | (comp(b.inf, axis) == x); hi = hi | (comp(b.sup, axis) == x);
	}
	vp_check(all, "box of points contains every point");
	vp_check(lo & hi, "box of points touches points on every side");
}
//@ h_points* maxpaths=20000
// the other axes are concrete, so that only one axis branches
template <int N> void points2() {
	Vec2<double> p[N]; int k = vp_choice(2);
	for (int i = 0; i < N; ++i) { R a = any(); p[i] = k == 0 ? mk2(a, i * i - i) : mk2(i * i - i, a); }
	points<AABB2<double>, Vec2<double>, N>(p);
}
template <int N> void points3() {
	Vec3<double> p[N]; int k = vp_choice(3);
	for (int i = 0; i < N; ++i) { R a = any(); p[i] = k == 0 ? mk3(a, i * i - i, 1) : k == 1 ? mk3(1, a, i * i - i) : mk3(i * i - i, 1, a); }
	points<AABB3<double>, Vec3<double>, N>(p);
}
H h_points2_axis() { points2<4>(); }
H h_points3_axis() { points3<4>(); }
H h_points2() { Vec2<double> p[3]; for (int i = 0; i < 3; ++i) p[i] = any2(); points<AABB2<double>, Vec2<double>, 3>(p); }
H h_points3() { Vec3<double> p[2]; for (int i = 0; i < 2; ++i) p[i] = any3(); points<AABB3<double>, Vec3<double>, 2>(p); }
H t_points2() { Vec2<double> p[4]; for (int i = 0; i < 4; ++i) p[i] = any2(); points<AABB2<double>, Vec2<double>, 4>(p); }
H t_points3() { Vec3<double> p[3]; for (int i = 0; i < 3; ++i) p[i] = any3(); points<AABB3<double>, Vec3<double>, 3>(p); }
H t_points2_axis() { points2<6>(); }
H t_points3_axis() { points3<6>(); }

inline void put(V2& v, int k, R x) { if (k == 0) v.x = x; else v.y = x; }
inline void put(V3& v, int k, R x) { if (k == 0) v.x = x; else if (k == 1) v.y = x; else v.z = x; }
// bound: also five to twenty points, all fixed between -1/8 and 1/8 except one extreme on each side of each axis, at any three places
template <class BX, class V, int N> void manyPoints(int form) {
	const int dim = sizeof(V) / sizeof(R);
	int n = 5 + vp_choice(N - 4), w = N > 20 ? vp_choice(3) : n % 3, a = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
	struct T { V v; R pad; } s[N]; V p[N]; R hi[3], lo[3];
	for (int i = 0; i < n; ++i) for (int k = 0; k < dim; ++k) put(p[i], k, ((i * 5 + k * 3) % 9 - 4) / 32.0);
	for (int k = 0; k < dim; ++k) {
		hi[k] = vp_range(1, 64); lo[k] = vp_range(-64, -1);
		put(p[(a + k) % n], k, hi[k]); put(p[(a + k + 3) % n], k, lo[k]);
	}
	for (int i = 0; i < n; ++i) { s[i].v = p[i]; s[i].pad = 1000; }
	BX b;
	if (form == 0) b.set(n, p);
	if (form == 1) b.set(n, &s[0].v, sizeof(T));
	if (form == 2) b = BX::from(n, p);
	if (form == 3) b = BX::from(n, &s[0].v, sizeof(T));
	for (int k = 0; k < dim; ++k) {
		vp_check(comp(b.inf, k) == lo[k], "box of many points, lower"); vp_check(comp(b.sup, k) == hi[k], "box of many points, upper");
	}
}
H h_many2_set() { manyPoints<B2, V2, 20>(0); }
H h_many2_setStride() { manyPoints<B2, V2, 20>(1); }
H h_many2_from() { manyPoints<B2, V2, 20>(2); }
H h_many2_fromStride() { manyPoints<B2, V2, 20>(3); }
H h_many3_set() { manyPoints<B3, V3, 20>(0); }
H h_many3_setStride() { manyPoints<B3, V3, 20>(1); }
H h_many3_from() { manyPoints<B3, V3, 20>(2); }
H h_many3_fromStride() { manyPoints<B3, V3, 20>(3); }
H t_many2_set() { manyPoints<B2, V2, 28>(0); }
H t_many2_setStride() { manyPoints<B2, V2, 28>(1); }
H t_many2_from() { manyPoints<B2, V2, 28>(2); }
H t_many2_fromStride() { manyPoints<B2, V2, 28>(3); }
H t_many3_set() { manyPoints<B3, V3, 28>(0); }
H t_many3_setStride() { manyPoints<B3, V3, 28>(1); }
H t_many3_from() { manyPoints<B3, V3, 28>(2); }
H t_many3_fromStride() { manyPoints<B3, V3, 28>(3); }
// construction, comparison, constants
template <class B, class V> void build(const V& a, const V& b, const V& d) {
	B x(a, b), y, z = B::from(a, b);
	y.set(a, b);
	vp_check(same(x.inf, a) & same(x.sup, b), "constructor");
	vp_check(same(y.inf, a) & same(y.sup, b), "set");
	vp_check(same(z.inf, a) & same(z.sup, b), "from");
	vp_check(x == y && !(x != y), "equal boxes compare equal");
	B p, q = B::from(d);
	p.set(d);
	vp_check(same(p.inf, d) & same(p.sup, d) & same(q.inf, d) & same(q.sup, d), "box of one point");
	vp_check(p.isNull(), "one point is null");
	bool ab = same(a, b);
	vp_check(x.isNull() == ab, "isNull");
	B w(a, d), v(d, b);
	bool bd = same(b, d), ad = same(a, d);
	vp_check((x == w) == bd && (x != w) == !bd, "comparison of the upper corner");
	vp_check((x == v) == ad && (x != v) == !ad, "comparison of the lower corner");
	// corners given in either place may be the box's own
	B s(a, b);
	s.set(s.inf, s.inf);
	vp_check(same(s.inf, a) & same(s.sup, a), "set from own corner");
	s = x; s.set(s.sup);
	vp_check(same(s.inf, b) & same(s.sup, b), "set to own corner point");
	vp_check(B::Zero.isNull() && isIn(B::Zero, V::Zero), "Zero");
}
H f_build2() { Vec2<float> a = in2<float>(), b = in2<float>(), d = in2<float>(); build<AABB2<float>>(a, b, d); }
H f_build3() { Vec3<float> a = in3<float>(), b = in3<float>(), d = in3<float>(); build<AABB3<float>>(a, b, d); }
H h_build3() { Vec3<double> a = in3<double>(), b = in3<double>(), d = in3<double>(); build<AABB3<double>>(a, b, d); }
H f_one() {
	AABB2<float> a = AABB2<float>::One; AABB3<float> b = AABB3<float>::One;
	vp_check(a.inf.x == -0.5f && a.inf.y == -0.5f && a.sup.x == 0.5f && a.sup.y == 0.5f, "One 2D");
	vp_check(b.inf.x == -0.5f && b.inf.y == -0.5f && b.inf.z == -0.5f && b.sup.x == 0.5f && b.sup.y == 0.5f && b.sup.z == 0.5f, "One 3D");
}
H f_cast() {
	AABB3<double> b; b.inf = Vec3<double>(vp_f64(), vp_f64(), vp_f64()); b.sup = Vec3<double>(vp_f64(), vp_f64(), vp_f64());
	AABB3<float> c = b.cast<float>();
	vp_same32(c.inf.x, (float)b.inf.x, "cast"); vp_same32(c.inf.y, (float)b.inf.y, "cast"); vp_same32(c.inf.z, (float)b.inf.z, "cast");
	vp_same32(c.sup.x, (float)b.sup.x, "cast"); vp_same32(c.sup.y, (float)b.sup.y, "cast"); vp_same32(c.sup.z, (float)b.sup.z, "cast");
	AABB2<float> d; d.inf = in2<float>(); d.sup = in2<float>();
	AABB2<double> e = d.cast<double>();
	vp_same64(e.inf.x, d.inf.x, "cast"); vp_same64(e.inf.y, d.inf.y, "cast"); vp_same64(e.sup.x, d.sup.x, "cast"); vp_same64(e.sup.y, d.sup.y, "cast");
}

// measures, translation and scaling over the reals
inline V2 anyv(V2*) { return any2(); }
inline V3 anyv(V3*) { return any3(); }
inline R prod(const V2& v) { return v.x * v.y; }
inline R prod(const V3& v) { return v.x * v.y * v.z; }
inline V2 fma_(const V2& a, const V2& b, const V2& t) { return mk2(a.x + (b.x - a.x) * t.x, a.y + (b.y - a.y) * t.y); }
inline V3 fma_(const V3& a, const V3& b, const V3& t) { return mk3(a.x + (b.x - a.x) * t.x, a.y + (b.y - a.y) * t.y, a.z + (b.z - a.z) * t.z); }
inline R least(const V2& v) { return v.x < v.y ? v.x : v.y; }
inline R least(const V3& v) { R m = v.x < v.y ? v.x : v.y; return m < v.z ? m : v.z; }
inline B2 anyB(V2*) { B2 b; b.inf = any2(); b.sup = any2(); return b; }
inline B3 anyB(V3*) { B3 b; b.inf = any3(); b.sup = any3(); return b; }
inline R measure(const B2& b) { return b.area(); }
inline R measure(const B3& b) { return b.volume(); }
inline Circle<R> inner(const B2& b) { return b.innerCircle(); }
inline Sphere<R> inner(const B3& b) { return b.innerSphere(); }
inline Circle<R> outer(const B2& b) { return b.outerCircle(); }
inline Sphere<R> outer(const B3& b) { return b.outerSphere(); }

template <class V> void measures() {
	auto b = anyB((V*)0);
	V c = mul(add(b.inf, b.sup), 0.5), e = mul(sub(b.sup, b.inf), 0.5);
	eq(b.center(), c, "center"); eq(b.extents(), e, "extents"); eq(b.size(), sub(b.sup, b.inf), "size");
	eq(measure(b), prod(sub(b.sup, b.inf)), "area or volume");
	V t = anyv((V*)0);
	eq(b.pointAt(t), fma_(b.inf, b.sup, t), "pointAt");
}
H h_measures2() { measures<V2>(); }
H h_measures3() { measures<V3>(); }

template <class V> void balls() {
	auto b = anyB((V*)0);
	vp_assume(le(b.inf, b.sup));
	V c = mul(add(b.inf, b.sup), 0.5), e = mul(sub(b.sup, b.inf), 0.5);
	auto i = inner(b); auto o = outer(b);
	eq(i.center, c, "inner centre"); eq(o.center, c, "outer centre");
	eq(i.radius, least(e), "inner radius");
	vp_check(o.radius >= 0, "outer radius not negative");
	eq(o.radius * o.radius, dot(e, e), "outer radius reaches the corners");
}
H h_balls2() { balls<V2>(); }
H h_balls3() { balls<V3>(); }
// a sphere is contained in a box exactly when it reaches over no side
H h_containsSphere() {
	B3 b = anyB((V3*)0); vp_assume(le(b.inf, b.sup));
	Sphere<R> s; s.center = any3(); s.radius = any(); vp_assume(s.radius >= 0);
	bool in = true;
	for (int k = 0; k < 3; ++k) in = in & (comp(s.center, k) - s.radius >= comp(b.inf, k)) & (comp(s.center, k) + s.radius <= comp(b.sup, k));
	vp_check(b.contains(s) == in, "contains sphere");
	if (b.contains(s)) { V3 d = unit3(); vp_check(isIn(b, add(s.center, mul(d, s.radius))), "surface of a contained sphere"); }
}

template <class V> void moves() {
	auto b = anyB((V*)0); auto a = b;
	V t = anyv((V*)0), lo = b.inf, hi = b.sup, alo = add(lo, t), ahi = add(hi, t), slo = sub(lo, t), shi = sub(hi, t);
	auto p = b + t, q = b - t;
	eq(p.inf, alo, "plus"); eq(p.sup, ahi, "plus"); eq(q.inf, slo, "minus"); eq(q.sup, shi, "minus");
	eq(b.inf, lo, "operand unchanged"); eq(b.sup, hi, "operand unchanged");
	a += t; eq(a.inf, alo, "plus in place"); eq(a.sup, ahi, "plus in place");
	a = b; a -= t; eq(a.inf, slo, "minus in place"); eq(a.sup, shi, "minus in place");
}
H h_moves2() { moves<V2>(); }
H h_moves3() { moves<V3>(); }
// the moved vector is the box's own corner
template <class V> void movesOwn() {
	auto b = anyB((V*)0); auto a = b;
	V lo = b.inf, hi = b.sup;
	auto p = b + b.sup; eq(p.inf, add(lo, hi), "plus own corner"); eq(p.sup, add(hi, hi), "plus own corner");
	a -= V(hi); eq(a.inf, sub(lo, hi), "minus corner copy"); eq(a.sup, sub(hi, hi), "minus corner copy");
}
H h_own2() { movesOwn<V2>(); }
H h_own3() { movesOwn<V3>(); }
template <class V> void scales() {
	auto b = anyB((V*)0); auto a = b;
	R k = any();
	V c = mul(add(b.inf, b.sup), 0.5), e = mul(sub(b.sup, b.inf), 0.5);
	V lo = sub(c, mul(e, k)), hi = add(c, mul(e, k));
	auto p = b * k; eq(p.inf, lo, "times"); eq(p.sup, hi, "times");
	a *= k; eq(a.inf, lo, "times in place"); eq(a.sup, hi, "times in place");
	a = b; a.scaleCentered(k); eq(a.inf, lo, "scaleCentered"); eq(a.sup, hi, "scaleCentered");
	vp_assume(k != 0);
	V ql = sub(c, mul(e, 1 / k)), qh = add(c, mul(e, 1 / k));
	auto q = b / k; eq(q.inf, ql, "divided"); eq(q.sup, qh, "divided");
	a = b; a /= k; eq(a.inf, ql, "divided in place"); eq(a.sup, qh, "divided in place");
}
H h_scales2() { scales<V2>(); }
H h_scales3() { scales<V3>(); }
