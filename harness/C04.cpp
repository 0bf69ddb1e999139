// C04: component selection, min, max, clamp: bit-exact over all finite floats and doubles.
#include "h.h"

template <class T> T in();
template <> float in<float>() { return vp_f32(); }
template <> double in<double>() { return vp_f64(); }
inline void same(float a, float b, const char* l) { vp_same32(a, b, l); }
inline void same(double a, double b, const char* l) { vp_same64(a, b, l); }
inline float fab(float x) { return fabsf(x); }
inline double fab(double x) { return fabs(x); }

template <class T> void coord2() {
	T x = in<T>(), y = in<T>();
	Vec2<T> u(x, y);
	T ax = fab(x), ay = fab(y);
	Coord M = u.majorCoord(), m = u.minorCoord();
	vp_check(M == Coord::X || M == Coord::Y, "majorCoord valid");
	vp_check(m == Coord::X || m == Coord::Y, "minorCoord valid");
	vp_check(M == Coord::X ? ax >= ay : ay >= ax, "majorCoord greatest");
	vp_check(m == Coord::X ? ax <= ay : ay <= ax, "minorCoord least");
}
H f_coord2_f() { coord2<float>(); }
H f_coord2_d() { coord2<double>(); }

template <class T> void coord3() {
	T x = in<T>(), y = in<T>(), z = in<T>();
	Vec3<T> u(x, y, z);
	T ax = fab(x), ay = fab(y), az = fab(z);
	Coord M = u.majorCoord(), m = u.minorCoord();
	vp_check(M == Coord::X || M == Coord::Y || M == Coord::Z, "majorCoord valid");
	vp_check(m == Coord::X || m == Coord::Y || m == Coord::Z, "minorCoord valid");
	T g = M == Coord::X ? ax : M == Coord::Y ? ay : az;
	T s = m == Coord::X ? ax : m == Coord::Y ? ay : az;
	vp_check(g >= ax && g >= ay && g >= az, "majorCoord greatest");
	vp_check(s <= ax && s <= ay && s <= az, "minorCoord least");
}
H f_coord3_f() { coord3<float>(); }
H f_coord3_d() { coord3<double>(); }

template <class T> void scalar() {
	T a = in<T>(), b = in<T>();
	T lo = mathlib::min(a, b), hi = mathlib::max(a, b);
	vp_check(lo <= a && lo <= b && (lo == a || lo == b), "min");
	vp_check(hi >= a && hi >= b && (hi == a || hi == b), "max");
	T v = in<T>();
	T p = a <= b ? a : b, q = a <= b ? b : a;
	T c = clippedBetween(v, p, q);
	same(c, v < p ? p : v > q ? q : v, "clippedBetween");
	same(mathlib::abs(v), v < 0 ? -v : v, "abs");
	vp_check(mathlib::abs(v) >= 0, "abs not negative");
}
H f_scalar_f() { scalar<float>(); }
H f_scalar_d() { scalar<double>(); }

template <class T> void vecs() {
	T a = in<T>(), b = in<T>(), c = in<T>(), d = in<T>();
	T e = in<T>(), f = in<T>(), g = in<T>(), h = in<T>();
	Vec4<T> l4 = Vec4<T>::min(Vec4<T>(a, b, c, d), Vec4<T>(e, f, g, h)), h4 = Vec4<T>::max(Vec4<T>(a, b, c, d), Vec4<T>(e, f, g, h));
	Vec3<T> l3 = Vec3<T>::min(Vec3<T>(a, b, c), Vec3<T>(e, f, g)), h3 = Vec3<T>::max(Vec3<T>(a, b, c), Vec3<T>(e, f, g));
	Vec2<T> l2 = Vec2<T>::min(Vec2<T>(a, b), Vec2<T>(e, f)), h2 = Vec2<T>::max(Vec2<T>(a, b), Vec2<T>(e, f));
	T lx = a < e ? a : e, ly = b < f ? b : f, lz = c < g ? c : g, lw = d < h ? d : h;
	T hx = a > e ? a : e, hy = b > f ? b : f, hz = c > g ? c : g, hw = d > h ? d : h;
	same(l4.x, lx, "Vec4 min"); same(l4.y, ly, "Vec4 min"); same(l4.z, lz, "Vec4 min"); same(l4.w, lw, "Vec4 min");
	same(h4.x, hx, "Vec4 max"); same(h4.y, hy, "Vec4 max"); same(h4.z, hz, "Vec4 max"); same(h4.w, hw, "Vec4 max");
	same(l3.x, lx, "Vec3 min"); same(l3.y, ly, "Vec3 min"); same(l3.z, lz, "Vec3 min");
	same(h3.x, hx, "Vec3 max"); same(h3.y, hy, "Vec3 max"); same(h3.z, hz, "Vec3 max");
	same(l2.x, lx, "Vec2 min"); same(l2.y, ly, "Vec2 min");
	same(h2.x, hx, "Vec2 max"); same(h2.y, hy, "Vec2 max");
}
H f_vecs_f() { vecs<float>(); }
H f_vecs_d() { vecs<double>(); }

H f_ints() {
	int a = vp_int(-2147483647, 2147483647), b = vp_int(-2147483647, 2147483647), v = vp_int(-2147483647, 2147483647);
	int lo = mathlib::min(a, b), hi = mathlib::max(a, b);
	vp_check(lo <= a && lo <= b && (lo == a || lo == b), "min");
	vp_check(hi >= a && hi >= b && (hi == a || hi == b), "max");
	int p = a <= b ? a : b, q = a <= b ? b : a;
	vp_eqi(clippedBetween(v, p, q), v < p ? p : v > q ? q : v, "clippedBetween");
}
H f_next() {
	int k = vp_choice(3);
	vp_check(next3D(coord(k)) == coord((k + 1) % 3), "next3D");
	if (k < 2) vp_check(next2D(coord(k)) == coord((k + 1) % 2), "next2D");
}
