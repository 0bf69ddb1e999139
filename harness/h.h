// Shared helpers of the harnesses. R is the scalar of the exact-real harnesses.
#pragma once
#include "vp.h"
#include <cmath>
#include <mathlib.h>
using namespace mathlib;
typedef double R;
typedef Vec2<R> V2; typedef Vec3<R> V3; typedef Vec4<R> V4;
typedef Mat2<R> M2; typedef Mat3<R> M3; typedef Mat4<R> M4; typedef Mat34<R> M34;
typedef Quat<R> Q;
#define H extern "C" void
#define SQ(x) ((x)*(x))

inline R any() { return vp_real(); }
inline V2 any2() { R a = vp_real(), b = vp_real(); return V2(a, b); }
inline V3 any3() { R a = vp_real(), b = vp_real(), c = vp_real(); return V3(a, b, c); }
inline V4 any4() { R a = vp_real(), b = vp_real(), c = vp_real(), d = vp_real(); return V4(a, b, c, d); }
inline V2 unit2() { R p[2]; vp_unit(p, 2); return V2(p[0], p[1]); }
inline V3 unit3() { R p[3]; vp_unit(p, 3); return V3(p[0], p[1], p[2]); }
inline R nonzero() { R k = vp_real(); vp_assume(k != 0); return k; }
inline R positive() { R k = vp_real(); vp_assume(k > 0); return k; }

inline void eq(R a, R b, const char* l) { vp_eq(a, b, l); }
inline void eq(const V2& a, const V2& b, const char* l) { vp_eq(a.x, b.x, l); vp_eq(a.y, b.y, l); }
inline void eq(const V3& a, const V3& b, const char* l) { vp_eq(a.x, b.x, l); vp_eq(a.y, b.y, l); vp_eq(a.z, b.z, l); }
inline void eq(const V4& a, const V4& b, const char* l) { vp_eq(a.x, b.x, l); vp_eq(a.y, b.y, l); vp_eq(a.z, b.z, l); vp_eq(a.w, b.w, l); }
inline void eq2(const V2& a, R x, R y, const char* l) { vp_eq(a.x, x, l); vp_eq(a.y, y, l); }
inline void eq3(const V3& a, R x, R y, R z, const char* l) { vp_eq(a.x, x, l); vp_eq(a.y, y, l); vp_eq(a.z, z, l); }
inline void eq4(const V4& a, R x, R y, R z, R w, const char* l) { vp_eq(a.x, x, l); vp_eq(a.y, y, l); vp_eq(a.z, z, l); vp_eq(a.w, w, l); }

// plain formulas, written without the library
inline R dot(const V2& a, const V2& b) { return a.x * b.x + a.y * b.y; }
inline R dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 crs(const V3& a, const V3& b) { V3 r; r.x = a.y * b.z - a.z * b.y; r.y = a.z * b.x - a.x * b.z; r.z = a.x * b.y - a.y * b.x; return r; }
inline V2 mk2(R x, R y) { V2 r; r.x = x; r.y = y; return r; }
inline V3 mk3(R x, R y, R z) { V3 r; r.x = x; r.y = y; r.z = z; return r; }
inline V4 mk4(R x, R y, R z, R w) { V4 r; r.x = x; r.y = y; r.z = z; r.w = w; return r; }
inline V3 mul(const V3& a, R k) { return mk3(a.x * k, a.y * k, a.z * k); }
inline V2 mul(const V2& a, R k) { return mk2(a.x * k, a.y * k); }
inline V3 add(const V3& a, const V3& b) { return mk3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V2 add(const V2& a, const V2& b) { return mk2(a.x + b.x, a.y + b.y); }
inline V3 sub(const V3& a, const V3& b) { return mk3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V2 sub(const V2& a, const V2& b) { return mk2(a.x - b.x, a.y - b.y); }
inline Coord coord(int k) { return k == 0 ? Coord::X : k == 1 ? Coord::Y : k == 2 ? Coord::Z : Coord::W; }
inline R comp(const V3& v, int k) { return k == 0 ? v.x : k == 1 ? v.y : v.z; }
inline R comp(const V2& v, int k) { return k == 0 ? v.x : v.y; }
inline V3 axis3(int k) { return mk3(k == 0, k == 1, k == 2); }

// matrices from columns, through the public constructors
inline M2 anyM2() { V2 a = any2(), b = any2(); return M2(a, b); }
inline M3 anyM3() { V3 a = any3(), b = any3(), c = any3(); return M3(a, b, c); }
inline M34 anyM34() { V3 a = any3(), b = any3(), c = any3(), t = any3(); return M34(a, b, c, t); }
inline M4 anyTrs() { V3 a = any3(), b = any3(), c = any3(), t = any3(); return M4(a, b, c, t); }
inline M4 anyM4() { V4 a = any4(), b = any4(), c = any4(), t = any4(); return M4(a, b, c, t); }
// any rotation: the columns of a unit quaternion's matrix
inline void rotCols(V3& x, V3& y, V3& z) {
	R a[4]; vp_unit(a, 4);
	x = mk3(1 - 2 * (a[1] * a[1] + a[2] * a[2]), 2 * (a[0] * a[1] + a[2] * a[3]), 2 * (a[0] * a[2] - a[1] * a[3]));
	y = mk3(2 * (a[0] * a[1] - a[2] * a[3]), 1 - 2 * (a[0] * a[0] + a[2] * a[2]), 2 * (a[1] * a[2] + a[0] * a[3]));
	z = mk3(2 * (a[0] * a[2] + a[1] * a[3]), 2 * (a[1] * a[2] - a[0] * a[3]), 1 - 2 * (a[0] * a[0] + a[1] * a[1]));
}
inline M3 anyRot3() { V3 x, y, z; rotCols(x, y, z); return M3(x, y, z); }
inline V2 ap(const M2& m, const V2& v) { return mk2(m.x.x * v.x + m.y.x * v.y, m.x.y * v.x + m.y.y * v.y); }
inline V3 ap(const M3& m, const V3& v) { return add(add(mul(m.x, v.x), mul(m.y, v.y)), mul(m.z, v.z)); }
inline V3 ap(const M34& m, const V3& v) { return add(ap(m.rs, v), m.t); }
inline V4 ap(const M4& m, const V4& v) {
	return mk4(m.x.x * v.x + m.y.x * v.y + m.z.x * v.z + m.t.x * v.w, m.x.y * v.x + m.y.y * v.y + m.z.y * v.z + m.t.y * v.w,
		m.x.z * v.x + m.y.z * v.y + m.z.z * v.z + m.t.z * v.w, m.x.w * v.x + m.y.w * v.y + m.z.w * v.z + m.t.w * v.w);
}
inline void eq(const M2& a, const M2& b, const char* l) { eq(a.x, b.x, l); eq(a.y, b.y, l); }
inline void eq(const M3& a, const M3& b, const char* l) { eq(a.x, b.x, l); eq(a.y, b.y, l); eq(a.z, b.z, l); }
inline void eq(const M34& a, const M34& b, const char* l) { eq(a.rs, b.rs, l); eq(a.t, b.t, l); }
inline void eq(const M4& a, const M4& b, const char* l) { eq(a.x, b.x, l); eq(a.y, b.y, l); eq(a.z, b.z, l); eq(a.t, b.t, l); }
// r is the product a b, entry by entry (a's map after b's)
inline void isProd(const M2& r, const M2& a, const M2& b, const char* l) { eq(r.x, ap(a, b.x), l); eq(r.y, ap(a, b.y), l); }
inline void isProd(const M3& r, const M3& a, const M3& b, const char* l) { eq(r.x, ap(a, b.x), l); eq(r.y, ap(a, b.y), l); eq(r.z, ap(a, b.z), l); }
inline void isProd(const M34& r, const M34& a, const M34& b, const char* l) { isProd(r.rs, a.rs, b.rs, l); eq(r.t, ap(a, b.t), l); }
inline void isProd(const M4& r, const M4& a, const M4& b, const char* l) { eq(r.x, ap(a, b.x), l); eq(r.y, ap(a, b.y), l); eq(r.z, ap(a, b.z), l); eq(r.t, ap(a, b.t), l); }
#define PART(n) const int part = vp_choice(n)
// no loss of generality: a matrix classified as identity has no entry further than sqrt(0.001) from the identity's
inline V2 near2(int k) { R p[2]; for (int i = 0; i < 2; ++i) p[i] = (i == k) + vp_range(-0.0317, 0.0317); return mk2(p[0], p[1]); }
inline V3 near3(int k) { R p[3]; for (int i = 0; i < 3; ++i) p[i] = (i == k) + vp_range(-0.0317, 0.0317); return mk3(p[0], p[1], p[2]); }
inline V4 near4(int k) { R p[4]; for (int i = 0; i < 4; ++i) p[i] = (i == k) + vp_range(-0.0317, 0.0317); return mk4(p[0], p[1], p[2], p[3]); }
inline M2 nearM2() { V2 a = near2(0), b = near2(1); return M2(a, b); }
inline M3 nearM3() { V3 a = near3(0), b = near3(1), c = near3(2); return M3(a, b, c); }
inline M4 nearM4() { V4 a = near4(0), b = near4(1), c = near4(2), t = near4(3); return M4(a, b, c, t); }
inline M4 nearTrs() { V3 a = near3(0), b = near3(1), c = near3(2), t = near3(3); return M4(a, b, c, t); }
inline bool same(const R* a, const R* b, int n) { bool r = true; for (int i = 0; i < n; ++i) r = r & (a[i] == b[i]); return r; }
inline bool same(const M2& a, const M2& b) { return same(a.data(), b.data(), 4); }
inline bool same(const M3& a, const M3& b) { return same(a.data(), b.data(), 9); }
inline bool same(const M4& a, const M4& b) { return same(a.data(), b.data(), 16); }
#define NI(m) vp_assume(!(m).isIdentity())
// the errors the classification is documented by, computed from the entries
inline R normErr(const M2& m) { R a = dot(m.x, m.x) - 1, b = dot(m.y, m.y) - 1; return a * a + b * b; }
inline R orthErr(const M2& m) { R a = dot(m.x, m.y); return a * a; }
inline R idErr(const M2& m) { return SQ(m.x.x - 1) + SQ(m.x.y) + (SQ(m.y.x) + SQ(m.y.y - 1)); }
inline R normErr3(const V3& x, const V3& y, const V3& z) { R a = dot(x, x) - 1, b = dot(y, y) - 1, c = dot(z, z) - 1; return a * a + b * b + c * c; }
inline R orthErr3(const V3& x, const V3& y, const V3& z) { R a = dot(x, y), b = dot(x, z), c = dot(y, z); return a * a + b * b + c * c; }
inline R normErr(const M3& m) { return normErr3(m.x, m.y, m.z); }
inline R orthErr(const M3& m) { return orthErr3(m.x, m.y, m.z); }
inline R idErr(const M3& m) { V3 a = sub(m.x, axis3(0)), b = sub(m.y, axis3(1)), c = sub(m.z, axis3(2)); return dot(a, a) + dot(b, b) + dot(c, c); }
inline V3 xyz(const V4& v) { return mk3(v.x, v.y, v.z); }
inline R dot(const V4& a, const V4& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline bool rawTrs(const M4& m) { return (m.x.w == 0) & (m.y.w == 0) & (m.z.w == 0) & (m.t.w == 1); }
inline R normErr(const M4& m, bool trs) {
	if (trs) return normErr3(xyz(m.x), xyz(m.y), xyz(m.z));
	R a = dot(m.x, m.x) - 1, b = dot(m.y, m.y) - 1, c = dot(m.z, m.z) - 1, d = dot(m.t, m.t) - 1; return a * a + b * b + c * c + d * d;
}
inline R orthErr(const M4& m, bool trs) {
	if (trs) return orthErr3(xyz(m.x), xyz(m.y), xyz(m.z));
	R a = dot(m.x, m.y), b = dot(m.x, m.z), c = dot(m.y, m.z); return a * a + b * b + c * c;
}
inline R idErr(const M4& m) {
	V4 x = m.x, y = m.y, z = m.z, t = m.t; x.x -= 1; y.y -= 1; z.z -= 1; t.w -= 1;
	return dot(x, x) + dot(y, y) + dot(z, z) + dot(t, t);
}
inline bool isOne(const M2& m) { return (m.x.x == 1) & (m.x.y == 0) & (m.y.x == 0) & (m.y.y == 1); }
inline bool isOne(const M3& m) { return (m.x.x == 1) & (m.x.y == 0) & (m.x.z == 0) & (m.y.x == 0) & (m.y.y == 1) & (m.y.z == 0) & (m.z.x == 0) & (m.z.y == 0) & (m.z.z == 1); }
inline Q anyQ() { Q q; q.x = vp_real(); q.y = vp_real(); q.z = vp_real(); q.w = vp_real(); return q; }
inline Q unitQ() { R p[4]; vp_unit(p, 4); Q q; q.x = p[0]; q.y = p[1]; q.z = p[2]; q.w = p[3]; return q; }
inline Q mkQ(R x, R y, R z, R w) { Q q; q.x = x; q.y = y; q.z = z; q.w = w; return q; }
inline R n2(const Q& q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
inline void eq(const Q& a, const Q& b, const char* l) { vp_eq(a.x, b.x, l); vp_eq(a.y, b.y, l); vp_eq(a.z, b.z, l); vp_eq(a.w, b.w, l); }
inline void eqQ(const Q& a, R x, R y, R z, R w, const char* l) { vp_eq(a.x, x, l); vp_eq(a.y, y, l); vp_eq(a.z, z, l); vp_eq(a.w, w, l); }
// the Hamilton product, from its definition: i j = k and so on
inline Q ham(const Q& a, const Q& b) {
	V3 u = mk3(a.x, a.y, a.z), v = mk3(b.x, b.y, b.z), c = crs(u, v);
	return mkQ(a.w * v.x + b.w * u.x + c.x, a.w * v.y + b.w * u.y + c.y, a.w * v.z + b.w * u.z + c.z, a.w * b.w - dot(u, v));
}
// the rotation by a unit quaternion: v + 2 w (u x v) + 2 u x (u x v)
inline V3 turn(const Q& q, const V3& v) {
	V3 u = mk3(q.x, q.y, q.z), c = crs(u, v), d = crs(u, c);
	return add(v, add(mul(c, 2 * q.w), mul(d, 2)));
}

