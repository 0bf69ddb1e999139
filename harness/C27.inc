// One copy of the operations; included by C27.cpp once per copy of the library, with T and LIB defined.
template <class T> struct O {
	T v[400]; int n; bool b[64]; int m;
	O() : n(0), m(0) {}
	O& operator()(T x) { v[n++] = x; return *this; }
	O& operator()(bool x) { b[m++] = x; return *this; }
	O& operator()(const Vec2<T>& u) { return (*this)(u.x)(u.y); }
	O& operator()(const Vec3<T>& u) { return (*this)(u.x)(u.y)(u.z); }
	O& operator()(const Vec4<T>& u) { return (*this)(u.x)(u.y)(u.z)(u.w); }
	O& operator()(const Quat<T>& u) { return (*this)(u.x)(u.y)(u.z)(u.w); }
	O& operator()(const Mat2<T>& m) { return (*this)(m.x)(m.y); }
	O& operator()(const Mat3<T>& m) { return (*this)(m.x)(m.y)(m.z); }
	O& operator()(const Mat34<T>& m) { return (*this)(m.rs)(m.t); }
	O& operator()(const Mat4<T>& m) { return (*this)(m.x)(m.y)(m.z)(m.t); }
	O& operator()(const AABB2<T>& b) { return (*this)(b.inf)(b.sup); }
	O& operator()(const AABB3<T>& b) { return (*this)(b.inf)(b.sup); }
	O& operator()(const CAABB2<T>& b) { return (*this)(b.center)(b.extents); }
	O& operator()(const CAABB3<T>& b) { return (*this)(b.center)(b.extents); }
	O& operator()(const Circle<T>& b) { return (*this)(b.center)(b.radius); }
	O& operator()(const Sphere<T>& b) { return (*this)(b.center)(b.radius); }
	O& operator()(const Plane<T>& b) { return (*this)(b.normal)(b.d); }
	O& operator()(const ColorRGB<T>& c) { return (*this)(c.r)(c.g)(c.b); }
	O& operator()(const ColorRGBA<T>& c) { return (*this)(c.r)(c.g)(c.b)(c.a); }
	O& operator()(const ColorHSV<T>& c) { return (*this)(c.h)(c.s)(c.v); }
	O& operator()(const BezierSegment3<T>& s) { return (*this)(s.p1())(s.p2())(s.p3())(s.p4()); }
};
template <class T> struct I {
	T v[48]; int n; int p;
	Vec2<T> v2() { T a = v[p++], b = v[p++]; return Vec2<T>(a, b); }
	Vec3<T> v3() { T a = v[p++], b = v[p++], c = v[p++]; return Vec3<T>(a, b, c); }
	Vec4<T> v4() { T a = v[p++], b = v[p++], c = v[p++], d = v[p++]; return Vec4<T>(a, b, c, d); }
	Quat<T> q() { Quat<T> r; r.x = v[p++]; r.y = v[p++]; r.z = v[p++]; r.w = v[p++]; return r; }
	T s() { return v[p++]; }
	// matrices that are not classified as anything
	Mat2<T> m2() { Mat2<T> m; m.x = v2(); m.y = v2(); return m; }
	Mat3<T> m3() { Mat3<T> m; m.x = v3(); m.y = v3(); m.z = v3(); return m; }
	Mat4<T> m4() { Mat4<T> m; m.x = v4(); m.y = v4(); m.z = v4(); m.t = v4(); return m; }
	// sparse ones
	Mat3<T> n3() { Mat3<T> m; m.x = Vec3<T>(v[p], T(1) / 3, T(2) / 7); m.y = Vec3<T>(v[p + 1], v[p + 2], T(-2) / 3); m.z = Vec3<T>(T(1) / 7, T(3) / 7, T(2)); p += 3; return m; }
	Mat4<T> n4() { Mat4<T> m; m.x = Vec4<T>(v[p], T(1) / 3, T(2) / 7, T(0)); m.y = Vec4<T>(v[p + 1], v[p + 2], T(-2) / 3, T(0)); m.z = Vec4<T>(T(1) / 7, T(3) / 7, T(2), T(0)); m.t = Vec4<T>(T(5) / 7, T(1) / 3, T(3), T(1)); p += 3; return m; }
	// unit quaternions at an angle given by the next input, about a fixed oblique axis
	Quat<T> q0() { Quat<T> q; q.x = q.y = q.z = q.w = T(0.5); return q; }
	Quat<T> q1() { T h = s(), c = T(0.5) * std::cos(h), d = T(0.5) * std::sin(h); Quat<T> q; q.x = c + d; q.y = c - d; q.z = c + d; q.w = c - d; return q; }
};
// the operations of one harness, each explored on its own
#define OP(...) if (part == n++) { __VA_ARGS__; }
DUAL(vec2, in.any(6)) {
	Vec2<T> a = i.v2(), b = i.v2(); T k = i.s(), t = i.s(); Vec2<T> c;
	o(a + b)(a - b)(-a)(a * k)(a * b)(a % b)(Vec2<T>::product(a, b))(Vec2<T>::crossProduct(a, b, a * t))(a.lengthSqr())(a.length())(b.normalized())(a.normalized(k))(a.rotated90())(a.rotated180())(a.rotated270())(a.mirrored(Coord::X))(a.moved(Coord::Y, k))(distance(a, b))(distanceSqr(a, b));
	if (t != 0) { o(a / t); c = a; c /= t; o(c); }
	c = a; c += b; o(c); c -= a; o(c); c *= k; o(c); c = a; o(c.normalize())(c); c = a; c.normalize(k); o(c);
	c = a; c.rotate90(); o(c); c.rotate180(); o(c); c.rotate270(); o(c); c.mirror(Coord::Y); o(c); c.set(k, t); o(c); c.set(Coord::X, t); o(c);
}
DUAL(vec2_minmax, in.any(4)) { Vec2<T> a = i.v2(), b = i.v2(); o(Vec2<T>::min(a, b))(Vec2<T>::max(a, b)); }
DUAL(vec2_turn, in.any(4)) { Vec2<T> a = i.v2(), c = a; T k = i.s(), t = i.s(); o(a.rotated(k))(Vec2<T>::fromAngle(k, t)); c.rotate(k); o(c); c.setAngle(k, t); o(c); }
DUAL(vec2_angle, in.any(2)) { Vec2<T> a = i.v2(); o(a.angle()); }
DUALP(vec2_clerp, 2, in.any(4).range(0, 1)) { Vec2<T> a = i.v2(), b = i.v2(), c; T t = i.s();
	if (part == 0) o(Vec2<T>::fromClerp(a, b, t)); else o(Vec2<T>::fromClerpMaxAngle(a, b, t)); }
DUAL(vec2_cross, in.any(8)) { Vec2<T> a = i.v2(), b = i.v2(), c = i.v2(), d = i.v2(); T s = 0, t = 0; int r = intersection(a, b, c, d, s, t); o(r != 0); if (r) o(s)(t); }
DUAL(vec3, in.any(8)) {
	Vec3<T> a = i.v3(), b = i.v3(), c; T k = i.s(), t = i.s();
	o(a + b)(a - b)(-a)(a * k)(a * b)(a % b)(Vec3<T>::product(a, b))(a.lengthSqr())(a.length())(b.normalized())(a.normalized(k))(a.mirrored(Coord::X))(a.moved(Coord::Y, k))(distance(a, b))(distanceSqr(a, b))(a % Coord::X)(a % Coord::Y)(a % Coord::Z)(a.toVec2())(a.toVec2(Coord::X))(Vec3<T>(Vec2<T>(k, t)))(Vec3<T>(Vec2<T>(k, t), Coord::X))(Vec3<T>(Vec2<T>(k, t), Coord::Y));
	if (t != 0) { o(a / t); c = a; c /= t; o(c); }
	c = a; c += b; o(c); c -= a; o(c); c *= k; o(c); c %= b; o(c); c %= Coord::Y; o(c); c = a; o(c.normalize())(c); c = a; c.normalize(k); o(c); c.mirror(Coord::Y); o(c); c.set(k, t, k); o(c); c.set(Coord::X, t); o(c);
}
DUAL(vec3_minmax, in.any(6)) { Vec3<T> a = i.v3(), b = i.v3(); o(Vec3<T>::min(a, b))(Vec3<T>::max(a, b)); }
DUAL(vec3_turn, in.any(4)) { Vec3<T> a = i.v3(), c; T k = i.s(); o(a.rotated(Coord::X, k))(a.rotated(Coord::Y, k))(a.rotated(Coord::Z, k)); c = a; c.rotate(Coord::X, k); c.rotate(Coord::Y, k); o(c); c.rotate(Coord::Z, k); o(c); }
DUALP(vec3_slerp, 2, in.range(0, 3).range(0, 1)) { Vec3<T> a(T(1) / 3, T(2) / 3, T(2) / 3), c(T(2) / 3, T(1) / 3, -T(2) / 3), b; T h = i.s(), t = i.s(); b = a * (std::cos(h) * T(1.7)) + c * (std::sin(h) * T(1.7)); a = a * T(1.1);
	if (part == 0) o(Vec3<T>::fromSlerp(a, b, t)); else o(Vec3<T>::fromSlerpMaxAngle(a, b, t)); }
DUAL(vec4, in.any(10)) {
	Vec4<T> a = i.v4(), b = i.v4(), c; T k = i.s(), t = i.s();
	o(a + b)(a - b)(-a)(a * k)(a * b)(Vec4<T>::product(a, b))(a.lengthSqr())(a.length())(a.moved(Coord::Y, k))(a.toVec3());
	if (t != 0) { o(a / t); c = a; c /= t; o(c); }
	c = a; c += b; o(c); c -= a; o(c); c *= k; o(c); c += Vec3<T>(k, t, k); o(c); c -= Vec3<T>(k, k, t); o(c);
}
DUAL(vec4_minmax, in.any(8)) { Vec4<T> a = i.v4(), b = i.v4(); o(Vec4<T>::min(a, b))(Vec4<T>::max(a, b)); }
DUAL(quat, in.any(12)) {
	Quat<T> a = i.q(), b = i.q(), c; Vec3<T> v = i.v3(); T t = i.s();
	o(a * b)(-a)(a * v)(a.rotated(v))(a.rotated(Coord::X))(a.rotated(Coord::Y))(a.rotated(Coord::Z)); c = a; c.normalize(); o(c);
	Mat3<T> m; m.set(a); o(m); Mat4<T> n; n.set(a, v); o(n); o(Mat34<T>::from(a, v)); o(Quat<T>(t, v.x, v.y, v.z, false));
}
DUAL(quat_inverse, in.any(8)) { Quat<T> a = i.q(), b = i.q(); if (a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w != 0) o(a.inverse())(b / a); }
DUAL(quat_axis, in.any(4)) { Vec3<T> v = i.v3(); T k = i.s(); o(Quat<T>::from(v, k)); Quat<T> q; q.set(v, k); o(q); }
DUAL(quat_mat, in.unit(4)) { Quat<T> q = i.q(); Mat3<T> m; m.set(q); o(Quat<T>::from(m)); Mat4<T> n; n.set(m.x, m.y, m.z); o(Quat<T>::from(n)); }
DUAL(quat_fromto, in.range(0.1, 4).range(9, 20).range(-1, 1, 2)) { T k = i.s(); Vec3<T> a(k / 3, 2 * k / 3, 2 * k / 3), b = i.v3(); o(Quat<T>::from(a, b)); }
DUALP(quat_lerp, 4, in.range(0, 3).range(0, 1)) { Quat<T> a = i.q0(), b = i.q1(); T t = i.s();
	o(part == 0 ? Quat<T>::fromLerp(a, b, t) : part == 1 ? Quat<T>::fromSlerp(a, b, t) : part == 2 ? Quat<T>::fromSlerpNoInvert(a, b, t) : Quat<T>::fromSlerpMaxAngle(a, b, t)); }
DUALP(quat_log, 3, in.unit(4)) { Quat<T> a = i.q(); if (part == 0) { Vec3<T> v; T k; a.toAxisAngle(v, k); o(v)(k); } else if (part == 1) o(Quat<T>::log(a)); else { a.w = 0; o(Quat<T>::exp(a)); } }

DUALP(mat2, 12, in.any(11)) {
	Mat2<T> a = i.m2(), b = i.m2(), c = a; T k = i.s(); Vec2<T> v = i.v2(); int n = 0;
	OP(o(a * v)(v * a)(a.transposed())(a.cofactors())(a.adjoint())(a.trace())(a.determinant())(a.normalError())(a.orthogonalError())(a.identityError()))
	OP(o(a.scaled(v)))
	OP(o(a * b))
	OP(o(a * k))
	OP(o(-a))
	OP(o(a.inversed()))
	OP(if (k != 0) o(a / k))
	OP(if (k != 0) { c /= k; o(c); })
	OP(c *= b; o(c))
	OP(c *= k; o(c))
	OP(c.scale(v); o(c))
	OP(c.transpose(); o(c))
}
DUALP(mat2_turn, 3, in.any(5)) { Mat2<T> a = i.m2(), c = a; T h = i.s(); if (part == 0) o(Mat2<T>::from(h))(a.rotated(h)); else if (part == 1) { c.rotate(h); o(c); } else { c.rotatePre(h); o(c); } }
DUALP(mat2_angle, 3, in.any(5)) { Mat2<T> a = i.m2(), c = a; T h = i.s(); if (part == 0) o(a.angle()); else if (part == 1) { c.orthonormalise(); o(c); } else o(Mat2<T>::fromSlerp(Mat2<T>::from(a.x.x), Mat2<T>::from(a.x.y), h)); }
DUALP(mat3, 16, in.any(22)) {
	Mat3<T> a = i.m3(), b = i.m3(), c = a; T k = i.s(); Vec3<T> v = i.v3(); int n = 0;
	OP(o(a * v)(v * a)(a.transposed())(a.cofactors())(a.adjoint())(a.trace())(a.determinant())(a.normalError())(a.orthogonalError())(a.identityError()))
	OP(o(a.scaled(v)))
	OP(o(a * b))
	OP(o(a * k))
	OP(o(-a))
	OP(if (k != 0) o(a / k))
	OP(if (k != 0) { c /= k; o(c); })
	OP(o(a.rotated(b)))
	OP(o(a.rotatedPre(b)))
	OP(c *= b; o(c))
	OP(c *= k; o(c))
	OP(c.rotate(b); o(c))
	OP(c.rotatePre(b); o(c))
	OP(c.scale(v); o(c))
	OP(c.transpose(); o(c))
	OP(Vec3<T> d[3] = { v, v, v }, s[3] = { v, a.x, a.y }; a.transform(d, s, 3); o(d[0])(d[1])(d[2]))
}
DUAL(mat3_inverse, in.any(9)) { Mat3<T> a = i.m3(); o(a.inversed()); a.invert(); o(a); }
DUALP(mat3_turn, 5, in.any(3).range(0.1, 3, 3).any(1)) { Mat3<T> a = i.n3(), c = a; Vec3<T> v = i.v3(); T h = i.s();
	if (part == 0) o(Mat3<T>::from(v, h)); else if (part == 1) o(Mat3<T>::from(Coord::X, h))(Mat3<T>::from(Coord::Y, h))(Mat3<T>::from(Coord::Z, h)); else if (part == 2) o(a.rotated(Coord::Y, h))(a.rotatedPre(Coord::Z, h));
	else if (part == 3) { c.rotate(Coord::X, h); o(c); } else { c.rotatePre(Coord::Y, h); o(c); } }
DUALP(mat3_turn_axis, 4, in.any(3).range(0.1, 3, 3).any(1)) { Mat3<T> a = i.n3(), c = a; Vec3<T> v = i.v3(); T h = i.s(); if (part == 0) o(a.rotated(v, h)); else if (part == 1) o(a.rotatedPre(v, h)); else if (part == 2) { c.rotate(v, h); o(c); } else { c.rotatePre(v, h); o(c); } }
DUAL(mat3_turn_quat, in.any(3).range(0.1, 3, 3).any(1)) { Mat3<T> a = i.n3(), c; Quat<T> q = i.q(); o(a.rotated(q))(a.rotatedPre(q)); c = a; c.rotate(q); o(c); c = a; c.rotatePre(q); o(c); }
DUALP(mat3_frame, 2, in.any(6)) { Vec3<T> a = i.v3(), b = i.v3(); if (part == 0) o(Mat3<T>::from(Coord::X, a, Coord::Y, b)); else o(Mat3<T>::from(Coord::Z, a, Coord::X, b)); }
DUAL(mat3_orthonormalise, in.any(9)) { Mat3<T> a = i.m3(); a.orthonormalise(); o(a); }
DUALP(mat3_slerp, 2, in.unit(4).range(0, 1)) { Quat<T> q = i.q(); T t = i.s(); Mat3<T> a, b; a.setIdentity(); b.set(q); if (part == 0) o(Mat3<T>::fromSlerp(a, b, t)); else o(Mat3<T>::fromSlerpMaxAngle(a, b, t)); }
DUALP(mat34, 15, in.any(27)) {
	Mat3<T> r = i.m3(), s = i.m3(); Vec3<T> u = i.v3(), v = i.v3(), w = i.v3(); Mat34<T> a(r, u), b(s, v), c = a; int n = 0;
	OP(o(a * b))
	OP(o(a * s))
	OP(o(-a))
	OP(o(a * w)(a.localPlane(Coord::X).normal)(a.localAxis(Coord::Y).direction))
	OP(c *= b; o(c))
	OP(c *= s; o(c))
	OP(c.scale(w); o(c))
	OP(c.scalePre(w); o(c))
	OP(c.translate(w); o(c); c.translatePre(w); o(c))
	OP(c.transpose(); o(c))
	OP(c.transform(b); o(c))
	OP(c.transformPre(b); o(c))
	OP(c.transform(s); o(c))
	OP(c.transformPre(s); o(c))
	OP(Vec3<T> d[3] = { w, w, w }, e[3] = { w, u, v }; a.transform(d, e, 3); o(d[0])(d[1])(d[2]))
}
DUAL(mat34_inverse, in.any(12)) { Mat3<T> r = i.m3(); Vec3<T> u = i.v3(); Mat34<T> a(r, u); a.invert(); o(a); }
DUALP(mat34_turn, 6, in.any(6).range(0.1, 3, 3).any(4)) { Mat3<T> r = i.n3(); Vec3<T> u = i.v3(), v = i.v3(); T h = i.s(); Vec3<T> w = i.v3(); Mat34<T> a(r, u), c = a; Quat<T> q; q.x = w.x; q.y = w.y; q.z = w.z; q.w = h;
	switch (part) { case 0: c.rotate(v, h); break; case 1: c.rotatePre(v, h); break; case 2: c.rotate(Coord::X, h); break; case 3: c.rotatePre(Coord::Y, h); break; case 4: c.rotate(q); break; default: c.rotatePre(q); }
	o(c); }
DUALP(mat4, 22, in.any(40)) {
	Mat4<T> a = i.m4(), b = i.m4(), c = a; Vec4<T> v = i.v4(); Vec3<T> w = i.v3(); T k = i.s(); int n = 0;
	OP(o(a * v)(a * w)(a.transposed())(a.trace())(a.determinant())(a.normalError())(a.orthogonalError())(a.identityError()))
	OP(o(a * b))
	OP(o(a * k))
	OP(o(-a))
	OP(if (k != 0) o(a / k))
	OP(if (k != 0) { c /= k; o(c); })
	OP(c *= k; o(c))
	OP(c.transpose(); o(c))
	OP(o(a.scaled(w)))
	OP(o(a.scaledPre(w)))
	OP(c.scale(w); o(c))
	OP(c.scalePre(w); o(c))
	OP(o(a.translated(w)))
	OP(o(a.translatedPre(w)))
	OP(c.translate(w); o(c))
	OP(c.translatePre(w); o(c))
	OP(o(a.transformed(b)))
	OP(o(a.transformedPre(b)))
	OP(c.transform(b); o(c))
	OP(c.transformPre(b); o(c))
	OP(Vec3<T> d[3] = { w, w, w }, e[3] = { w, w, w * k }; Vec4<T> f[3] = { v, v, v }, g[3] = { v, v, v * k }; a.transform(d, e, 3); o(d[0])(d[2]); a.transform(f, g, 3); o(f[0])(f[2]); a.transformVector(d, e, 3); o(d[0])(d[2]); a.transformVector(f, g, 3); o(f[0])(f[2]))
	OP(Vec3<T> d, e; Vec4<T> f, g; a.transform(d, w); a.transform(f, v); a.transformVector(e, w); a.transformVector(g, v); o(d)(e)(f)(g))
}
DUALP(mat4_inverse, 2, in.any(9)) { Vec3<T> u = i.v3(); Vec3<T> w = i.v3(); Mat4<T> a = i.n4(); a.t.x = u.x; a.y.z = u.y; a.z.x = u.z; a.x.w = w.x; a.z.w = w.y; a.t.w = w.z; if (part) o(a.inversed()); else { a.invert(); o(a); } }
DUAL(mat4_inverse_trs, in.any(12)) { Vec3<T> x = i.v3(), y = i.v3(), z = i.v3(), t = i.v3(); Mat4<T> a(x, y, z, t); o(a.inversed()); a.invert(); o(a); }
DUALP(mat4_turn, 12, in.any(3).range(0.1, 3, 3).any(1)) { Mat4<T> a = i.n4(), c = a; Vec3<T> v = i.v3(); T h = i.s(); Quat<T> q; q.x = v.x; q.y = v.y; q.z = v.z; q.w = h;
	switch (part) {
	case 0: o(a.rotated(v, h)); break; case 1: o(a.rotatedPre(v, h)); break; case 2: c.rotate(v, h); o(c); break; case 3: c.rotatePre(v, h); o(c); break;
	case 4: o(a.rotated(Coord::X, h)); break; case 5: o(a.rotatedPre(Coord::Y, h)); break; case 6: c.rotate(Coord::Z, h); o(c); break; case 7: c.rotatePre(Coord::X, h); o(c); break;
	case 8: o(a.rotated(q)); break; case 9: o(a.rotatedPre(q)); break; case 10: c.rotate(q); o(c); break; default: c.rotatePre(q); o(c); } }
DUALP(mat4_turns, 6, in.any(17)) { Mat4<T> a = i.m4(), c = a; T h = i.s(); int n = 0;
	OP(c.rotate(Coord::X, h); o(c)) OP(c.rotate(Coord::Y, h); o(c)) OP(c.rotate(Coord::Z, h); o(c)) OP(c.rotatePre(Coord::X, h); o(c)) OP(c.rotatePre(Coord::Y, h); o(c)) OP(c.rotatePre(Coord::Z, h); o(c)) }
DUALP(mat4_set, 3, in.any(6)) { Vec3<T> a = i.v3(), b = i.v3(); if (part == 0) o(Mat4<T>::from(Coord::X, a, Coord::Y, b)); else if (part == 1) o(Mat4<T>::from(a, b.x)); else o(Mat4<T>::from(Coord::Z, b.x)); }
DUAL(mat4_orthonormalise, in.range(0.1, 3, 3)) { Mat3<T> m = i.n3(); Mat4<T> a; a.set(m.x, m.y, m.z); a.orthonormalise(); o(a); }

DUAL(aabb2, in.any(9)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(); T k = i.s(); AABB2<T> x(a, b), y; o(x + p)(x - p)(x * k)(x.center())(x.extents())(x.size())(x.pointAt(p)); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); y.scaleCentered(k); o(y); o(AABB2<T>::from(CAABB2<T>(a, p))); }
DUAL(aabb3, in.any(10)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(); T k = i.s(); AABB3<T> x(a, b), y; o(x + p)(x - p)(x * k)(x.center())(x.extents())(x.size())(x.pointAt(p))(x.volume()); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); y.scaleCentered(k); o(y); o(AABB3<T>::from(CAABB3<T>(a, p))); }
DUAL(aabb_sphere, in.any(3).range(0.1, 9, 3)) { Vec3<T> a = i.v3(), b = i.v3(); AABB3<T> x(a, a + b); o(x.innerSphere())(x.outerSphere()); o(CAABB3<T>(a, b).innerSphere())(CAABB3<T>(a, b).outerSphere()); AABB2<T> y(a.toVec2(), (a + b).toVec2()); o(y.innerCircle())(y.outerCircle()); }
DUALP(aabb_sets, 7, in.any(4)) { Vec3<T> p[3], q(0, 0, 0); T a = i.s(), b = i.s(), c = i.s(), d = i.s(); p[0] = p[1] = p[2] = q;
	#define ALONG(m) p[0].m = a; p[1].m = b; p[2].m = c; q.m = d;
	if (part == 0) { ALONG(x) } else if (part == 1) { ALONG(y) } else if (part == 2) { ALONG(z) } else if (part == 3 || part == 5) { ALONG(x) } else { ALONG(y) }
	if (part < 3) { AABB3<T> x = AABB3<T>::from(3, p); o(x); x.add(q); o(x); }
	else if (part < 5) { Vec2<T> r[3] = { p[0].toVec2(), p[1].toVec2(), p[2].toVec2() }; AABB2<T> x = AABB2<T>::from(3, r); o(x); x.add(q.toVec2()); o(x); }
	else { AABB2<T> x(p[0].toVec2(), p[1].toVec2()); x.add(q.toVec2()); o(x); } }
DUALP(caabb_sets, 2, in.any(6)) { Vec3<T> p[2]; p[0] = i.v3(); p[1] = i.v3(); if (part == 0) { CAABB3<T> x = CAABB3<T>::from(2, p); o(x); } else { Vec2<T> r[2] = { p[0].toVec2(), p[1].toVec2() }; CAABB2<T> x = CAABB2<T>::from(2, r); o(x); } }
DUAL(aabb3_contains, in.any(9)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(); AABB3<T> x(a, b); o(x.contains(p)); }
DUAL(aabb2_contains, in.any(8)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(), q = i.v2(); AABB2<T> x(a, b); o(x.contains(p))(x.intersects(AABB2<T>(p, q))); }
DUAL(caabb2, in.any(9)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(); T k = i.s(); CAABB2<T> x(a, b), y; o(x + p)(x - p)(x * k)(x.inf())(x.sup())(x.size())(x.pointAt(p)); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); o(CAABB2<T>().set(AABB2<T>(a, b))); }
DUAL(caabb3, in.any(10)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(); T k = i.s(); CAABB3<T> x(a, b), y; o(x + p)(x - p)(x * k)(x.inf())(x.sup())(x.size())(x.pointAt(p))(x.volume()); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); o(CAABB3<T>::from(AABB3<T>(a, b))); }
DUAL(caabb_contains, in.any(6)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(); o(CAABB2<T>(a, b).contains(p)); }
DUALP(aabb2_ray, 2, in.range(-1, 0, 2).range(0, 1, 2).any(2).range(0.1, 3, 2)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(), d = i.v2(); T s = 0, t = 0; AABB2<T> x(a, b); if (part == 0) { bool r = x.intersects(s, t, Ray2<T>::from(p, d)); o(r); if (r) o(s)(t); } else { bool r = x.hits(s, Ray2<T>::from(p, d)); o(r); if (r) o(s); } }
DUAL(circle, in.any(6)) { Vec2<T> a = i.v2(), p = i.v2(); T r = i.s(), k = i.s(); Circle<T> x(a, r), y; o(x + p)(x - p)(x * k); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); o(x.contains(p)); }
DUAL(sphere, in.any(8)) { Vec3<T> a = i.v3(), p = i.v3(); T r = i.s(), k = i.s(); Sphere<T> x(a, r), y; o(x + p)(x - p)(x * k); if (k != 0) { o(x / k); y = x; y /= k; o(y); } y = x; y += p; o(y); y -= a; o(y); y *= k; o(y); o(x.contains(p)); }
DUALP(sphere_sets, 2, in.any(8)) { Vec3<T> a = i.v3(), b = i.v3(); T r = i.s(), k = i.s(); Sphere<T> x(a, r), y(b, k); if (part == 0) o(x.intersects(y)); else o(x.contains(y)); }
DUALP(sphere_bound, 2, in.any(6)) { Vec3<T> p[2]; p[0] = i.v3(); p[1] = i.v3(); Vec2<T> q[2] = { p[0].toVec2(), p[1].toVec2() }; if (part == 0) o(Sphere<T>::from(2, p)); else o(Circle<T>::from(2, q)); }
DUAL(plane, in.any(11)) { Vec3<T> n = i.v3(), p = i.v3(), q = i.v3(); T d = i.s(), k = i.s(); Plane<T> x(n, d), y; o(x.distance(p))(x.moved(k))(x.flipped()); Vec3<T> r; o(x.project(r, p))(r); if (n * q != 0) { o(x.project(r, p, q)); o(r); } y = x; y.move(k); y.flip(); o(y); o(Plane<T>::from(p, q))(Plane<T>::from(x, k))(x.contains(p, k)); }
DUALP(plane_build, 2, in.any(9)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(); if (part == 0) o(Plane<T>::from(a, b, c)); else o(Plane<T>::fromPointAndTangents(a, b, c)); }
DUALP(plane_meet, 3, in.any(10)) { Vec3<T> n = i.v3(), p = i.v3(), q = i.v3(), h; T d = i.s(), t = 0; Plane<T> x(n, d); bool r; if (part == 0) r = x.intersects(h, t, Ray3<T>::from(p, q)); else if (part == 1) r = x.intersects(h, t, Line3<T>::from(p, q)); else { r = x.intersects(t, Sphere<T>(p, q.x)); h = p; } o(r); if (r) o(h)(t); }
DUALP(plane_hits, 4, in.any(10)) { Vec3<T> n = i.v3(), p = i.v3(), q = i.v3(), h = n; T d = i.s(), t = 0; Plane<T> x(n, d); bool r; if (part == 0) r = x.hits(h, t, Ray3<T>::from(p, q)); else if (part == 1) r = x.hits(h, t, Line3<T>::from(p, q)); else if (part == 2) r = x.hits(t, Sphere<T>(p, q.x)); else r = x.hits(h, t, Line3<T>::from(p, q), n.x); o(r); if (r) o(h)(t); }
DUAL(plane_three, in.any(12)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), h; T d = i.s(), e = i.s(), f = i.s(); bool r = Plane<T>::intersectAtSinglePoint(h, Plane<T>(a, d), Plane<T>(b, e), Plane<T>(c, f)); o(r); if (r) o(h); }
DUAL(line, in.any(10)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(); T k = i.s(); Line3<T> l = Line3<T>::from(a, b); o(l.pointAt(k))(l.lengthSqr())(l.length()); Line2<T> m = Line2<T>::from(a.toVec2(), b.toVec2()); o(m.pointAt(k))(m.lengthSqr())(m.length()); Ray3<T> r = Ray3<T>::from(a, b); o(r.pointAt(k)); Ray2<T> s = Ray2<T>::from(a.toVec2(), b.toVec2()); o(s.pointAt(k)); (void)p; }
DUALP(line_distance, 4, in.any(9)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(); o(part == 0 ? Line3<T>::from(a, b).distance(p) : part == 1 ? Line2<T>::from(a.toVec2(), b.toVec2()).distance(p.toVec2()) : part == 2 ? Ray3<T>::from(a, b).distance(p) : Ray2<T>::from(a.toVec2(), b.toVec2()).distance(p.toVec2())); }
DUAL(tri2, in.any(8)) { Vec2<T> a = i.v2(), b = i.v2(), c = i.v2(), p = i.v2(); o(Tri2<T>::from(a, b, c).contains(p)); }
// boxes seen from outside, sheared: the margin to each plane decides
DUALP(frustum, 3, in.any(6)) {
	T s = i.s(), h = i.s(); Vec3<T> p = i.v3(); T r = i.s(); Vec3<T> c[8];
	for (int k = 0; k < 8; ++k) c[k] = Vec3<T>((k == 0 || k == 3 || k == 4 || k == 7 ? T(-1) : T(1)) + s * (k & 4 ? T(1) : T(0)), (k == 0 || k == 1 || k == 4 || k == 5 ? T(-1) : T(1)) + h * (k & 4 ? T(1) : T(0)), k & 4 ? T(1) : T(0));
	Frustum<T> f(c); for (int k = 0; k < 6; ++k) o(f.planes[k]); if (part == 0) o(f.contains(p)); else if (part == 1) o(f.contains(Sphere<T>(p, r))); else o(f.intersects(Sphere<T>(p, r)));
}
DUAL(hermite, in.any(12).range(0, 1)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); T t = i.s(); HermiteSplineSegment3<T> s(a, b, c, d); o(s.pointAt(t))(s.tangentAt(t));
	typedef HermiteSplineSegment3<T> S; o(S::hp1(t))(S::hp4(t))(S::hr1(t))(S::hr4(t))(S::dhp1(t))(S::dhp4(t))(S::dhr1(t))(S::dhr4(t)); }
DUAL(bezier, in.any(12).range(0, 1)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); T t = i.s(); BezierSegment3<T> s(a, b, c, d), x, y; o(s.pointAt(t))(s.tangentAt(t))(s.r1())(s.r4()); s.split(t, x, y); o(x)(y);
	typedef BezierSegment3<T> S; o(S::hp1(t))(S::hp2(t))(S::hp3(t))(S::hp4(t))(S::dhp1(t))(S::dhp2(t))(S::dhp3(t))(S::dhp4(t)); BezierSegment3FwdDiff<T> f(a, b, c, d, t); for (int k = 0; k < 4; ++k) { o(f.currentPoint())(f.currentTangent()); f.stepForward(); } }
DUALP(bezier_length, 3, in.any(12)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); o(BezierSegment3<T>(a, b, c, d).length(1 + part)); }
DUAL(bezier_frame, in.any(12).range(0, 1)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); T t = i.s(); Mat3<T> m; bool r = BezierSegment3<T>(a, b, c, d).frenetFrameAt(m, t); o(r); if (r) o(m); }
DUALP(chain, 9, in.any(18)) { int n = 2 + part % 3; Vec3<T> k[4], p[4], q[4]; for (int j = 0; j < 4; ++j) k[j] = i.v3(); Vec3<T> a = i.v3(), b = i.v3(); bool r;
	if (part < 3) r = SplineSolver3<T>::naturalBezierSpline(n, k, p, q); else if (part < 6) r = SplineSolver3<T>::bezierSpline(n, k, a, b, p, q); else r = SplineSolver3<T>::closedBezierSpline(n, k, p, q);
	o(r); int m = part < 6 ? n - 1 : n; for (int j = 0; j < m; ++j) o(p[j])(q[j]); }
DUALP(solvers, 3, in.any(12)) { T a[9], b[3], x[3]; for (int j = 0; j < 9; ++j) a[j] = i.s(); for (int j = 0; j < 3; ++j) b[j] = i.s(); bool r;
	if (part == 0) { r = GaussJordan<T>::solve(a, 2, b, 1); x[0] = b[0]; x[1] = b[1]; x[2] = 0; } else if (part == 1) r = TriDiagonal<T>::solve(a, a + 2, a + 5, b, x, 3); else r = TriDiagonal<T>::solveCyclic(a, a + 2, a + 5, a[7], a[8], b, x, 3);
	o(r); if (r) o(x[0])(x[1])(x[2]); }
DUAL(rgb, in.any(8)) { ColorRGB<T> a(i.v[0], i.v[1], i.v[2]), b(i.v[3], i.v[4], i.v[5]), c; T k = i.v[6], t = i.v[7]; o(a + b)(a - b)(-a)(a * k)(ColorRGB<T>::fromInterp(a, b, t))(a.toRGBA(k)); if (k != 0) { o(a / k); c = a; c /= k; o(c); } c = a; c += b; o(c); c -= a; o(c); c *= k; o(c); c.interp(a, b, k); o(c); }
DUAL(rgba, in.any(10)) { ColorRGBA<T> a(i.v[0], i.v[1], i.v[2], i.v[8]), b(i.v[3], i.v[4], i.v[5], i.v[9]), c; T k = i.v[6], t = i.v[7]; o(a + b)(a - b)(-a)(a * k)(ColorRGBA<T>::fromInterp(a, b, t))(a.toRGB()); if (k != 0) { o(a / k); c = a; c /= k; o(c); } c = a; c += b; o(c); c -= a; o(c); c *= k; o(c); c.interp(a, b, k); o(c); }
DUAL(rgb_hsv, in.range(0, 1, 3)) { ColorRGB<T> a(i.v[0], i.v[1], i.v[2]); o(a.toHSV()); }
DUAL(hsv_rgb, in.range(0, 359.9).range(0, 1, 2)) { ColorHSV<T> a(i.v[0], i.v[1], i.v[2]); o(a.toRGB()); }
DUAL(hsv_interp, in.range(0, 359.9).range(0, 359.9).range(0, 1, 5)) { ColorHSV<T> a(i.v[0], i.v[2], i.v[3]), b(i.v[1], i.v[4], i.v[5]); o(ColorHSV<T>::fromInterp(a, b, i.v[6])); }
DUAL(bytes, in.put(vp_int(0, 255))) { int k = (int)i.s(); o(ColorRGB<T>(k, 0, 0).r)(ColorRGBA<T>(0, 0, 0, k).a); }
DUAL(angles, in.any(1)) { T x = i.s(); o(degreeToRadian(x))(radianToDegree(x))(LIB::abs(x)); }
DUAL(saturated, in.any(1)) { T x = i.s(); o(LIB::asin(x))(LIB::acos(x)); }
DUALP(modulo, 3, in.any(1).range(1, 7)) { T x = i.s(), y = i.s(); o(part == 0 ? LIB::fmod(x, y) : part == 1 ? fmodPositive(x, y) : fmodCentered(x, y)); }
DUALP(response, 6, in.any(1).range(0, 0.9)) { const ResponseCurveType C[6] = { ResponseCurveType::Zero, ResponseCurveType::Linear, ResponseCurveType::Parabolic, ResponseCurveType::Cubic, ResponseCurveType::Exponential, ResponseCurveType::Cosine }; T x = i.s(), y = part == 4 ? T(0) : i.s(); o(evaluate(x, y, C[part])); }
DUALP(easing, 31, in.range(-0.1, 1.1)) { o(interpolationRatio(i.s(), (InterpolationMode)part)); }
DUALP(lerp, 2, in.any(3)) { T a = i.s(), b = i.s(), t = i.s(); o(part == 0 ? lerp(a, b, t) : lerp(a, b, t, InterpolationMode::QuadraticIn)); }
DUALP(clerp, 2, in.range(-3, 3, 2).range(0, 1)) { T a = i.s(), b = i.s(), t = i.s(); o(part == 0 ? clerp(a, b, t) : clerpMaxAngle(a, b, t)); }
// the remaining forms
DUALP(vec2_more, 6, in.any(8)) { Vec2<T> a = i.v2(), b = i.v2(), c = a; Mat2<T> m = i.m2(); int n = 0;
	OP(o(Vec2<T>(a.x))(a[Coord::X])(a[Coord::Y])(a.template cast<T>())(a.copy())(a.data()[1]); c.data()[0] = b.y; o(c); c[Coord::Y] = b.x; o(c))
	OP(c *= m; o(c))
	OP(o(a == b)(a != b))
	OP(o(a.isNull()))
	OP(o(a.majorCoord() == Coord::X))
	OP(o(a.minorCoord() == Coord::X)) }
DUALP(vec3_more, 8, in.any(15)) { Vec3<T> a = i.v3(), b = i.v3(), c = a; Mat3<T> m = i.m3(); int n = 0;
	OP(o(Vec3<T>(a.x))(a[Coord::X])(a[Coord::Y])(a[Coord::Z])(a.template cast<T>())(a.copy())(a.data()[1])(a.data()[2]); c.data()[0] = b.y; o(c); c[Coord::Y] = b.x; o(c))
	OP(c *= m; o(c))
	OP(o(a == b)(a != b))
	OP(o(a.isNull()))
	OP(o(a.majorCoord() == Coord::X)(a.majorCoord() == Coord::Y))
	OP(o(a.minorCoord() == Coord::X)(a.minorCoord() == Coord::Y))
	OP(o(a % Axis::X)(a % Axis::NX)(a % Axis::Y)(a % Axis::NY)(a % Axis::Z)(a % Axis::NZ))
	OP(c %= Axis::X; o(c); c %= Axis::NY; o(c); c %= Axis::NZ; o(c)) }
DUALP(vec4_more, 3, in.any(8)) { Vec4<T> a = i.v4(), b = i.v4(), c = a; int n = 0;
	OP(o(Vec4<T>(a.x))(a.template cast<T>())(a.copy())(a.data()[3]); c.data()[0] = b.y; o(c); c.set(Coord::Y, b.x); c.set(Coord::W, b.z); o(c))
	OP(o(a == b)(a != b))
	OP(o(a.isNull())) }
DUALP(quat_more, 2, in.any(8)) { Quat<T> a = i.q(), b = i.q(), c = a; int n = 0;
	OP(o(Quat<T>::from(a))(a.template cast<T>())(a.data()[1])(a.data()[3]); c.data()[0] = b.y; o(c); c.set(b); o(c))
	OP(o(a == b)(a != b)) }

DUALP(quat_squad, 2, in.range(0, 0.2).range(0, 1)) { Quat<T> a = i.q0(), b = i.q1(); T t = i.s(); if (part == 0) o(Quat<T>::from(a, b, b, a, t)); else { Quat<T> c; c.set(a, b, b, a, t); o(c); } }
DUALP(quat_via, 2, in.range(0.4, 1.5)) { Quat<T> a = i.q0(), b = i.q1(); if (part == 0) o(Quat<T>::from(a, b, a)); else { Quat<T> c; c.set(a, b, a); o(c); } }
DUALP(mat2_more, 6, in.any(8)) { Mat2<T> a = i.m2(), b = i.m2(), c; int n = 0;
	OP(o(Mat2<T>::from(a.x, a.y))(a.template cast<T>())(a.data()[2]); c.set(a.x, b.x); o(c); c.set(a); o(c); c.data()[1] = a.x.y; o(c); c.setIdentity(); o(c)(Mat2<T>(a.x.x)))
	OP(o(a == b)(a != b))
	OP(a.optimize(); o(a.isNormal()))
	OP(a.optimize(); o(a.isOrthogonal())(a.isOrthonormal()))
	OP(a.optimize(); o(a.isIdentity()))
	OP(Vec2<T> d[4] = { a.x, a.x, a.x, a.x }, s[4] = { b.x, b.y, b.x, b.y }; a.transform(d, s, 2, 2 * sizeof(Vec2<T>), 2 * sizeof(Vec2<T>)); for (int k = 0; k < 4; ++k) o(d[k])) }
DUALP(mat2_slerp, 2, in.range(-3, 3, 2).range(0, 1)) { T a = i.s(), b = i.s(), t = i.s(); Mat2<T> x = Mat2<T>::from(a), y = Mat2<T>::from(b), m; if (part == 0) o(Mat2<T>::fromSlerpMaxAngle(x, y, t)); else { m.slerp(x, y, t); o(m); } }
DUALP(mat3_turns, 6, in.any(10)) { Mat3<T> a = i.m3(), c = a; T h = i.s(); int n = 0;
	OP(c.rotate(Coord::X, h); o(c)) OP(c.rotate(Coord::Y, h); o(c)) OP(c.rotate(Coord::Z, h); o(c)) OP(c.rotatePre(Coord::X, h); o(c)) OP(c.rotatePre(Coord::Y, h); o(c)) OP(c.rotatePre(Coord::Z, h); o(c)) }
DUALP(mat3_more, 6, in.any(18)) { Mat3<T> a = i.m3(), b = i.m3(), c; int n = 0;
	OP(o(Mat3<T>::from(a.x, a.y, b.z))(a.template cast<T>())(a.data()[2]); c.set(a.x, b.x, a.z); o(c); c.set(a); o(c); c.data()[5] = a.x.y; o(c); c.setIdentity(); o(c)(Mat3<T>(a.x.x)))
	OP(o(a == b)(a != b))
	OP(a.optimize(); o(a.isNormal()))
	OP(a.optimize(); o(a.isOrthogonal()))
	OP(a.optimize(); o(a.isIdentity()))
	OP(Vec3<T> d[4] = { a.x, a.x, a.x, a.x }, s[4] = { b.x, b.y, b.x, b.y }; a.transform(d, s, 2, 2 * sizeof(Vec3<T>), 2 * sizeof(Vec3<T>)); for (int k = 0; k < 4; ++k) o(d[k])) }
DUAL(mat3_quat, in.any(4)) { Quat<T> q = i.q(); o(Mat3<T>::from(q)); o(Mat4<T>::from(q, Vec3<T>(q.x, q.y, q.z))); Mat34<T> m; m.set(q, Vec3<T>(q.x, q.y, q.z)); o(m); }
DUALP(mat34_more, 8, in.any(27)) { Mat3<T> r = i.m3(), s = i.m3(); Vec3<T> u = i.v3(), v = i.v3(), w = i.v3(); Mat34<T> a(r, u), b(s, v), c; int n = 0;
	OP(o(Mat34<T>(u.x))(Mat34<T>(r.x, r.y, r.z, u))(a.template cast<T>())(a[Coord::X])(a[Coord::Y])(a[Coord::Z])(a.data()[2]); c.set(a); o(c); c.set(s, v); o(c); c.set(r.x, r.y, s.z, w); o(c); o(Mat34<T>::from(r.x, s.y, r.z, v)); c.data()[5] = u.x; o(c); c.setIdentity(); o(c))
	OP(o(a == b)(a != b))
	OP(a.optimize(); o(a.isNormal()))
	OP(a.optimize(); o(a.isOrthogonal()))
	OP(Mat34<T>::multiply(c, a, b); o(c))
	OP(Vec3<T> d[4] = { w, w, w, w }, e[4] = { u, v, w, u }; a.transform(d, e, 2, 2 * sizeof(Vec3<T>), 2 * sizeof(Vec3<T>)); for (int k = 0; k < 4; ++k) o(d[k]))
	OP(o(a.localPlane(Axis::NX))(a.localPlane(Axis::Y)))
	OP(o(a.localPlane(Coord::Y))(a.localPlane(Coord::Z))(a.localPlane(Axis::NZ))) }
DUALP(mat34_rot, 4, in.any(6).range(-3, 3).any(3)) { Vec3<T> a = i.v3(), b = i.v3(); T h = i.s(); Vec3<T> t = i.v3(); Mat34<T> m;
	switch (part) { case 0: m.set(Coord::X, a, Coord::Z, b); o(m)(Mat34<T>::from(Coord::Y, a, Coord::Z, b)); break; case 1: m.set(a, h, t); o(m); break; case 2: m.set(Coord::Y, h, t); o(m)(Mat34<T>::from(Coord::Z, h, t)); break; default: o(Mat34<T>::from(a, h, t)); } }
DUALP(mat34_slerp, 2, in.unit(4).range(0, 1)) { Quat<T> q = i.q(); T t = i.s(); Mat34<T> a, b; a.setIdentity(); b.set(q); if (part == 0) o(Mat34<T>::fromSlerp(a, b, t)); else o(Mat34<T>::fromSlerpMaxAngle(a, b, t)); }
DUALP(mat4_more, 9, in.any(32)) { Mat4<T> a = i.m4(), b = i.m4(), c; Vec3<T> u = a.x.toVec3(), v = b.x.toVec3(), w = b.y.toVec3(), t = a.t.toVec3(); int n = 0;
	OP(o(Mat4<T>(u.x))(a.template cast<T>())(a[Coord::X])(a[Coord::Y])(a[Coord::Z])(a[Coord::W])(a.data()[7]); c.set(a); o(c); c.data()[5] = u.x; o(c); c[Coord::W] = b.x; o(c); c.setIdentity(); o(c))
	OP(o(Mat4<T>::from(u, v, w, t)); c.set(v, w, u, t); o(c))
	OP(o(Mat4<T>::from(a.x, b.y, a.z, b.t)); c.set(b.x, a.y, b.z, a.t); o(c))
	OP(o(a == b)(a != b))
	OP(Vec3<T> d[4] = { w, w, w, w }, e[4] = { u, v, w, u }; a.transform(d, e, 2, 2 * sizeof(Vec3<T>), 2 * sizeof(Vec3<T>)); for (int k = 0; k < 4; ++k) o(d[k]); a.transformVector(d, e, 2, 2 * sizeof(Vec3<T>), 2 * sizeof(Vec3<T>)); for (int k = 0; k < 4; ++k) o(d[k]))
	OP(Vec4<T> d[4] = { b.x, b.x, b.x, b.x }, e[4] = { b.x, b.y, b.z, b.t }; a.transform(d, e, 2, 2 * sizeof(Vec4<T>), 2 * sizeof(Vec4<T>)); for (int k = 0; k < 4; ++k) o(d[k]); a.transformVector(d, e, 2, 2 * sizeof(Vec4<T>), 2 * sizeof(Vec4<T>)); for (int k = 0; k < 4; ++k) o(d[k]))
	OP(o(a.localPlane(Coord::X))(a.localPlane(Axis::NY)))
	OP(o(a.localPlane(Axis::Z))(a.localAxis(Coord::Z).direction)(a.localAxis(Coord::X).start)) 
	OP(Mat4<T>::multiply(c, a, b); o(c)) }
DUALP(mat4_class, 3, in.any(9)) { Mat3<T> m = i.m3(); Mat4<T> a(m.x, m.y, m.z); o(part == 0 ? a.isNormal() : part == 1 ? a.isOrthogonal() : a.isIdentity()); }
DUALP(aabb2_more, 7, in.any(8)) { Vec2<T> p[4] = { i.v2(), i.v2(), i.v2(), i.v2() }; AABB2<T> x(p[0], p[1]), y(p[2], p[3]), z; int n = 0;
	OP(z.set(p[0]); o(z); z.set(p[2], p[1]); o(z)(AABB2<T>::from(p[3]))(AABB2<T>::from(p[1], p[2]))(x.template cast<T>())(x.area()))
	OP(z.set(2, p, 2 * sizeof(Vec2<T>)); o(z))
	OP(o(AABB2<T>::from(2, p + 1, 2 * sizeof(Vec2<T>))))
	OP(x.add(p[3]); o(x))
	OP(o(x == y)(x != y))
	OP(o(x.isNull())(x.contains(y)))
	OP(o(AABB2<T>::fromUnion(x, y).inf.x)(AABB2<T>::fromIntersection(x, y).sup.y)) }
DUALP(aabb3_more, 7, in.any(12)) { Vec3<T> p[4] = { i.v3(), i.v3(), i.v3(), i.v3() }; AABB3<T> x(p[0], p[1]), y(p[2], p[3]), z; int n = 0;
	OP(z.set(p[0]); o(z); z.set(p[2], p[1]); o(z)(AABB3<T>::from(p[3]))(AABB3<T>::from(p[1], p[2]))(x.template cast<T>()))
	OP(z.set(2, p, 2 * sizeof(Vec3<T>)); o(z.inf))
	OP(o(AABB3<T>::from(2, p + 1, 2 * sizeof(Vec3<T>)).sup))
	OP(x.add(p[3]); o(x.inf.x)(x.sup.y)(x.sup.z))
	OP(o(x == y)(x != y))
	OP(o(x.isNull())(x.contains(y))(x.intersects(y)))
	OP(o(AABB3<T>::fromUnion(x, y).inf.x)(AABB3<T>::fromIntersection(x, y).sup.z)) }
DUAL(aabb3_in_sphere, in.any(10)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(); T r = i.s(); o(AABB3<T>(a, b).contains(Sphere<T>(c, r)))(CAABB3<T>(a, b).contains(Sphere<T>(c, r))); }
DUALP(aabb3_path, 4, in.range(-1, -0.1, 3).range(0.1, 1, 3).range(-2, -1.1).range(-0.1, 0.1, 2).range(0.1, 3, 3)) { Vec3<T> a = i.v3(), b = i.v3(), p = i.v3(), d = i.v3(); T s = 0, t = 0; AABB3<T> x(a, b); bool r;
	if (part == 0) { r = x.intersects(s, t, Ray3<T>::from(p, d)); o(r); if (r) o(s)(t); } else if (part == 1) { r = x.hits(s, Ray3<T>::from(p, d)); o(r); if (r) o(s); } else if (part == 2) { r = x.intersects(s, t, Line3<T>::from(p, p + d)); o(r); if (r) o(s)(t); } else { r = x.hits(s, Line3<T>::from(p, p + d)); o(r); if (r) o(s); } }
DUALP(aabb2_line, 2, in.range(-1, 0, 2).range(0, 1, 2).any(2).range(0.1, 3, 2)) { Vec2<T> a = i.v2(), b = i.v2(), p = i.v2(), d = i.v2(); T s = 0, t = 0; AABB2<T> x(a, b); bool r; if (part == 0) { r = x.intersects(s, t, Line2<T>::from(p, p + d)); o(r); if (r) o(s)(t); } else { r = x.hits(s, Line2<T>::from(p, p + d)); o(r); if (r) o(s); } }
DUALP(caabb2_more, 8, in.any(8)) { Vec2<T> p[4] = { i.v2(), i.v2(), i.v2(), i.v2() }; CAABB2<T> x(p[0], p[1]), y(p[2], p[3]), z; int n = 0;
	OP(z.set(p[0]); o(z); z.set(p[2], p[1]); o(z)(CAABB2<T>::from(p[3]))(CAABB2<T>::from(p[1], p[2]))(CAABB2<T>::fromInfSup(p[0], p[3]))(x.template cast<T>())(x.area()))
	OP(z.set(2, p, 2 * sizeof(Vec2<T>)); o(z))
	OP(o(CAABB2<T>::from(2, p + 1, 2 * sizeof(Vec2<T>))))
	OP(x.add(p[3]); o(x))
	OP(o(x == y)(x != y))
	OP(o(x.isNull())(x.contains(y)))
	OP(o(x.intersects(y)))
	OP(o(x.innerCircle())(x.outerCircle())) }
DUALP(caabb3_more, 7, in.any(12)) { Vec3<T> p[4] = { i.v3(), i.v3(), i.v3(), i.v3() }; CAABB3<T> x(p[0], p[1]), y(p[2], p[3]), z; int n = 0;
	OP(z.set(p[0]); o(z); z.set(p[2], p[1]); o(z)(CAABB3<T>::from(p[3]))(CAABB3<T>::from(p[1], p[2]))(x.template cast<T>()))
	OP(z.set(2, p, 2 * sizeof(Vec3<T>)); o(z.center.x)(z.extents.y))
	OP(o(CAABB3<T>::from(2, p + 1, 2 * sizeof(Vec3<T>)).extents))
	OP(x.add(p[3]); o(x.center.z)(x.extents.x))
	OP(o(x == y)(x != y))
	OP(o(x.isNull())(x.contains(p[3])))
	OP(o(x.contains(y))(x.intersects(y))) }
DUALP(circle_more, 5, in.any(8)) { Vec2<T> p[4] = { i.v2(), i.v2(), i.v2(), i.v2() }; Circle<T> x(p[0], p[1].x), y(p[2], p[1].y), z; int n = 0;
	OP(z.set(p[0], p[1].y); o(z)(Circle<T>::from(p[2], p[3].x))(x.template cast<T>())(x.data()[2]); z.data()[1] = p[3].y; o(z))
	OP(z.set(2, p, 2 * sizeof(Vec2<T>)); o(z))
	OP(o(Circle<T>::from(2, p + 1, 2 * sizeof(Vec2<T>))))
	OP(o(x == y)(x != y))
	OP(o(x.contains(y))(x.intersects(y))) }
DUALP(sphere_more, 4, in.any(12)) { Vec3<T> p[4] = { i.v3(), i.v3(), i.v3(), i.v3() }; Sphere<T> x(p[0], p[1].x), y(p[2], p[1].y), z; int n = 0;
	OP(z.set(p[0], p[1].y); o(z)(Sphere<T>::from(p[2], p[3].x))(x.template cast<T>())(x.data()[3]); z.data()[1] = p[3].y; o(z))
	OP(z.set(2, p, 2 * sizeof(Vec3<T>)); o(z))
	OP(o(Sphere<T>::from(2, p + 1, 2 * sizeof(Vec3<T>))))
	OP(o(x == y)(x != y)) }
DUALP(round_path, 3, in.range(-5, -3).range(-0.5, 0.5, 2).range(4, 9).range(-0.5, 0.5, 2).range(0.8, 2)) { Vec3<T> a = i.v3(), d = i.v3(), h; T r = i.s(), t = 0; Sphere<T> s(Vec3<T>(T(0), T(0), T(0)), r); bool q;
	Line3<T> l = Line3<T>::from(a, a + d); if (part == 0) q = s.hits(h, t, l); else if (part == 1) q = s.intersects(h, t, l); else { q = s.intersects(l); t = 0; h = a; } o(q); if (q) o(h)(t); }
DUALP(round_path2, 3, in.range(-5, -3).range(-0.5, 0.5, 2).range(4, 9).range(-0.5, 0.5, 2).range(0.8, 2)) { Vec3<T> a = i.v3(), d = i.v3(); Vec2<T> h; T r = i.s(), t = 0; Circle<T> s(Vec2<T>(T(0), T(0)), r); bool q;
	Line3<T> l = Line3<T>::from(a, a + d); if (part == 0) q = s.hits(h, t, l); else if (part == 1) q = s.intersects(h, t, l); else { q = s.intersects(l); t = 0; h = Vec2<T>(a.x, a.y); } o(q); if (q) o(h)(t); }
DUALP(round_meet, 2, in.range(-2, 2, 3).range(0.5, 2, 2)) { Vec3<T> a = i.v3(), h; Vec2<T> g; T r = i.s(), k = i.s(), t = 0; bool q; if (part == 0) { q = Sphere<T>(a, r).intersects(h, t, Sphere<T>(Vec3<T>(T(0), T(0), T(0)), k)); o(q); if (q) o(h)(t); } else { q = Circle<T>(a.toVec2(), r).intersects(g, t, Circle<T>(Vec2<T>(T(0), T(0)), k)); o(q); if (q) o(g)(t); } }
DUALP(plane_more, 5, in.any(10)) { Vec3<T> n = i.v3(), p = i.v3(), q = i.v3(); T d = i.s(); Plane<T> x; x.normal = n; x.d = d; Plane<T> y; y.normal = p; y.d = d; Plane<T> z;
	switch (part) { case 0: z.set(p, d); o(z)(Plane<T>::from(q, d)); break; case 1: z.set(p, q); o(z); z.set(x, d); o(z)(x.template cast<T>())(x.data()[3]); z.data()[2] = d; o(z); break; case 2: z.set(n, p, q); o(z); break; case 3: z.setFromPointAndTangents(n, p, q); o(z); break; default: o(x == y)(x != y); } }
DUALP(path_more, 4, in.any(12)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); Line3<T> l = Line3<T>::from(a, b), m = Line3<T>::from(c, d); Line2<T> u = Line2<T>::from(a.toVec2(), b.toVec2()), v = Line2<T>::from(c.toVec2(), d.toVec2()); Ray3<T> r, s; r.start = a; r.direction = b; s.start = c; s.direction = d; Ray2<T> x, y; x.start = a.toVec2(); x.direction = b.toVec2(); y.start = c.toVec2(); y.direction = d.toVec2();
	switch (part) { case 0: o(l == m)(l != m)(u == v)(u != v); break; case 1: o(r == s)(r != s)(x == y)(x != y); break; case 2: o(l.isNull())(u.isNull()); break; default: o(l.template cast<T>().start)(l.template cast<T>().end)(u.template cast<T>().start)(u.template cast<T>().end)(r.template cast<T>().start)(r.template cast<T>().direction)(x.template cast<T>().start)(x.template cast<T>().direction); } }
DUALP(tri2_more, 2, in.any(12)) { Vec2<T> p[6]; for (int k = 0; k < 6; ++k) p[k] = i.v2(); Tri2<T> a = Tri2<T>::from(p[0], p[1], p[2]), b = Tri2<T>::from(p[3], p[4], p[5]); if (part == 0) o(a == b)(a != b); else { Tri2<T> c = a.template cast<T>(); o(c.a)(c.b)(c.c); } }
DUALP(frustum_moved, 2, in.any(6)) { Vec3<T> t = i.v3(), u = i.v3(), c[8]; for (int k = 0; k < 8; ++k) c[k] = Vec3<T>(k == 0 || k == 3 || k == 4 || k == 7 ? T(-1) : T(1), k == 0 || k == 1 || k == 4 || k == 5 ? T(-1) : T(1), k & 4 ? T(1) : T(0));
	Mat4<T> m; m.x = Vec4<T>(T(1), T(0), T(0), T(0)); m.y = Vec4<T>(T(0), T(2), T(0), T(0)); m.z = Vec4<T>(u.x, u.y, T(1), T(0)); m.t = Vec4<T>(t.x, t.y, t.z, T(1)); Mat34<T> g; g.rs.x = m.x.toVec3(); g.rs.y = m.y.toVec3(); g.rs.z = m.z.toVec3(); g.t = t;
	Frustum<T> f(c); if (part) f.set(m, c); else f.set(g, c); for (int k = 0; k < 6; ++k) o(f.planes[k]); for (int k = 0; k < 8; ++k) o(f.corners[k]); Frustum<T> h = f.template cast<T>(); for (int k = 0; k < 6; ++k) o(h.planes[k]); for (int k = 0; k < 8; ++k) o(h.corners[k]); }
DUALP(colours_more, 4, in.any(8)) { ColorRGB<T> a(i.v[0], i.v[1], i.v[2]), b(i.v[3], i.v[4], i.v[5]), c; ColorRGBA<T> d(i.v[0], i.v[1], i.v[2], i.v[6]), e(i.v[3], i.v[4], i.v[5], i.v[7]), f; ColorHSV<T> g(i.v[0], i.v[1], i.v[2]), h(i.v[3], i.v[4], i.v[5]), j; int n = 0;
	OP(o(ColorRGB<T>(i.v[0]))(ColorRGBA<T>(i.v[0], i.v[1])); c.set(i.v[0], i.v[1], i.v[2]); o(c); f.set(i.v[0], i.v[1], i.v[2], i.v[3]); o(f); j.set(i.v[0], i.v[1], i.v[2]); o(j); o(a.template cast<T>())(d.template cast<T>())(g.template cast<T>())(a.data()[1])(d.data()[3])(g.data()[2]); c.data()[2] = i.v[7]; f.data()[3] = i.v[7]; j.data()[1] = i.v[7]; o(c)(f)(j))
	OP(o(a == b)(a != b))
	OP(o(d == e)(d != e))
	OP(o(g == h)(g != h)) }
DUAL(hsv_rgba, in.range(0, 359.9).range(0, 1, 3)) { ColorHSV<T> a(i.v[0], i.v[1], i.v[2]); o(a.toRGBA(i.v[3])); }
DUAL(rgba_hsv, in.range(0, 1, 4)) { o(ColorRGBA<T>(i.v[0], i.v[1], i.v[2], i.v[3]).toHSV()); }
DUALP(scalar_more, 3, in.any(3)) { T a = i.s(), b = i.s(), c = i.s(); o(part == 0 ? LIB::min(a, b) : part == 1 ? LIB::max(a, b) : clippedBetween(a, b, c)); }
DUALP(lerp_more, 5, in.any(6).range(0, 1)) { Vec3<T> a = i.v3(), b = i.v3(); T t = i.s(); switch (part) { case 0: o(lerp(a, b, t)); break; case 1: o(lerp(a, b, t, InterpolationMode::CubicIn)); break; case 2: o(lerp(a.toVec2(), b.toVec2(), t)); break; case 3: o(lerp(a.toVec2(), b.toVec2(), t, InterpolationMode::QuarticOut)); break; default: { T r = 0; o(clerpMaxAngle(T(1), t * 2 - 1, T(0.5), r)); o(r); } } }
DUAL(hermite_more, in.any(12)) { Vec3<T> a = i.v3(), b = i.v3(), c = i.v3(), d = i.v3(); HermiteSplineSegment3<T> s(a, b, c, d), u; o(s.p1())(s.p4())(s.r1())(s.r4()); u.set(a, b, d, c); o(u.p1())(u.p4())(u.r1())(u.r4()); BezierSegment3<T> v; v.set(a, b, d, c); o(v); }
