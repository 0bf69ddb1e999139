// C01: vector arithmetic.
#include "h.h"

H h_v2_arith() {
	V2 u = any2(), v = any2(); R k = any();
	eq2(u + v, u.x + v.x, u.y + v.y, "sum");
	eq2(u - v, u.x - v.x, u.y - v.y, "difference");
	eq2(-u, -u.x, -u.y, "negation");
	eq2(u * k, u.x * k, u.y * k, "scalar product");
	vp_eq(u * v, u.x * v.x + u.y * v.y, "dot product");
	vp_eq(u % v, u.x * v.y - u.y * v.x, "cross product");
	eq2(V2::product(u, v), u.x * v.x, u.y * v.y, "component product");
	V2 w = any2();
	vp_eq(V2::crossProduct(u, v, w), (v.x - u.x) * (w.y - u.y) - (v.y - u.y) * (w.x - u.x), "cross product of three points");
	eq2(u.copy(), u.x, u.y, "copy");
}
H h_v2_inplace() {
	V2 u = any2(), v = any2(); R k = any();
	V2 a;
	a = u; V2& r1 = (a += v); eq2(a, u.x + v.x, u.y + v.y, "+="); vp_check(&r1 == &a, "+= returns the vector");
	a = u; V2& r2 = (a -= v); eq2(a, u.x - v.x, u.y - v.y, "-="); vp_check(&r2 == &a, "-= returns the vector");
	a = u; V2& r3 = (a *= k); eq2(a, u.x * k, u.y * k, "*="); vp_check(&r3 == &a, "*= returns the vector");
	a = u; a += a; eq2(a, 2 * u.x, 2 * u.y, "+= itself");
	a = u; a -= a; eq2(a, 0, 0, "-= itself");
	a = u; a *= a.x; eq2(a, u.x * u.x, u.y * u.x, "*= own component");
	R d = nonzero();
	a = u; V2& r4 = (a /= d); eq2(a, u.x / d, u.y / d, "/="); vp_check(&r4 == &a, "/= returns the vector");
	eq2(u / d, u.x / d, u.y / d, "quotient");
	a = u; vp_assume(u.y != 0); a /= a.y; eq2(a, u.x / u.y, 1, "/= own component");
}
H h_v2_access() {
	V2 u = any2(), v = any2(); R k = any();
	eq2(V2(k), k, k, "construct from one value");
	eq2(V2(u.x, u.y), u.x, u.y, "construct");
	V2 a = v;
	a.set(u.x, u.y); eq2(a, u.x, u.y, "set");
	a = v; a.set(u); eq2(a, u.x, u.y, "set from vector");
	a = u; a.set(Coord::X, k); eq2(a, k, u.y, "set x");
	a = u; a.set(Coord::Y, k); eq2(a, u.x, k, "set y");
	eq2(u.moved(Coord::X, k), u.x + k, u.y, "moved x");
	eq2(u.moved(Coord::Y, k), u.x, u.y + k, "moved y");
	const V2& cu = u;
	vp_eq(cu[Coord::X], u.x, "index x"); vp_eq(cu[Coord::Y], u.y, "index y");
	a = u; vp_eq(a[Coord::X], u.x, "index x"); vp_eq(a[Coord::Y], u.y, "index y");
	a = u; a[Coord::X] = k; eq2(a, k, u.y, "assign by index");
	a = u; a[Coord::Y] = k; eq2(a, u.x, k, "assign by index");
	vp_eq(cu.data()[0], u.x, "data"); vp_eq(cu.data()[1], u.y, "data");
	a = u; a.data()[1] = k; eq2(a, u.x, k, "data writable"); a.data()[0] = k; eq2(a, k, k, "data writable");
	eq2(u.cast<double>(), u.x, u.y, "cast");
	eq2(V2::Zero, 0, 0, "Zero"); eq2(V2::OneX, 1, 0, "OneX"); eq2(V2::OneY, 0, 1, "OneY");
}
H h_v2_compare() {
	V2 u = any2(), v = any2();
	bool e = u.x == v.x && u.y == v.y;
	vp_check((u == v) == e, "=="); vp_check((u != v) == !e, "!=");
	vp_check(u.isNull() == (u.x == 0 && u.y == 0), "isNull");
	V2 lo = V2::min(u, v), hi = V2::max(u, v);
	eq2(lo, u.x < v.x ? u.x : v.x, u.y < v.y ? u.y : v.y, "min");
	eq2(hi, u.x > v.x ? u.x : v.x, u.y > v.y ? u.y : v.y, "max");
}
H h_v3_arith() {
	V3 u = any3(), v = any3(); R k = any();
	eq3(u + v, u.x + v.x, u.y + v.y, u.z + v.z, "sum");
	eq3(u - v, u.x - v.x, u.y - v.y, u.z - v.z, "difference");
	eq3(-u, -u.x, -u.y, -u.z, "negation");
	eq3(u * k, u.x * k, u.y * k, u.z * k, "scalar product");
	vp_eq(u * v, u.x * v.x + u.y * v.y + u.z * v.z, "dot product");
	eq(u % v, crs(u, v), "cross product");
	eq3(V3::product(u, v), u.x * v.x, u.y * v.y, u.z * v.z, "component product");
	eq(u.copy(), u, "copy");
}
H h_v3_cross_axis() {
	V3 u = any3();
	static const R s[2] = {1, -1};
	int k = vp_choice(3);
	V3 e = axis3(k);
	eq(u % coord(k), crs(u, e), "cross product with coordinate");
	V3 a = u; V3& r1 = (a %= coord(k)); eq(a, crs(u, e), "%= coordinate"); vp_check(&r1 == &a, "%= returns the vector");
	int n = vp_choice(2);
	Axis ax = n ? (k == 0 ? Axis::NX : k == 1 ? Axis::NY : Axis::NZ) : (k == 0 ? Axis::X : k == 1 ? Axis::Y : Axis::Z);
	V3 es = mul(e, s[n]);
	eq(u % ax, crs(u, es), "cross product with axis");
	a = u; V3& r2 = (a %= ax); eq(a, crs(u, es), "%= axis"); vp_check(&r2 == &a, "%= returns the vector");
}
H h_v3_inplace() {
	V3 u = any3(), v = any3(); R k = any();
	V3 a;
	a = u; V3& r1 = (a += v); eq3(a, u.x + v.x, u.y + v.y, u.z + v.z, "+="); vp_check(&r1 == &a, "+= returns the vector");
	a = u; V3& r2 = (a -= v); eq3(a, u.x - v.x, u.y - v.y, u.z - v.z, "-="); vp_check(&r2 == &a, "-= returns the vector");
	a = u; V3& r3 = (a *= k); eq3(a, u.x * k, u.y * k, u.z * k, "*="); vp_check(&r3 == &a, "*= returns the vector");
	a = u; V3& r5 = (a %= v); eq(a, crs(u, v), "%="); vp_check(&r5 == &a, "%= returns the vector");
	a = u; a += a; eq3(a, 2 * u.x, 2 * u.y, 2 * u.z, "+= itself");
	a = u; a -= a; eq3(a, 0, 0, 0, "-= itself");
	a = u; a %= a; eq3(a, 0, 0, 0, "%= itself");
	a = u; a *= a.y; eq3(a, u.x * u.y, u.y * u.y, u.z * u.y, "*= own component");
	R d = nonzero();
	a = u; V3& r4 = (a /= d); eq3(a, u.x / d, u.y / d, u.z / d, "/="); vp_check(&r4 == &a, "/= returns the vector");
	eq3(u / d, u.x / d, u.y / d, u.z / d, "quotient");
	a = u; vp_assume(u.x != 0); a /= a.x; eq3(a, 1, u.y / u.x, u.z / u.x, "/= own component");
}
H h_v3_access() {
	V3 u = any3(), v = any3(); R k = any();
	eq3(V3(k), k, k, k, "construct from one value");
	eq3(V3(u.x, u.y, u.z), u.x, u.y, u.z, "construct");
	V3 a = v;
	a.set(u.x, u.y, u.z); eq(a, u, "set");
	a = v; a.set(u); eq(a, u, "set from vector");
	int c = vp_choice(3); Coord cc = coord(c);
	a = u; a.set(cc, k); eq3(a, c == 0 ? k : u.x, c == 1 ? k : u.y, c == 2 ? k : u.z, "set one coordinate");
	eq3(u.moved(cc, k), c == 0 ? u.x + k : u.x, c == 1 ? u.y + k : u.y, c == 2 ? u.z + k : u.z, "moved");
	const V3& cu = u;
	vp_eq(cu[cc], comp(u, c), "index"); a = u; vp_eq(a[cc], comp(u, c), "index");
	a[cc] = k; eq3(a, c == 0 ? k : u.x, c == 1 ? k : u.y, c == 2 ? k : u.z, "assign by index");
	vp_eq(cu.data()[c], comp(u, c), "data");
	a = u; a.data()[c] = k; eq3(a, c == 0 ? k : u.x, c == 1 ? k : u.y, c == 2 ? k : u.z, "data writable");
	eq(u.cast<double>(), u, "cast");
	eq3(V3::Zero, 0, 0, 0, "Zero"); eq3(V3::OneX, 1, 0, 0, "OneX"); eq3(V3::OneY, 0, 1, 0, "OneY"); eq3(V3::OneZ, 0, 0, 1, "OneZ");
}
H h_v3_compare() {
	V3 u = any3(), v = any3();
	bool e = u.x == v.x && u.y == v.y && u.z == v.z;
	vp_check((u == v) == e, "=="); vp_check((u != v) == !e, "!=");
	vp_check(u.isNull() == (u.x == 0 && u.y == 0 && u.z == 0), "isNull");
}
H h_v3_minmax() {
	V3 u = any3(), v = any3();
	eq3(V3::min(u, v), u.x < v.x ? u.x : v.x, u.y < v.y ? u.y : v.y, u.z < v.z ? u.z : v.z, "min");
	eq3(V3::max(u, v), u.x > v.x ? u.x : v.x, u.y > v.y ? u.y : v.y, u.z > v.z ? u.z : v.z, "max");
}
H h_v4_arith() {
	V4 u = any4(), v = any4(); R k = any();
	eq4(u + v, u.x + v.x, u.y + v.y, u.z + v.z, u.w + v.w, "sum");
	eq4(u - v, u.x - v.x, u.y - v.y, u.z - v.z, u.w - v.w, "difference");
	eq4(-u, -u.x, -u.y, -u.z, -u.w, "negation");
	eq4(u * k, u.x * k, u.y * k, u.z * k, u.w * k, "scalar product");
	vp_eq(u * v, u.x * v.x + u.y * v.y + u.z * v.z + u.w * v.w, "dot product");
	eq4(V4::product(u, v), u.x * v.x, u.y * v.y, u.z * v.z, u.w * v.w, "component product");
	eq(u.copy(), u, "copy");
}
H h_v4_inplace() {
	V4 u = any4(), v = any4(); R k = any();
	V4 a;
	a = u; V4& r1 = (a += v); eq4(a, u.x + v.x, u.y + v.y, u.z + v.z, u.w + v.w, "+="); vp_check(&r1 == &a, "+= returns the vector");
	a = u; V4& r2 = (a -= v); eq4(a, u.x - v.x, u.y - v.y, u.z - v.z, u.w - v.w, "-="); vp_check(&r2 == &a, "-= returns the vector");
	a = u; V4& r3 = (a *= k); eq4(a, u.x * k, u.y * k, u.z * k, u.w * k, "*="); vp_check(&r3 == &a, "*= returns the vector");
	V3 t(v.x, v.y, v.z);
	a = u; V4& r6 = (a += t); eq4(a, u.x + v.x, u.y + v.y, u.z + v.z, u.w, "+= Vec3"); vp_check(&r6 == &a, "+= returns the vector");
	a = u; V4& r7 = (a -= t); eq4(a, u.x - v.x, u.y - v.y, u.z - v.z, u.w, "-= Vec3"); vp_check(&r7 == &a, "-= returns the vector");
	a = u; a += a; eq4(a, 2 * u.x, 2 * u.y, 2 * u.z, 2 * u.w, "+= itself");
	a = u; a -= a; eq4(a, 0, 0, 0, 0, "-= itself");
	a = u; a *= a.x; eq4(a, u.x * u.x, u.y * u.x, u.z * u.x, u.w * u.x, "*= own component");
	R d = nonzero();
	a = u; V4& r4 = (a /= d); eq4(a, u.x / d, u.y / d, u.z / d, u.w / d, "/="); vp_check(&r4 == &a, "/= returns the vector");
	eq4(u / d, u.x / d, u.y / d, u.z / d, u.w / d, "quotient");
	a = u; vp_assume(u.x != 0); a /= a.x; eq4(a, 1, u.y / u.x, u.z / u.x, u.w / u.x, "/= own component");
}
H h_v4_access() {
	V4 u = any4(), v = any4(); R k = any();
	eq4(V4(k), k, k, k, k, "construct from one value");
	eq4(V4(u.x, u.y, u.z, u.w), u.x, u.y, u.z, u.w, "construct");
	eq4(V4(u.x, u.y, u.z), u.x, u.y, u.z, 1, "construct, default w");
	V3 t(u.x, u.y, u.z);
	eq4(V4(t), u.x, u.y, u.z, 1, "construct from Vec3, default w");
	eq4(V4(t, k), u.x, u.y, u.z, k, "construct from Vec3");
	eq3(u.toVec3(), u.x, u.y, u.z, "toVec3");
	V4 a = v;
	a.set(u.x, u.y, u.z, u.w); eq(a, u, "set");
	a = v; a.set(u); eq(a, u, "set from vector");
	a = v; a.set(t, k); eq4(a, u.x, u.y, u.z, k, "set from Vec3");
	a = v; a.set(t); eq4(a, u.x, u.y, u.z, 0, "set from Vec3, default w");
	a = v; a.set(u.x, u.y, u.z); eq4(a, u.x, u.y, u.z, 0, "set, default w");
	int c = vp_choice(4); Coord cc = coord(c);
	a = u; a.set(cc, k); eq4(a, c == 0 ? k : u.x, c == 1 ? k : u.y, c == 2 ? k : u.z, c == 3 ? k : u.w, "set one coordinate");
	eq4(u.moved(cc, k), c == 0 ? u.x + k : u.x, c == 1 ? u.y + k : u.y, c == 2 ? u.z + k : u.z, c == 3 ? u.w + k : u.w, "moved");
	const V4& cu = u;
	vp_eq(cu.data()[c], c == 0 ? u.x : c == 1 ? u.y : c == 2 ? u.z : u.w, "data");
	a = u; a.data()[c] = k; eq4(a, c == 0 ? k : u.x, c == 1 ? k : u.y, c == 2 ? k : u.z, c == 3 ? k : u.w, "data writable");
	eq(u.cast<double>(), u, "cast");
	eq4(V4::Zero, 0, 0, 0, 0, "Zero"); eq4(V4::OneX, 1, 0, 0, 1, "OneX"); eq4(V4::OneY, 0, 1, 0, 1, "OneY"); eq4(V4::OneZ, 0, 0, 1, 1, "OneZ");
	eq4(V4::OneW, 0, 0, 0, 1, "OneW"); eq4(V4::OneXnw, 1, 0, 0, 0, "OneXnw"); eq4(V4::OneYnw, 0, 1, 0, 0, "OneYnw"); eq4(V4::OneZnw, 0, 0, 1, 0, "OneZnw");
}
H h_v4_compare() {
	V4 u = any4(), v = any4();
	bool e = u.x == v.x && u.y == v.y && u.z == v.z && u.w == v.w;
	vp_check((u == v) == e, "=="); vp_check((u != v) == !e, "!=");
	vp_check(u.isNull() == (u.x == 0 && u.y == 0 && u.z == 0 && u.w == 0), "isNull");
}
H h_v4_minmax() {
	V4 u = any4(), v = any4();
	eq4(V4::min(u, v), u.x < v.x ? u.x : v.x, u.y < v.y ? u.y : v.y, u.z < v.z ? u.z : v.z, u.w < v.w ? u.w : v.w, "min");
	eq4(V4::max(u, v), u.x > v.x ? u.x : v.x, u.y > v.y ? u.y : v.y, u.z > v.z ? u.z : v.z, u.w > v.w ? u.w : v.w, "max");
}
// dimension changes: dropping a coordinate keeps the two others, inserting keeps both values and adds a zero
H h_dimension() {
	V3 u = any3(); V2 p = any2();
	eq2(V2(u), u.x, u.y, "Vec2 of Vec3"); eq2(u.toVec2(), u.x, u.y, "toVec2");
	eq2(V2(u, Coord::X), u.y, u.z, "Vec2 of Vec3 without x"); eq2(u.toVec2(Coord::X), u.y, u.z, "toVec2 without x");
	eq2(V2(u, Coord::Y), u.x, u.z, "Vec2 of Vec3 without y");
	V2 d = u.toVec2(Coord::Y); eq2(d, u.z, u.x, "toVec2 without y");
	eq2(V2(u, Coord::Z), u.x, u.y, "Vec2 of Vec3 without z"); eq2(u.toVec2(Coord::Z), u.x, u.y, "toVec2 without z");
	eq3(V3(p), p.x, p.y, 0, "Vec3 of Vec2");
	eq3(V3(p, Coord::Z), p.x, p.y, 0, "Vec3 of Vec2 at z");
	eq3(V3(p, Coord::X), 0, p.x, p.y, "Vec3 of Vec2 at x");
	eq3(V3(p, Coord::Y), p.y, 0, p.x, "Vec3 of Vec2 at y");
	int c = vp_choice(3);
	eq(V3(p, coord(c)).toVec2(coord(c)), p, "inserting and dropping a coordinate");
}
// narrowing cast is the ordinary rounding of each component
H f_cast() {
	double a = vp_f64(), b = vp_f64(), c = vp_f64(), d = vp_f64();
	vp_assume(fabs(a) < 1e30 && fabs(b) < 1e30 && fabs(c) < 1e30 && fabs(d) < 1e30);
	Vec4<float> v4 = V4(a, b, c, d).cast<float>();
	vp_same32(v4.x, (float)a, "cast Vec4"); vp_same32(v4.y, (float)b, "cast Vec4"); vp_same32(v4.z, (float)c, "cast Vec4"); vp_same32(v4.w, (float)d, "cast Vec4");
	Vec3<float> v3 = V3(a, b, c).cast<float>();
	vp_same32(v3.x, (float)a, "cast Vec3"); vp_same32(v3.y, (float)b, "cast Vec3"); vp_same32(v3.z, (float)c, "cast Vec3");
	Vec2<float> v2 = V2(a, b).cast<float>();
	vp_same32(v2.x, (float)a, "cast Vec2"); vp_same32(v2.y, (float)b, "cast Vec2");
	Vec3<double> w3 = v3.cast<double>();
	vp_same64(w3.x, v3.x, "widening cast"); vp_same64(w3.y, v3.y, "widening cast"); vp_same64(w3.z, v3.z, "widening cast");
}
// comparison is exact: bit for bit over all finite floats
H f_compare() {
	float a = vp_f32(), b = vp_f32(), c = vp_f32(), d = vp_f32();
	Vec2<float> u(a, b), v(c, d);
	vp_check((u == v) == (a == c && b == d), "=="); vp_check((u != v) == !(a == c && b == d), "!=");
	vp_check(u.isNull() == (a == 0 && b == 0), "isNull");
	float e = vp_f32(), f = vp_f32();
	Vec3<float> p(a, b, e), q(c, d, f);
	vp_check((p == q) == (a == c && b == d && e == f), "=="); vp_check((p != q) == !(a == c && b == d && e == f), "!=");
	vp_check(p.isNull() == (a == 0 && b == 0 && e == 0), "isNull");
	float g = vp_f32(), h = vp_f32();
	Vec4<float> r(a, b, e, g), s(c, d, f, h);
	vp_check((r == s) == (a == c && b == d && e == f && g == h), "=="); vp_check((r != s) == !(a == c && b == d && e == f && g == h), "!=");
	vp_check(r.isNull() == (a == 0 && b == 0 && e == 0 && g == 0), "isNull");
}
