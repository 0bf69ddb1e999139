// C02: length, distance, normalisation.
#include "h.h"

H h_v2_length() {
	V2 u = any2(), v = any2();
	vp_eq(u.lengthSqr(), u.x * u.x + u.y * u.y, "lengthSqr");
	R l = u.length();
	vp_eq(l * l, u.x * u.x + u.y * u.y, "length squared");
	vp_check(l >= 0, "length not negative");
	vp_check((l == 0) == (u.x == 0 && u.y == 0), "length zero only for the zero vector");
	vp_eq(distanceSqr(u, v), SQ(u.x - v.x) + SQ(u.y - v.y), "distanceSqr");
	R d = distance(u, v);
	vp_eq(d * d, SQ(u.x - v.x) + SQ(u.y - v.y), "distance squared");
	vp_check(d >= 0, "distance not negative");
	vp_eq(distance(v, u), d, "distance symmetric");
	vp_eq((u - v).length(), d, "distance is length of difference");
}
H h_v3_length() {
	V3 u = any3(), v = any3();
	vp_eq(u.lengthSqr(), u.x * u.x + u.y * u.y + u.z * u.z, "lengthSqr");
	R l = u.length();
	vp_eq(l * l, u.x * u.x + u.y * u.y + u.z * u.z, "length squared");
	vp_check(l >= 0, "length not negative");
	vp_check((l == 0) == (u.x == 0 && u.y == 0 && u.z == 0), "length zero only for the zero vector");
	vp_eq(distanceSqr(u, v), SQ(u.x - v.x) + SQ(u.y - v.y) + SQ(u.z - v.z), "distanceSqr");
	R d = distance(u, v);
	vp_eq(d * d, SQ(u.x - v.x) + SQ(u.y - v.y) + SQ(u.z - v.z), "distance squared");
	vp_check(d >= 0, "distance not negative");
	vp_eq(distance(v, u), d, "distance symmetric");
	vp_eq((u - v).length(), d, "distance is length of difference");
}
H h_v4_length() {
	V4 u = any4();
	vp_eq(u.lengthSqr(), u.x * u.x + u.y * u.y + u.z * u.z + u.w * u.w, "lengthSqr");
	R l = u.length();
	vp_eq(l * l, u.x * u.x + u.y * u.y + u.z * u.z + u.w * u.w, "length squared");
	vp_check(l >= 0, "length not negative");
	vp_check((l == 0) == (u.x == 0 && u.y == 0 && u.z == 0 && u.w == 0), "length zero only for the zero vector");
}
H h_v2_normalize() {
	V2 u = any2(); R k = any();
	vp_assume(u.x != 0 || u.y != 0);
	R l = std::sqrt(u.x * u.x + u.y * u.y);
	V2 a = u; R r = a.normalize(k);
	vp_eq(r, l, "normalize returns the old length");
	eq2(a, u.x * k / l, u.y * k / l, "normalize(k)");
	vp_eq(a.lengthSqr(), k * k, "length after normalize(k)");
	eq2(u.normalized(k), u.x * k / l, u.y * k / l, "normalized(k)");
	V2 b = u; vp_eq(b.normalize(), l, "normalize returns the old length"); eq2(b, u.x / l, u.y / l, "normalize");
	eq2(u.normalized(), u.x / l, u.y / l, "normalized");
	vp_eq(b.length(), 1, "unit length");
}
H h_v3_normalize() {
	V3 u = any3(); R k = any();
	vp_assume(u.x != 0 || u.y != 0 || u.z != 0);
	R l = std::sqrt(u.x * u.x + u.y * u.y + u.z * u.z);
	V3 a = u; R r = a.normalize(k);
	vp_eq(r, l, "normalize returns the old length");
	eq3(a, u.x * k / l, u.y * k / l, u.z * k / l, "normalize(k)");
	vp_eq(a.lengthSqr(), k * k, "length after normalize(k)");
	eq3(u.normalized(k), u.x * k / l, u.y * k / l, u.z * k / l, "normalized(k)");
	V3 b = u; vp_eq(b.normalize(), l, "normalize returns the old length"); eq3(b, u.x / l, u.y / l, u.z / l, "normalize");
	eq3(u.normalized(), u.x / l, u.y / l, u.z / l, "normalized");
	vp_eq(b.length(), 1, "unit length");
}
H h_zero() {
	R k = any();
	V2 a(R(0), R(0)); vp_eq(a.normalize(k), 0, "normalize zero returns 0"); eq2(a, 0, 0, "normalize zero");
	V2 c(R(0), R(0)); eq2(c.normalized(k), 0, 0, "normalized zero"); eq2(c.normalized(), 0, 0, "normalized zero");
	vp_eq(c.normalize(), 0, "normalize zero returns 0"); eq2(c, 0, 0, "normalize zero");
	V3 b(R(0), R(0), R(0)); vp_eq(b.normalize(k), 0, "normalize zero returns 0"); eq3(b, 0, 0, 0, "normalize zero");
	V3 d(R(0), R(0), R(0)); eq3(d.normalized(k), 0, 0, 0, "normalized zero"); eq3(d.normalized(), 0, 0, 0, "normalized zero");
	vp_eq(d.normalize(), 0, "normalize zero returns 0"); eq3(d, 0, 0, 0, "normalize zero");
}
// bit-exact: zeros of either sign, any target length
H f_zero() {
	float x = vp_f32(), y = vp_f32(), z = vp_f32(), k = vp_f32();
	vp_assume(x == 0 && y == 0 && z == 0);
	Vec3<float> u(x, y, z), n = u.normalized(k);
	vp_same32(n.x, 0, "normalized zero"); vp_same32(n.y, 0, "normalized zero"); vp_same32(n.z, 0, "normalized zero");
	float l = u.normalize(k);
	vp_same32(l, 0, "normalize zero returns 0");
	vp_same32(u.x, 0, "normalize zero"); vp_same32(u.y, 0, "normalize zero"); vp_same32(u.z, 0, "normalize zero");
	Vec2<float> p(x, y), m = p.normalized(k);
	vp_same32(m.x, 0, "normalized zero"); vp_same32(m.y, 0, "normalized zero");
	vp_same32(p.normalize(k), 0, "normalize zero returns 0");
	vp_same32(p.x, 0, "normalize zero"); vp_same32(p.y, 0, "normalize zero");
}
