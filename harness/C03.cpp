// C03: rotating, mirroring and angle-interpolating vectors.
#include "h.h"
typedef Constants<R> K;

H h_v2_rotate() {
	V2 u = any2(), v = any2(); R a = any(), b = any();
	R s = std::sin(a), c = std::cos(a);
	V2 r = u.rotated(a);
	eq2(r, c * u.x - s * u.y, s * u.x + c * u.y, "rotated counter-clockwise");
	V2 w = u; V2& ret = w.rotate(a);
	eq(w, r, "rotate = rotated"); vp_check(&ret == &w, "rotate returns the vector");
	eq(r.lengthSqr(), u.x * u.x + u.y * u.y, "length kept");
	eq(r.x * u.rotated(a).x + r.y * r.y, u.x * u.x + u.y * u.y, "length kept");
	V2 q = v.rotated(a);
	eq(dot(r, q), dot(u, v), "angle between kept");
	eq(u.rotated(a).rotated(b), u.rotated(a + b), "angles add");
	eq(u.rotated(0), u, "rotation by zero");
	eq(u.rotated(a).rotated(-a), u, "rotation undone");
	eq(u.rotated(a + K::PI_TIMES_2), r, "full turn");
}
H h_v2_quarters() {
	V2 u = any2();
	eq2(u.rotated90(), -u.y, u.x, "rotated90"); eq2(u.rotated180(), -u.x, -u.y, "rotated180"); eq2(u.rotated270(), u.y, -u.x, "rotated270");
	V2 a = u, b = u, c = u; a.rotate90(); b.rotate180(); c.rotate270();
	eq2(a, -u.y, u.x, "rotate90"); eq2(b, -u.x, -u.y, "rotate180"); eq2(c, u.y, -u.x, "rotate270");
	eq(u.rotated(K::PI_OVER_2), u.rotated90(), "quarter turn"); eq(u.rotated(K::PI), u.rotated180(), "half turn");
	eq(u.rotated(K::PI_OVER_2 * 3), u.rotated270(), "three quarter turn");
	for (int k = 0; k < 2; ++k) {
		V2 m = u; m.mirror(coord(k));
		eq2(m, k == 0 ? -u.x : u.x, k == 1 ? -u.y : u.y, "mirror"); eq(u.mirrored(coord(k)), m, "mirrored = mirror");
		eq(m.mirrored(coord(k)), u, "mirror involution");
	}
}
H h_v3_rotate() {
	V3 u = any3(), v = any3(); R a = any(), b = any();
	R s = std::sin(a), c = std::cos(a);
	for (int k = 0; k < 3; ++k) {
		Coord x = coord(k);
		V3 e = axis3(k), r = u.rotated(x, a);
		// Rodrigues
		V3 ref = add(add(mul(u, c), mul(crs(e, u), s)), mul(e, dot(e, u) * (1 - c)));
		eq(r, ref, "rotated about the axis counter-clockwise");
		V3 w = u; V3& ret = w.rotate(x, a);
		eq(w, r, "rotate = rotated"); vp_check(&ret == &w, "rotate returns the vector");
		eq(dot(r, v.rotated(x, a)), dot(u, v), "length and angle kept");
		eq(u.rotated(x, a).rotated(x, b), u.rotated(x, a + b), "angles add");
		V3 m = u; m.mirror(x);
		eq3(m, k == 0 ? -u.x : u.x, k == 1 ? -u.y : u.y, k == 2 ? -u.z : u.z, "mirror"); eq(u.mirrored(x), m, "mirrored = mirror");
		eq(m.mirrored(x), u, "mirror involution");
	}
}
H h_v2_angle() {
	R a = vp_range(-3.1415926, 3.1415926), l = positive();
	V2 u = V2::fromAngle(a, l);
	eq2(u, l * std::cos(a), l * std::sin(a), "fromAngle");
	eq(u.angle(), a, "angle of fromAngle");
	V2 w; w.setAngle(a, l); eq(w, u, "setAngle = fromAngle");
	V2 v = any2(); vp_assume(v.x != 0 || v.y != 0);
	eq(V2::fromAngle(v.angle(), v.length()), v, "fromAngle of angle");
	vp_check(v.angle() <= K::PI && v.angle() > -K::PI, "angle range");
}
H h_v2_angle_any() {
	R a = any(), l = any();
	eq2(V2::fromAngle(a, l), l * std::cos(a), l * std::sin(a), "fromAngle");
	eq2(V2::fromAngle(a), std::cos(a), std::sin(a), "fromAngle unit");
}
// v is u's direction turned by d, the shorter way
H h_v2_clerp() {
	R a = vp_range(-3.1415926, 3.1415926), d = vp_range(-3.1415926, 3.1415926), lu = positive(), lv = positive(), t = vp_range(0, 1);
	V2 u = mk2(lu * std::cos(a), lu * std::sin(a)), v = mk2(lv * std::cos(a + d), lv * std::sin(a + d));
	V2 w; w.clerp(u, v, t);
	R l = lu + (lv - lu) * t;
	eq2(w, l * std::cos(a + d * t), l * std::sin(a + d * t), "clerp on the shorter arc");
	eq(V2::fromClerp(u, v, t), w, "fromClerp = clerp");
	V2 x = u; x.clerp(x, v, t); eq(x, w, "clerp in place");
	x = v; x.clerp(u, x, t); eq(x, w, "clerp in place");
}
H h_v2_clerp_ends() {
	V2 u = any2(), v = any2(); 
	V2 w; w.clerp(u, v, 0); eq(w, u, "clerp at 0"); w.clerp(u, v, 1); eq(w, v, "clerp at 1");
	w.clerpMaxAngle(u, v, 0); eq(w, u, "maximum angle 0");
	V3 a = any3(), b = any3(), c;
	c.slerp(a, b, 0); eq(c, a, "slerp at 0"); c.slerp(a, b, 1); eq(c, b, "slerp at 1");
	c.slerpMaxAngle(a, b, 0); eq(c, a, "maximum angle 0");
}
H h_v2_clerp_max() {
	R a = vp_range(-3.1415926, 3.1415926), d = vp_range(-3.1415926, 3.1415926), lu = positive(), lv = positive(), m = vp_real();
	vp_assume(m > 0);
	V2 u = mk2(lu * std::cos(a), lu * std::sin(a)), v = mk2(lv * std::cos(a + d), lv * std::sin(a + d));
	V2 w; w.clerpMaxAngle(u, v, m);
	R ad = d < 0 ? -d : d;
	if (ad <= m) eq(w, v, "target reached when near enough");
	else {
		R k = m / ad, l = lu + (lv - lu) * k, g = d < 0 ? -m : m;
		eq2(w, l * std::cos(a + g), l * std::sin(a + g), "turned by the maximum");
	}
	eq(V2::fromClerpMaxAngle(u, v, m), w, "fromClerpMaxAngle = clerpMaxAngle");
}
// u and v span any plane: p, q are two columns of an arbitrary rotation
static inline void frame(V3& p, V3& q) {
	R a[4]; vp_unit(a, 4);
	p = mk3(1 - 2 * (a[1] * a[1] + a[2] * a[2]), 2 * (a[0] * a[1] + a[2] * a[3]), 2 * (a[0] * a[2] - a[1] * a[3]));
	q = mk3(2 * (a[0] * a[1] - a[2] * a[3]), 1 - 2 * (a[0] * a[0] + a[2] * a[2]), 2 * (a[1] * a[2] + a[0] * a[3]));
}
H h_v3_slerp() {
	V3 p, q; frame(p, q);
	R d = vp_range(0.06, 3.1415926), lu = positive(), lv = positive(), t = vp_range(0, 1);
	V3 u = mul(p, lu), v = add(mul(p, lv * std::cos(d)), mul(q, lv * std::sin(d)));
	V3 w; w.slerp(u, v, t);
	R l = lu + (lv - lu) * t;
	eq(w, add(mul(p, l * std::cos(d * t)), mul(q, l * std::sin(d * t))), "slerp on the shorter arc");
}
H h_v3_slerp_max() {
	V3 p, q; frame(p, q);
	R d = vp_range(0.06, 3.1415926), lu = positive(), lv = positive(), m = positive();
	V3 u = mul(p, lu), v = add(mul(p, lv * std::cos(d)), mul(q, lv * std::sin(d)));
	V3 w; w.slerpMaxAngle(u, v, m);
	if (d <= m) eq(w, v, "target reached when near enough");
	else {
		R l = lu + (lv - lu) * (m / d);
		eq(w, add(mul(p, l * std::cos(m)), mul(q, l * std::sin(m))), "turned by the maximum");
	}
}
H h_v3_slerp_opposite() {
	V3 p = unit3();
	R lu = positive(), lv = positive(), t = vp_range(0, 1), m = positive();
	V3 u = mul(p, lu), v = mul(p, -lv), w;
	w.slerp(u, v, t);
	R l = lu + (lv - lu) * t;
	eq(dot(w, w), l * l, "length between opposite vectors");
	eq(dot(w, p), l * std::cos(K::PI * t), "angle between opposite vectors");
	w.slerpMaxAngle(u, v, m);
	if (m < K::PI) {
		R k = lu + (lv - lu) * (m / K::PI);
		eq(dot(w, w), k * k, "length towards the opposite vector"); eq(dot(w, p), k * std::cos(m), "angle towards the opposite vector");
	} else eq(w, v, "opposite target reached");
}
// bound: vectors less than 0.05 rad apart may be interpolated linearly: length within 0.2 per cent, direction between the two
H h_v3_slerp_near() {
	V3 p, q;
	R d = vp_range(0, 0.05), lu = positive(), lv = positive(), t = vp_range(0, 1);
	R a = any(), b = any();
	q = mk3(0, 0, 1); p = mk3(std::cos(a), std::sin(a), 0);
	V3 u = mul(p, lu), v = add(mul(p, lv * std::cos(d)), mul(q, lv * std::sin(d)));
	V3 w; w.slerp(u, v, t);
	R l = lu + (lv - lu) * t, x = dot(w, p), y = dot(w, q);
	vp_le(0, x, "forwards"); vp_le(0, y, "not before the first"); vp_le(0, x * std::sin(d) - y * std::cos(d), "not beyond the last");
	vp_le(x * x + y * y, l * l, "length at most"); vp_le(l * l * 0.996, x * x + y * y, "length at least");
}
H h_v3_slerp_zero() {
	V3 u = any3(), z(R(0), R(0), R(0)), w; R t = vp_range(0, 1), m = positive();
	w.slerp(z, u, t); eq(w, mul(u, t), "slerp from zero");
	w.slerp(u, z, t); eq(w, mul(u, 1 - t), "slerp to zero");
	w.slerpMaxAngle(z, u, m); eq(w, u, "maximum angle from zero");
	w.slerp(u, u, t); eq(w, u, "slerp between equals");
	w.slerpMaxAngle(u, u, m); eq(w, u, "maximum angle between equals");
}
H h_v3_forms() {
	V3 p, q; frame(p, q);
	R d = vp_range(0.06, 3.1415926), lu = positive(), lv = positive(), t = vp_range(0, 1), m = positive();
	V3 u = mul(p, lu), v = add(mul(p, lv * std::cos(d)), mul(q, lv * std::sin(d))), w, x;
	w.slerp(u, v, t); eq(V3::fromSlerp(u, v, t), w, "fromSlerp = slerp");
	x = u; x.slerp(x, v, t); eq(x, w, "slerp in place"); x = v; x.slerp(u, x, t); eq(x, w, "slerp in place");
	w.slerpMaxAngle(u, v, m); eq(V3::fromSlerpMaxAngle(u, v, m), w, "fromSlerpMaxAngle = slerpMaxAngle");
	x = u; x.slerpMaxAngle(x, v, m); eq(x, w, "slerpMaxAngle in place"); x = v; x.slerpMaxAngle(u, x, m); eq(x, w, "slerpMaxAngle in place");
}
//@ h_random_unit maxrand=5
// bound: random unit vectors: at most 5 calls of rand()
H h_random_unit() {
	vp_trig_den(2);
	V2 a = V2::randomUnitVector(); eq(a.x * a.x + a.y * a.y, 1, "random unit vector 2D");
	V3 b = V3::randomUnitVector(); eq(dot(b, b), 1, "random unit vector 3D");
}
