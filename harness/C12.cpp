// C12: interpolating rotations.
#include "h.h"
//@ h_ deadline=90

static Q comb(const Q& a, R k, const Q& b, R l) { return mkQ(a.x * k + b.x * l, a.y * k + b.y * l, a.z * k + b.z * l, a.w * k + b.w * l); }
// two perpendicular unit quaternions: every unit b is a cos + c sin
static void frame(Q& a, Q& c) {
	a = unitQ(); R p[3]; vp_unit(p, 3);
	// a (p,0) is perpendicular to a
	c = ham(a, mkQ(p[0], p[1], p[2], 0));
}

H h_lerp() {
	Q a, c; frame(a, c); R h = vp_range(0, 3.1415926), t = vp_range(0, 1);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	vp_assume((1 - t) * (1 - t) + t * t + 2 * t * (1 - t) * std::cos(h) > 0);
	Q r; Q& ret = r.lerp(a, b, t); vp_check(&ret == &r, "lerp returns the quaternion");
	vp_eq(n2(r), 1, "unit quaternion");
	R k = std::sqrt((1 - t) * (1 - t) + t * t + 2 * t * (1 - t) * std::cos(h));
	eq(comb(r, k, r, 0), comb(a, 1 - t, b, t), "on the chord, normalized");
	eq(Q::fromLerp(a, b, t), r, "fromLerp = lerp");
}
H h_lerp_ends() {
	Q a = unitQ(), b = unitQ();
	Q r; r.lerp(a, b, 0); eq(r, a, "lerp at 0"); r.lerp(a, b, 1); eq(r, b, "lerp at 1");
	eq(r.lerp(a, a, vp_range(0, 1)), a, "between the same");
}
// half the angle between the rotations is h, its cosine below 0.95
H h_slerp() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 1.5707963), t = vp_range(0, 1);
	vp_assume(std::cos(h) < 0.95);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	Q r; Q& ret = r.slerp(a, b, t); vp_check(&ret == &r, "slerp returns the quaternion");
	eq(r, comb(a, std::cos(h * t), c, std::sin(h * t)), "that fraction of the angle");
	eq(Q::fromSlerp(a, b, t), r, "fromSlerp = slerp");
}
H h_slerp_obtuse() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 1.5707963), t = vp_range(0, 1);
	vp_assume(std::cos(h) < 0.95); vp_assume(std::cos(h) > 0);
	Q b = comb(a, -std::cos(h), c, -std::sin(h));
	Q r; r.slerp(a, b, t);
	eq(r, comb(a, std::cos(h * t), c, std::sin(h * t)), "shorter arc");
}
H h_slerp_no_invert() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 3.1415926), t = vp_range(0, 1);
	vp_assume(std::cos(h) < 0.9499); vp_assume(std::sin(h) > 0);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	Q r; Q& ret = r.slerpNoInvert(a, b, t); vp_check(&ret == &r, "slerpNoInvert returns the quaternion");
	eq(r, comb(a, std::cos(h * t), c, std::sin(h * t)), "that fraction of the angle, the long way too");
	eq(Q::fromSlerpNoInvert(a, b, t), r, "fromSlerpNoInvert = slerpNoInvert");
}
// within 0.95: normalized chord, close to the arc
H h_slerp_near() {
	Q a, c; frame(a, c); R h = vp_range(0, 0.31756), t = vp_range(0, 1);
	vp_assume(std::cos(h) >= 0.95);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	R k = std::sqrt(SQ(1 - t + t * std::cos(h)) + SQ(t * std::sin(h)));
	Q chord = comb(a, 1 - t + t * std::cos(h), c, t * std::sin(h));
	Q r; r.slerp(a, b, t); eq(comb(r, k, r, 0), chord, "near pair");
	r.slerp(a, -b, t); eq(comb(r, k, r, 0), chord, "near pair, opposite sign");
	r.slerpNoInvert(a, b, t); eq(comb(r, k, r, 0), chord, "near pair, not inverted");
	vp_eq(n2(r), 1, "unit quaternion");
}
H h_max_angle() {
	Q a, c; frame(a, c);
	R h = vp_range(0.0001, 1.5707962), m = vp_range(0, 3.1415926); // half the angle between, the maximum
	Q b = comb(a, std::cos(h), c, std::sin(h));
	PART(2); if (part) { b = -b; }
	Q r; Q& ret = r.slerpMaxAngle(a, b, m); vp_check(&ret == &r, "slerpMaxAngle returns the quaternion");
	R s = part ? -1 : 1;
	if (2 * h <= m) { eq(comb(r, s, r, 0), comb(a, std::cos(h), c, std::sin(h)), "near enough: the target"); }
	else eq(r, comb(a, std::cos(m / 2), c, std::sin(m / 2)), "otherwise the maximum from the start");
	eq(Q::fromSlerpMaxAngle(a, b, m), r, "fromSlerpMaxAngle = slerpMaxAngle");
}
H h_max_angle_same() {
	Q a = unitQ(); R m = vp_range(0, 100);
	Q r; r.slerpMaxAngle(a, a, m); eq(r, a, "same rotation");
}
H h_exp_log() {
	Q q = unitQ(); vp_assume(q.w > -1);
	Q l = Q::log(q); vp_eq(l.w, 0, "log is pure");
	eq(Q::exp(l), q, "exp of log");
}
H h_log_exp() {
	V3 u = unit3(); R a = vp_range(0.0001, 3.1415926);
	Q p = mkQ(u.x * a, u.y * a, u.z * a, 0);
	Q e = Q::exp(p); eqQ(e, u.x * std::sin(a), u.y * std::sin(a), u.z * std::sin(a), std::cos(a), "exp");
	vp_eq(n2(e), 1, "unit quaternion");
	eq(Q::log(e), p, "log of exp");
	eq(Q::exp(mkQ(0, 0, 0, 0)), Q::One, "exp of zero"); eqQ(Q::log(Q::One), 0, 0, 0, 0, "log of one");
}
// spherical quadrangle: slerp of two slerps
H h_squad_outer() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 3.1415), t = vp_range(0, 1); vp_assume(std::cos(h) < 0.9499);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	Q r; Q& ret = r.set(a, a, b, b, t); vp_check(&ret == &r, "returns the quaternion");
	R g = h * (2 * t * (1 - t)); eq(r, comb(a, std::cos(g), c, std::sin(g)), "between fixed rotations");
	eq(Q::from(a, a, b, b, t), r, "from = set");
}
H h_squad_inner() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 3.1415), t = vp_range(0, 1); vp_assume(std::cos(h) < 0.9499);
	Q b = comb(a, std::cos(h), c, std::sin(h));
	Q r; r.set(a, b, a, b, t); eq(r, comb(a, std::cos(h * t), c, std::sin(h * t)), "both slerps the same");
}
H h_squad_ends() {
	Q a, c; frame(a, c); R h = vp_range(0.3176, 3.1415), k = vp_range(0.3176, 3.1415); PART(2);
	vp_assume(std::cos(h) < 0.9499); vp_assume(std::cos(k) < 0.9499);
	Q b = comb(a, std::cos(h), c, std::sin(h)), d = comb(a, std::cos(k), c, std::sin(k));
	Q r; if (part) { r.set(a, b, d, d, 0); eq(r, a, "at 0"); } else { r.set(b, a, d, d, 1); eq(r, a, "at 1"); }
}
// the inner control point between neighbours: via exp(-(log(via^-1 from) + log(via^-1 to)) / 4)
H h_control() {
	Q v = unitQ(), e = unitQ(), f = unitQ();
	Q a = ham(v, e), b = ham(v, f), l = Q::log(e), m = Q::log(f);
	Q r; Q& ret = r.set(a, v, b); vp_check(&ret == &r, "returns the quaternion");
	eq(r, ham(v, Q::exp(mkQ(-(l.x + m.x) / 4, -(l.y + m.y) / 4, -(l.z + m.z) / 4, 0))), "control point");
	eq(Q::from(a, v, b), r, "from = set");
}
static M3 ref3(const Q& q) { V3 a = turn(q, axis3(0)), b = turn(q, axis3(1)), c = turn(q, axis3(2)); return M3(a, b, c); }
static R dotq(const Q& a, const Q& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
// matrices: as the quaternions they are built from (bound: turns about two coordinate axes)
static Q about(int k, R c, R s) { return mkQ(k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0, c); }
static void mats(bool slerp) {
	PART(3);
	V2 p = unit2(), o = unit2(); vp_assume((p.x > 0) & (o.x > 0));
	Q a = about(part, p.x, p.y), b = about((part + 1) % 3, o.x, o.y);
	R t = vp_range(0, 1);
	M3 ma = ref3(a), mb = ref3(b);
	M3 r; Q q;
	if (slerp) { M3& ret = r.slerp(ma, mb, t); vp_check(&ret == &r, "slerp returns the matrix"); q = Q::fromSlerp(a, b, t); }
	else { M3& ret = r.slerpMaxAngle(ma, mb, 3 * t); vp_check(&ret == &r, "slerpMaxAngle returns the matrix"); q = Q::fromSlerpMaxAngle(a, b, 3 * t); }
	eq(r.x, turn(q, axis3(0)), "as the quaternions"); eq(r.y, turn(q, axis3(1)), "as the quaternions"); eq(r.z, turn(q, axis3(2)), "as the quaternions");
	eq(slerp ? M3::fromSlerp(ma, mb, t) : M3::fromSlerpMaxAngle(ma, mb, 3 * t), r, "the copying form");
	if (slerp) {
		M34 r4; r4.slerp(M34(ma, mk3(1, 2, 3)), M34(mb, mk3(1, 2, 3)), t); eq(r4.rs, r, "3x4: as the 3x3"); eq(r4, M34::fromSlerp(M34(ma, mk3(1, 2, 3)), M34(mb, mk3(1, 2, 3)), t), "3x4 copying form");
	} else {
		M34 r4; r4.slerpMaxAngle(M34(ma, mk3(1, 2, 3)), M34(mb, mk3(1, 2, 3)), 3 * t); eq(r4.rs, r, "3x4: as the 3x3"); eq(r4, M34::fromSlerpMaxAngle(M34(ma, mk3(1, 2, 3)), M34(mb, mk3(1, 2, 3)), 3 * t), "3x4 copying form");
	}
}
H h_mat3_slerp() { mats(true); }
H h_mat3_max_angle() { mats(false); }
H h_mat2_slerp() {
	R a = vp_range(-3.1415926, 3.1415926), d = vp_range(-3.1415926, 3.1415926), t = vp_range(0, 1);
	V2 ax = mk2(std::cos(a), std::sin(a)), ay = mk2(-std::sin(a), std::cos(a)), bx = mk2(std::cos(a + d), std::sin(a + d)), by = mk2(-std::sin(a + d), std::cos(a + d));
	M2 ma(ax, ay), mb(bx, by);
	M2 r; M2& ret = r.slerp(ma, mb, t); vp_check(&ret == &r, "slerp returns the matrix");
	R g = a + d * t; eq2(r.x, std::cos(g), std::sin(g), "that fraction of the angle, the shorter way"); eq2(r.y, -std::sin(g), std::cos(g), "that fraction of the angle, the shorter way");
	eq(M2::fromSlerp(ma, mb, t), r, "fromSlerp = slerp");
}
H h_mat2_max_angle() {
	R a = vp_range(-3.1415926, 3.1415926), d = vp_range(-3.1415926, 3.1415926), m = vp_range(0, 3.1415926);
	V2 ax = mk2(std::cos(a), std::sin(a)), ay = mk2(-std::sin(a), std::cos(a)), bx = mk2(std::cos(a + d), std::sin(a + d)), by = mk2(-std::sin(a + d), std::cos(a + d));
	M2 ma(ax, ay), mb(bx, by);
	M2 r; M2& ret = r.slerpMaxAngle(ma, mb, m); vp_check(&ret == &r, "slerpMaxAngle returns the matrix");
	R g = d > m ? a + m : d < -m ? a - m : a + d;
	eq2(r.x, std::cos(g), std::sin(g), "at most the maximum, the shorter way"); eq2(r.y, -std::sin(g), std::cos(g), "at most the maximum, the shorter way");
	eq(M2::fromSlerpMaxAngle(ma, mb, m), r, "fromSlerpMaxAngle = slerpMaxAngle");
}
