// C25: scalar helpers.
#include "h.h"
typedef Constants<R> K;
template <class T> T in();
template <> float in<float>() { return vp_f32(); }
template <> double in<double>() { return vp_f64(); }

//@ f_mod* qtimeout=50000
// every finite x and y, bit by bit; the remainder's own value is the C library's
// bound: divisor at least 1e-30 (half of the smallest subnormal is zero)
template <class T> void modRange() {
	T x = in<T>(), y = in<T>();
	vp_assume(y >= T(1e-30));
	T r = fmodPositive(x, y);
	vp_check(r >= 0, "positive modulo not negative");
	vp_check(r < y, "positive modulo below the divisor");
	if (x >= 0 && x < y) vp_check(r == x, "positive modulo keeps values in range");
}
H f_modPositive_f() { modRange<float>(); }
H f_modPositive_d() { modRange<double>(); }
template <class T> void modCentred() {
	T x = in<T>(), y = in<T>();
	vp_assume(y >= T(1e-30)); vp_assume(y <= T(1e30)); vp_assume(x <= T(1e30) && x >= T(-1e30));
	T r = fmodCentered(x, y), h = y * T(0.5);
	vp_check(r >= -h, "centred modulo not below minus half");
	vp_check(r < h, "centred modulo below half");
}
H f_modCentred_f() { modCentred<float>(); }
H f_modCentred_d() { modCentred<double>(); }
H h_modMultiple() {
	R x = any(), y = positive(); PART(3);
	R r = part == 0 ? fmodPositive(x, y) : part == 1 ? fmodCentered(x, y) : mathlib::fmod(x, y);
	R k = (x - r) / y;
	eq(k, std::floor(k), "modulo differs by a multiple");
	if (part == 0) vp_check(r >= 0 && r < y, "positive modulo in range");
	if (part == 1) vp_check(r >= -y / 2 && r < y / 2, "centred modulo in range");
	if (part == 2) vp_check(x >= 0 ? r >= 0 && r < y : r <= 0 && r > -y, "modulo has the sign of x");
}

H h_degrees() {
	R x = any();
	eq(degreeToRadian(radianToDegree(x)), x, "degree to radian inverse");
	eq(radianToDegree(degreeToRadian(x)), x, "radian to degree inverse");
	eq(degreeToRadian(R(180)), K::PI, "180 degrees"); eq(degreeToRadian(x) * 180, x * K::PI, "degree to radian linear");
	eq(radianToDegree(K::PI_OVER_2), 90, "right angle"); eq(K::PI_TIMES_2, 2 * K::PI, "full turn");
	eq(K::PI_OVER_4 * 4, K::PI, "eighth"); eq(K::PI_OVER_8 * 8, K::PI, "sixteenth"); eq(K::PI_OVER_16 * 16, K::PI, "32nd");
	eq(K::PI_OVER_3 * 3, K::PI, "third"); eq(K::PI_OVER_6 * 6, K::PI, "sixth");
}
H h_saturate() {
	R x = any();
	R c = x > 1 ? R(1) : x < -1 ? R(-1) : x;
	R s = mathlib::asin(x), a = mathlib::acos(x);
	eq(std::sin(s), c, "asin of the saturated argument"); eq(std::cos(a), c, "acos of the saturated argument");
	vp_check(std::cos(s) >= 0, "asin in range"); vp_check(std::sin(a) >= 0, "acos in range");
	if (x >= 1) { eq(s, K::PI_OVER_2, "asin at the upper end"); eq(a, 0, "acos at the upper end"); }
	if (x <= -1) { eq(s, -K::PI_OVER_2, "asin at the lower end"); eq(a, K::PI, "acos at the lower end"); }
}
template <class T> void notNan() { T x = in<T>(); T s = mathlib::asin(x), c = mathlib::acos(x); vp_check(s == s, "asin a number"); vp_check(c == c, "acos a number"); }
H f_saturate_f() { notNan<float>(); }
H f_saturate_d() { notNan<double>(); }

// random helpers: whatever rand() returns
H f_randInt() { int n = vp_int(1, 2147483647); int r = mathlib::rand(n); vp_check(r >= 0 && r < n, "rand in range"); }
H f_randBetweenInt() {
	int a = vp_int(-1073741824, 1073741823), b = vp_int(-1073741824, 1073741823);
	vp_assume(a < b);
	int r = randBetween(a, b); vp_check(r >= a && r < b, "randBetween in range");
}
H f_randAmplitudeInt() { int n = vp_int(1, 1073741823); int r = randAmplitude(n); vp_check(r >= -n && r <= n, "randAmplitude in range"); }
H f_randAmplitudeInt2() {
	int a = vp_int(0, 1073741823), b = vp_int(0, 1073741823);
	vp_assume(a < b);
	int r = randAmplitude(a, b); int m = r < 0 ? -r : r;
	vp_check(m >= a && m <= b, "randAmplitude between in range");
}
H h_randReal() {
	R f = any(), t = any(); PART(4);
	R lo = f < 0 ? f : 0, hi = f < 0 ? 0 : f;
	if (part == 0) { R r = mathlib::rand(f); vp_check((r >= lo) & (r <= hi), "rand in range"); }
	if (part == 1) { R a = f < t ? f : t, b = f < t ? t : f; R r = randBetween(f, t); vp_check((r >= a) & (r <= b), "randBetween in range"); }
	if (part == 2) { R g = hi - lo; R r = randAmplitude(f); vp_check((r >= -g) & (r <= g), "randAmplitude in range"); }
	if (part == 3) { vp_assume(f >= 0); vp_assume(t >= f); R r = randAmplitude(f, t); R m = r < 0 ? -r : r; vp_check((m >= f) & (m <= t), "randAmplitude between in range"); }
}
//@ h_randUnit* maxrand=6
H h_randUnit2() { V2 v = V2::randomUnitVector(); eq(dot(v, v), 1, "random unit vector"); }
H h_randUnit3() { V3 v = V3::randomUnitVector(); eq(dot(v, v), 1, "random unit vector"); }

// response curves; a value outside the dead zone is written as threshold + (1 - threshold) u
const ResponseCurveType CURVE[6] = { ResponseCurveType::Zero, ResponseCurveType::Linear, ResponseCurveType::Parabolic, ResponseCurveType::Cubic, ResponseCurveType::Exponential, ResponseCurveType::Cosine };
H h_curveDead() {
	R h = any(), v = any(); PART(6);
	vp_assume(h >= 0); vp_assume(h < 1); vp_assume(v <= h); vp_assume(v >= -h);
	eq(evaluate(v, h, CURVE[part]), 0, "zero in the dead zone");
}
H h_curveFull() {
	R h = any(); PART(6);
	vp_assume(h >= 0); vp_assume(h < 1);
	eq(evaluate(R(1), h, CURVE[part]), part != 0, "one at full deflection");
	eq(evaluate(R(-1), h, CURVE[part]), -(part != 0), "minus one at full deflection");
}
H h_curveRange() {
	R h = any(), u = vp_range(0, 1); PART(6);
	vp_assume(h >= 0); vp_assume(h < 1); vp_assume(u > 0);
	R v = h + (1 - h) * u;
	R p = evaluate(v, h, CURVE[part]), n = evaluate(-v, h, CURVE[part]);
	vp_check(p >= 0, "keeps the sign"); vp_check(p <= 1 + 1e-9, "at most one"); eq(n, -p, "odd");
	if (part == 1) eq(p, u, "linear curve");
	if (part == 2) eq(p, u * u, "parabolic curve");
	if (part == 3) eq(p, u * u * u, "cubic curve");
}
H h_curveMonotone() {
	R h = any(), u = vp_range(0, 1), d = vp_range(0, 1); PART(6);
	vp_assume(h >= 0); vp_assume(h < 1); vp_assume(u > 0); vp_assume(u + d <= 1);
	vp_check(evaluate(h + (1 - h) * (u + d), h, CURVE[part]) >= evaluate(h + (1 - h) * u, h, CURVE[part]) - 1e-9, "never decreases");
}
