// C26: easing functions and scalar interpolation.
#include "h.h"
typedef InterpolationMode I;
const I MODE[29] = { I::Linear, I::Parabolic, I::Cubic, I::Exponential, I::Cosine, I::QuadraticIn, I::QuadraticOut, I::QuadraticInOut,
	I::CubicIn, I::CubicOut, I::CubicInOut, I::QuarticIn, I::QuarticOut, I::QuarticInOut, I::QuinticIn, I::QuinticOut, I::QuinticInOut,
	I::SinusoidalIn, I::SinusoidalOut, I::SinusoidalInOut, I::ExponentialIn, I::ExponentialOut, I::ExponentialInOut,
	I::Exponential2In, I::Exponential2Out, I::Exponential2InOut, I::CircularIn, I::CircularOut, I::CircularInOut };
// the exponential modes are normalised by constants of six digits
// bound: the first exponential family within 3e-6 (known finding beyond that)
const R EXP = 3e-6;
inline R slack(int m) { return m >= 20 && m < 23 ? EXP : R(0); }
inline R f(R t, int m) { return interpolationRatio(t, MODE[m]); }

H h_outside() {
	R t = any(); PART(29);
	vp_assume((t <= 0) | (t >= 1));
	eq(f(t, part), t >= 1, "ratio outside [0,1]");
}
void range(int a, int n) {
	R t = vp_range(0, 1); int m = a + vp_choice(n);
	R r = f(t, m), e = slack(m);
	vp_le(-e, r, "not below 0"); vp_le(r, 1 + e, "not above 1");
}
H h_range0() { range(0, 10); }
H h_range1() { range(10, 10); }
H h_range2() { range(20, 9); }
// t and t + d, or (towards the upper end) 1 - e - d and 1 - e; in-out modes one half at a time
void monotone(const int* l, int n) {
	R t = vp_range(0, 1), d = vp_range(0, 1); int m = l[vp_choice(n)];
	vp_assume(t + d <= 1);
	vp_le(f(t, m) - slack(m), f(t + d, m), "never decreases");
}
void monotoneDown(const int* l, int n) {
	R e = vp_range(0, 1), d = vp_range(0, 1); int m = l[vp_choice(n)];
	vp_assume(e + d <= 1);
	vp_le(f(1 - e - d, m) - slack(m), f(1 - e, m), "never decreases");
}
const int PLAIN[7] = { 0, 1, 2, 3, 4, 5, 8 }, HIGH[3] = { 11, 14, 17 }, EXPS[3] = { 20, 23, 26 }, OUT[8] = { 6, 9, 12, 15, 18, 21, 24, 27 }, INOUT[8] = { 7, 10, 13, 16, 19, 22, 25, 28 };
H h_monotone0() { monotone(PLAIN, 7); }
H h_monotone1() { monotone(HIGH, 3); }
H h_monotone2() { monotone(EXPS, 3); }
H h_monotone3() { monotoneDown(OUT, 4); }
H h_monotone4() { monotoneDown(OUT + 4, 4); }
H h_monotone5() {
	R t = vp_range(0, 1), d = vp_range(0, 1); int m = INOUT[vp_choice(8)];
	vp_assume(t + d <= 1);
	vp_le(f(t / 2, m) - slack(m), f((t + d) / 2, m), "never decreases in the first half");
}
H h_monotone6() {
	R e = vp_range(0, 1), d = vp_range(0, 1); int m = INOUT[vp_choice(8)];
	vp_assume(e + d <= 1);
	vp_le(f(1 - (e + d) / 2, m) - slack(m), f(1 - e / 2, m), "never decreases in the second half");
}
H h_halves() { R t = vp_range(0, 1); int m = INOUT[vp_choice(8)]; R e = slack(m); vp_le(f(t / 2, m), R(0.5) + e, "first half at most one half"); vp_le(R(0.5) - e, f(1 - t / 2, m), "second half at least one half"); }
// in, out, in-out follow each other in the list from 5 on
H h_mirror() {
	R t = vp_range(0, 1); PART(8); int in = 5 + 3 * part;
	eq(f(t, in + 1), 1 - f(1 - t, in), "out is in reversed");
}
H h_inOut() {
	R t = vp_range(0, 1); PART(8); int in = 5 + 3 * part;
	vp_assume(t > 0); vp_assume(t < 1);
	eq(f(t / 2, in + 2), f(t, in) / 2, "first half of in-out is in");
	eq(f((1 + t) / 2, in + 2), (1 + f(t, in + 1)) / 2, "second half of in-out is out");
}
H h_inOutHalf() { PART(8); R h = f(R(0.5), 7 + 3 * part); if (part == 5) vp_near(h, 0.5, EXP, "in-out at one half"); else eq(h, 0.5, "in-out at one half"); }
H h_exponentialExact() { // known finding
	PART(3); R t = vp_range(0.9999999, 0.99999999);
	if (part == 0) vp_le(f(t, 20), 1, "exponential in not above 1");
	if (part == 1) vp_le(0, f(1 - t, 21), "exponential out not below 0");
	if (part == 2) eq(f(R(0.5), 22), 0.5, "exponential in-out at one half");
}
// bound: the second exponential family starts and ends 2^-20 away from the ends, as published
H h_shape() {
	R t = vp_range(0, 1); PART(14);
	vp_assume(t < 1); vp_assume(t > 0);
	R h = t * Constants<R>::PI_OVER_2;
	switch (part) {
	case 0: eq(f(t, 0), t, "linear"); break;
	case 1: eq(f(t, 1), t * t, "parabolic"); break;
	case 2: eq(f(t, 2), t * t * t, "cubic"); break;
	case 3: eq(f(t, 3), std::pow(R(2), t) - 1, "exponential"); break;
	case 4: eq(f(t, 4), 1 - std::cos(h), "cosine"); break;
	case 5: eq(f(t, 5), t * t, "quadratic"); break;
	case 6: eq(f(t, 8), t * t * t, "cubic in"); break;
	case 7: eq(f(t, 11), t * t * t * t, "quartic"); break;
	case 8: eq(f(t, 14), t * t * t * t * t, "quintic"); break;
	case 9: eq(f(t, 17), 1 - std::cos(h), "sinusoidal"); break;
	case 10: vp_near(f(t, 20), (std::pow(R(2), 10 * t) - 1) / 1023, EXP, "exponential in"); break;
	case 11: eq(f(t, 23) * 1048576, std::pow(R(2), 20 * t), "exponential 2 in"); break;
	case 12: { R c = 1 - f(t, 26); eq(c * c + t * t, 1, "circular"); break; }
	case 13: eq(f(t, 18), std::sin(h), "sinusoidal out"); break;
	}
}

H h_lerpMode() {
	R a = any(), b = any(), t = any(); PART(29);
	R r = f(t, part);
	eq(lerp(a, b, t, MODE[part]), lerp(a, b, r), "lerp at the mapped ratio");
	V2 u = lerp(mk2(a, b), mk2(b, a), t, MODE[part]); eq2(u, a + (b - a) * r, b + (a - b) * r, "lerp of 2D vectors at the mapped ratio");
	V3 v = lerp(mk3(a, b, 1), mk3(b, a, 2), t, MODE[part]); eq3(v, a + (b - a) * r, b + (a - b) * r, 1 + r, "lerp of 3D vectors at the mapped ratio");
}
H h_lerp() {
	R a = any(), b = any(), t = any();
	eq(lerp(a, b, R(0)), a, "lerp at 0"); eq(lerp(a, b, R(1)), b, "lerp at 1");
	eq(lerp(a, b, t), (1 - t) * a + t * b, "lerp");
	V2 u = any2(), v = any2(); eq(lerp(u, v, R(0)), u, "lerp at 0"); eq(lerp(u, v, R(1)), v, "lerp at 1"); eq(lerp(u, v, t), add(mul(u, 1 - t), mul(v, t)), "lerp");
	V3 p = any3(), q = any3(); eq(lerp(p, q, R(0)), p, "lerp at 0"); eq(lerp(p, q, R(1)), q, "lerp at 1"); eq(lerp(p, q, t), add(mul(p, 1 - t), mul(q, t)), "lerp");
}
H h_lerpInt() {
	int a = vp_int(-1000000000, 1000000000), b = vp_int(-1000000000, 1000000000); R t = vp_range(0, 1);
	int r = lerp(a, b, t);
	vp_check(a <= b ? (r >= a) & (r <= b) : (r >= b) & (r <= a), "integer lerp between its ends");
}
// bound: bit-exact integer ends up to 2^22 (float ratio) and 2^29 (double ratio)
template <class T> void lerpInt(int n) {
	int a = vp_int(-n, n), b = vp_int(-n, n);
	vp_eqi(lerp(a, b, T(0)), a, "integer lerp at 0"); vp_eqi(lerp(a, b, T(1)), b, "integer lerp at 1");
}
H f_lerpInt_f() { lerpInt<float>(1 << 22); }
H f_lerpInt_d() { lerpInt<double>(1 << 29); }
H h_lerpIntMode() {
	R t = vp_range(-1, 2); PART(29);
	int r = lerp(10, -25, t, MODE[part]), s = lerp(10, -25, f(t, part));
	vp_eqi(r, s, "integer lerp at the mapped ratio");
}

const R TWO_PI = 2 * Constants<R>::PI;
inline R wraps(R x) { R k = x / TWO_PI; return k - std::floor(k); }
H h_clerp() {
	R a = any(), b = any(), t = any();
	R e = clerp(a, b, R(1));
	eq(clerp(a, b, R(0)), a, "circular lerp at 0");
	eq(wraps(e - b), 0, "circular lerp at 1 is the end, up to full turns");
	vp_check((e - a <= Constants<R>::PI) & (a - e <= Constants<R>::PI), "circular lerp goes the shorter way");
	eq(clerp(a, b, t), a + (e - a) * t, "circular lerp is linear");
}
H h_clerpMax() {
	R a = any(), b = any(), m = any();
	vp_assume(m >= 0);
	R e = clerp(a, b, R(1)), d = e - a, k = any();
	R r = clerpMaxAngle(a, b, m), q = clerpMaxAngle(a, b, m, k);
	eq(q, r, "both maximum angle forms agree");
	vp_check((r - a <= m) & (a - r <= m), "never more than the maximum");
	if (d <= m && -d <= m) { eq(r, e, "reaches an end within the maximum"); eq(k, 1, "reports the full ratio"); }
	else { eq(r, d >= 0 ? a + m : a - m, "otherwise turns by the maximum"); vp_check((k >= 0) & (k < 1), "reports a ratio in [0,1)"); eq(a + k * d, r, "reported ratio"); }
}
