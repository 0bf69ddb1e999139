// C24: HSV colours.
#include "h.h"
typedef ColorHSV<R> C; typedef ColorRGB<R> C3; typedef ColorRGBA<R> C4;
inline void eqc(const C3& c, const C3& d, const char* l) { vp_eq(c.r, d.r, l); vp_eq(c.g, d.g, l); vp_eq(c.b, d.b, l); }
inline void eqc(const C& c, const C& d, const char* l) { vp_eq(c.h, d.h, l); vp_eq(c.s, d.s, l); vp_eq(c.v, d.v, l); }
inline R mx(R a, R b) { return a > b ? a : b; }
inline R mn(R a, R b) { return a < b ? a : b; }

H h_round() {
	R r = vp_range(0, 1), g = vp_range(0, 1), b = vp_range(0, 1);
	C3 c(r, g, b); C h = c.toHSV();
	eqc(h.toRGB(), c, "RGB to HSV and back");
	C4 d = h.toRGBA(R(0.25)); eqc(d.toRGB(), c, "RGBA to HSV and back"); eq(d.a, 0.25, "alpha given");
	eq(h.toRGBA().a, 1, "default alpha");
	eqc(C4(r, g, b, 0.5).toHSV(), h, "RGBA to HSV");
}
H h_toHSV() {
	R r = vp_range(0, 1), g = vp_range(0, 1), b = vp_range(0, 1);
	C h = C3(r, g, b).toHSV();
	R hi = mx(r, mx(g, b)), lo = mn(r, mn(g, b));
	eq(h.v, hi, "value is the greatest channel");
	eq(h.s * hi, hi - lo, "saturation");
	vp_check((h.s >= 0) & (h.s <= 1), "saturation in range");
	vp_check((h.h >= 0) & (h.h < 360), "hue in range");
	if (hi == lo) { eq(h.h, 0, "grey has hue 0"); eq(h.s, 0, "grey has no saturation"); }
}
// the six pure hues and what lies between: which channels are greatest and least
H h_sector() {
	R k = vp_range(0, 1), s = vp_range(0, 1), v = vp_range(0, 1); PART(6);
	vp_assume(k < 1);
	C3 c = C(60 * (part + k), s, v).toRGB();
	R lo = v * (1 - s), up = v * (1 - s * (1 - k)), dn = v * (1 - s * k);
	static const int top[6] = { 0, 1, 1, 2, 2, 0 }, mid[6] = { 1, 0, 2, 1, 0, 2 };
	for (int i = 0; i < 3; ++i) eq(c.data()[i], i == top[part] ? v : i == mid[part] ? (part & 1 ? dn : up) : lo, "channels of a hue");
}
// any hue is 360 k + 60 (sector + fraction)
// bound: hue periodicity up to 5 turns, one saturation and value; every hue for the range of the channels
H h_periodic() {
	int k = vp_int(-5, 5); R f = vp_range(0, 1), s = 0.75, v = 0.5; PART(6);
	vp_assume(f < 1);
	C3 c = C(60 * (part + f) + R(360) * k, s, v).toRGB();
	eqc(c, C(60 * (part + f), s, v).toRGB(), "hue is periodic");
}
H h_channels() {
	R h = any(), s = vp_range(0, 1), v = vp_range(0, 1);
	C3 c = C(h, s, v).toRGB();
	vp_check((c.r >= 0) & (c.r <= v) & (c.g >= 0) & (c.g <= v) & (c.b >= 0) & (c.b <= v), "channels between 0 and the value");
	vp_check((c.r == v) | (c.g == v) | (c.b == v), "one channel is the value");
}
// bit-exact: every finite hue gives channels that are all written
template <class T> T in();
template <> float in<float>() { return vp_f32(); }
template <> double in<double>() { return vp_f64(); }
template <class T> void channels(T s, T v) {
	T h = in<T>();
	ColorRGB<T> c = ColorHSV<T>(h, s, v).toRGB();
	vp_check(c.r == c.r, "red written"); vp_check(c.g == c.g, "green written"); vp_check(c.b == c.b, "blue written");
}
//@ f_* qtimeout=40000 ftimeout=1000 deadline=100
H f_channels_f() { channels<float>(1, 1); }
template <class T> void hueRange(int top) {
	T m = in<T>(), l = in<T>();
	vp_assume(m >= 0); vp_assume(l >= 0); vp_assume(m <= 1); vp_assume(l <= 1);
	ColorRGB<T> c(top == 0 ? T(1) : m, top == 1 ? T(1) : top == 0 ? m : l, top == 2 ? T(1) : l);
	ColorHSV<T> h = c.toHSV();
	vp_check(h.h >= 0 && h.h < 360, "hue in [0,360)"); vp_check(h.s >= 0 && h.s <= 1, "saturation in [0,1]"); vp_check(h.v == 1, "value");
}
H f_hueRed_f() { hueRange<float>(0); }
H f_hueGreen_f() { hueRange<float>(1); }
H f_hueBlue_f() { hueRange<float>(2); }

H h_interp() {
	R a = any(), b = any(), t = vp_range(0, 1);
	vp_assume(a >= 0); vp_assume(a < 360); vp_assume(b >= 0); vp_assume(b < 360);
	C x{a, any(), any()}, y{b, any(), any()}, z; z.interp(x, y, t);
	eq(z.s, x.s + (y.s - x.s) * t, "saturation is interpolated"); eq(z.v, x.v + (y.v - x.v) * t, "value is interpolated");
	R d = b - a; if (d > 180) d -= 360; if (d < -180) d += 360; // the shorter way
	R h = a + d * t; if (h >= 360) h -= 360; if (h < 0) h += 360;
	if (d != 180 && d != -180) eq(z.h, h, "hue goes the shorter way");
	else { R e = z.h - a; if (e < 0) e += 360; vp_check((e == 180 * t) | (e == 360 - 180 * t) | (e == 0), "opposite hues go either way"); }
}
H h_interpForms() {
	C x{vp_range(0, 360), any(), any()}, y{vp_range(0, 360), any(), any()}, z; R t = vp_range(0, 1);
	z.interp(x, y, t);
	eqc(C::fromInterp(x, y, t), z, "fromInterp"); C u = x; u.interp(u, y, t); eqc(u, z, "in place"); u = y; u.interp(x, u, t); eqc(u, z, "in place");
	vp_check((z.h >= 0) & (z.h <= 360), "interpolated hue in range");
}
H h_ends() {
	C x{any(), any(), any()}, y{any(), any(), any()};
	eqc(C::fromInterp(x, y, 0), x, "interpolation at 0"); eqc(C::fromInterp(x, y, 1), y, "interpolation at 1");
}
H h_build() {
	R h = any(), s = any(), v = any();
	C c(h, s, v), d, e; d.set(h, s, v); e.set(c);
	vp_check(c.h == h && c.s == s && c.v == v && c.data()[0] == h && c.data()[1] == s && c.data()[2] == v, "components");
	eqc(d, c, "set"); eqc(e, c, "set from colour"); eqc(c.cast<double>(), c, "cast");
	PART(3); C f = c; const C& g = c; vp_check(g.data()[0] == h && g.data()[1] == s && g.data()[2] == v, "data"); f.data()[part] = any(); bool q = f.data()[part] == c.data()[part];
	vp_check((f == c) == q && (f != c) == !q, "comparison");
	eqc(C::Black.toRGB(), C3::Black, "black"); eqc(C::White.toRGB(), C3::White, "white"); eqc(C::Red.toRGB(), C3::Red, "red"); eqc(C::Green.toRGB(), C3::Green, "green"); eqc(C::Blue.toRGB(), C3::Blue, "blue");
}
H h_random() {
	C c = C::random();
	vp_check((c.h >= 0) & (c.h <= 360) & (c.s >= 0) & (c.s <= 1) & (c.v >= 0) & (c.v <= 1), "random colour in range");
}
