// C23: RGB and RGBA colours.
#include "h.h"
typedef ColorRGB<R> C3; typedef ColorRGBA<R> C4;
inline C3 anyC3() { R r = any(), g = any(), b = any(); return C3(r, g, b); }
inline C4 anyC4() { R r = any(), g = any(), b = any(), a = any(); return C4(r, g, b, a); }
inline void eqc(const C3& c, R r, R g, R b, const char* l) { vp_eq(c.r, r, l); vp_eq(c.g, g, l); vp_eq(c.b, b, l); }
inline void eqc(const C4& c, R r, R g, R b, R a, const char* l) { vp_eq(c.r, r, l); vp_eq(c.g, g, l); vp_eq(c.b, b, l); vp_eq(c.a, a, l); }
inline void eqc(const C3& c, const C3& d, const char* l) { eqc(c, d.r, d.g, d.b, l); }
inline void eqc(const C4& c, const C4& d, const char* l) { eqc(c, d.r, d.g, d.b, d.a, l); }

H h_build() {
	R r = any(), g = any(), b = any(), a = any();
	C3 c(r, g, b); C4 d(r, g, b, a);
	eqc(c, r, g, b, "channels"); eqc(d, r, g, b, a, "channels"); eqc(C4(r, g, b), r, g, b, 1, "default alpha");
	eqc(C3(r), r, r, r, "grey"); eqc(C4(r, a), r, r, r, a, "grey with alpha"); eqc(C4(r), r, r, r, 1, "grey, default alpha");
	const C3& k = c; const C4& l = d;
	vp_check(k.data()[0] == r && k.data()[1] == g && k.data()[2] == b && c.data() == k.data(), "data order");
	vp_check(l.data()[0] == r && l.data()[1] == g && l.data()[2] == b && l.data()[3] == a && d.data() == l.data(), "data order");
	C3 e; C3& f = e.set(r, g, b); eqc(e, c, "set"); vp_check(&f == &e, "set returns itself"); C3 e2; e2.set(c); eqc(e2, c, "set from colour");
	C4 h; h.set(r, g, b, a); eqc(h, d, "set"); C4 h2; h2.set(d); eqc(h2, d, "set from colour"); C4 h3; h3.set(r, g, b); eqc(h3, r, g, b, 1, "set, default alpha");
	eqc(c.toRGBA(a), d, "toRGBA"); eqc(c.toRGBA(), r, g, b, 1, "toRGBA, default alpha"); eqc(d.toRGB(), c, "toRGB");
	c.data()[1] = a; eqc(c, r, a, b, "data is the channels"); d.data()[3] = r; eqc(d, r, g, b, r, "data is the channels");
}
H h_cast() {
	R r = any(), g = any(), b = any(), a = any();
	eqc(C3(r, g, b).cast<double>(), r, g, b, "cast"); eqc(C4(r, g, b, a).cast<double>(), r, g, b, a, "cast");
}
H f_cast() {
	float r = vp_f32(), g = vp_f32(), b = vp_f32(), a = vp_f32();
	ColorRGB<double> c = ColorRGB<float>(r, g, b).cast<double>(); ColorRGBA<double> d = ColorRGBA<float>(r, g, b, a).cast<double>();
	vp_same64(c.r, r, "cast"); vp_same64(c.g, g, "cast"); vp_same64(c.b, b, "cast");
	vp_same64(d.r, r, "cast"); vp_same64(d.g, g, "cast"); vp_same64(d.b, b, "cast"); vp_same64(d.a, a, "cast");
	ColorRGB<float> e = c.cast<float>(); ColorRGBA<float> f = d.cast<float>();
	vp_same32(e.r, r, "cast back"); vp_same32(e.g, g, "cast back"); vp_same32(e.b, b, "cast back");
	vp_same32(f.r, r, "cast back"); vp_same32(f.g, g, "cast back"); vp_same32(f.b, b, "cast back"); vp_same32(f.a, a, "cast back");
}
H h_arith3() {
	C3 x = anyC3(), y = anyC3(); R k = nonzero();
	eqc(x + y, x.r + y.r, x.g + y.g, x.b + y.b, "sum"); eqc(x - y, x.r - y.r, x.g - y.g, x.b - y.b, "difference"); eqc(-x, -x.r, -x.g, -x.b, "negation");
	eqc(x * k, x.r * k, x.g * k, x.b * k, "product"); eqc(x / k, x.r / k, x.g / k, x.b / k, "quotient");
	C3 z = x; z += y; eqc(z, x + y, "+="); z = x; z -= y; eqc(z, x - y, "-="); z = x; z *= k; eqc(z, x * k, "*="); z = x; z /= k; eqc(z, x / k, "/=");
	z = x; z += z; eqc(z, x * 2, "+= itself"); z = x; z -= z; eqc(z, 0, 0, 0, "-= itself");
}
H h_arith4() {
	C4 x = anyC4(), y = anyC4(); R k = nonzero();
	eqc(x + y, x.r + y.r, x.g + y.g, x.b + y.b, x.a, "sum keeps alpha"); eqc(x - y, x.r - y.r, x.g - y.g, x.b - y.b, x.a, "difference keeps alpha"); eqc(-x, -x.r, -x.g, -x.b, x.a, "negation keeps alpha");
	eqc(x * k, x.r * k, x.g * k, x.b * k, x.a, "product keeps alpha"); eqc(x / k, x.r / k, x.g / k, x.b / k, x.a, "quotient keeps alpha");
	C4 z = x; z += y; eqc(z, x + y, "+="); z = x; z -= y; eqc(z, x - y, "-="); z = x; z *= k; eqc(z, x * k, "*="); z = x; z /= k; eqc(z, x / k, "/=");
	z = x; z += z; eqc(z, x * 2, "+= itself"); z = x; z -= z; eqc(z, 0, 0, 0, x.a, "-= itself");
}
H h_compare() {
	PART(5);
	C4 x = anyC4(), y = x;
	if (part < 4) y.data()[part] = any(); else y = anyC4();
	bool e3 = (x.r == y.r) & (x.g == y.g) & (x.b == y.b), e4 = e3 & (x.a == y.a);
	vp_check((x == y) == e4 && (x != y) == !e4, "RGBA comparison");
	vp_check((x.toRGB() == y.toRGB()) == e3 && (x.toRGB() != y.toRGB()) == !e3, "RGB comparison");
}
H h_interp3() {
	C3 x = anyC3(), y = anyC3(); R t = any();
	C3 z; z.interp(x, y, t);
	eqc(z, x.r + (y.r - x.r) * t, x.g + (y.g - x.g) * t, x.b + (y.b - x.b) * t, "interpolation");
	eqc(C3::fromInterp(x, y, t), z, "fromInterp"); C3 u = x; u.interp(u, y, t); eqc(u, z, "interpolation in place"); u = y; u.interp(x, u, t); eqc(u, z, "interpolation in place");
}
H h_interp4() {
	C4 x = anyC4(), y = anyC4(); R t = any();
	C4 z; z.interp(x, y, t);
	eqc(z, x.r + (y.r - x.r) * t, x.g + (y.g - x.g) * t, x.b + (y.b - x.b) * t, x.a + (y.a - x.a) * t, "interpolation");
	eqc(C4::fromInterp(x, y, t), z, "fromInterp"); C4 u = x; u.interp(u, y, t); eqc(u, z, "interpolation in place"); u = y; u.interp(x, u, t); eqc(u, z, "interpolation in place");
}
// the ends bit for bit, whatever the channels
template <class T> T in();
template <> float in<float>() { return vp_f32(); }
template <> double in<double>() { return vp_f64(); }
inline void same(float a, float b, const char* l) { vp_same32(a, b, l); }
inline void same(double a, double b, const char* l) { vp_same64(a, b, l); }
template <class T> void ends() {
	ColorRGBA<T> x{in<T>(), in<T>(), in<T>(), in<T>()}, y{in<T>(), in<T>(), in<T>(), in<T>()};
	ColorRGBA<T> p = ColorRGBA<T>::fromInterp(x, y, T(0)), q = ColorRGBA<T>::fromInterp(x, y, T(1));
	same(p.r, x.r, "interpolation at 0"); same(p.g, x.g, "interpolation at 0"); same(p.b, x.b, "interpolation at 0"); same(p.a, x.a, "interpolation at 0");
	same(q.r, y.r, "interpolation at 1"); same(q.g, y.g, "interpolation at 1"); same(q.b, y.b, "interpolation at 1"); same(q.a, y.a, "interpolation at 1");
	ColorRGB<T> u = ColorRGB<T>::fromInterp(x.toRGB(), y.toRGB(), T(0)), v = ColorRGB<T>::fromInterp(x.toRGB(), y.toRGB(), T(1));
	same(u.r, x.r, "interpolation at 0"); same(u.g, x.g, "interpolation at 0"); same(u.b, x.b, "interpolation at 0");
	same(v.r, y.r, "interpolation at 1"); same(v.g, y.g, "interpolation at 1"); same(v.b, y.b, "interpolation at 1");
}
H f_ends_f() { ends<float>(); }
H f_ends_d() { ends<double>(); }
H h_within() {
	C4 x = anyC4(), y = anyC4(); R t = vp_range(0, 1); PART(4);
	C4 z = C4::fromInterp(x, y, t); C3 w = C3::fromInterp(x.toRGB(), y.toRGB(), t);
	R a = x.data()[part], b = y.data()[part], c = z.data()[part];
	vp_check(a <= b ? (c >= a) & (c <= b) : (c >= b) & (c <= a), "interpolation stays between its ends");
	if (part < 3) vp_eq(w.data()[part], c, "RGB interpolates as RGBA");
}
// 8-bit channels: c / 255, so that scaling by 255 and rounding gives every channel back
template <class T> void bytes(int k) {
	int n[4] = { 17, 128, 200, 250 }; n[k] = vp_int(0, 255);
	ColorRGBA<T> x(n[0], n[1], n[2], n[3]); ColorRGB<T> y(n[0], n[1], n[2]); ColorRGBA<T> z(n[0], n[1], n[2]);
	T c = x.data()[k];
	if (k < 3) { same(y.data()[k], c, "RGB as RGBA"); same(z.data()[k], c, "RGBA channels"); same(z.a, T(1), "default alpha"); }
	vp_check(int(c * T(255) + T(0.5)) == n[k], "byte comes back");
	vp_check(c >= 0 && c <= 1, "channel in [0,1]");
	if (n[k] == 255) same(c, T(1), "full channel");
	if (n[k] == 0) same(c, T(0), "empty channel");
}
//@ f_bytes* qtimeout=60000 deadline=120
H f_bytes_f0() { bytes<float>(0); }
H f_bytes_f1() { bytes<float>(1); }
H f_bytes_f2() { bytes<float>(2); }
H f_bytes_f3() { bytes<float>(3); }
H f_bytes_d0() { bytes<double>(0); }
H h_bytes() {
	int n[4]; for (int i = 0; i < 4; ++i) n[i] = vp_int(0, 255);
	C4 x(n[0], n[1], n[2], n[3]); C3 y(n[0], n[1], n[2]);
	for (int i = 0; i < 4; ++i) eq(x.data()[i] * 255, n[i], "channel of an RGBA byte");
	for (int i = 0; i < 3; ++i) eq(y.data()[i] * 255, n[i], "channel of an RGB byte");
}
H h_named() {
	eqc(C3::Black, 0, 0, 0, "black"); eqc(C3::White, 1, 1, 1, "white"); eqc(C3::Red, 1, 0, 0, "red"); eqc(C3::Green, 0, 1, 0, "green"); eqc(C3::Blue, 0, 0, 1, "blue");
	eqc(C4::Black, 0, 0, 0, 1, "black"); eqc(C4::White, 1, 1, 1, 1, "white"); eqc(C4::Red, 1, 0, 0, 1, "red"); eqc(C4::Green, 0, 1, 0, 1, "green"); eqc(C4::Blue, 0, 0, 1, 1, "blue");
}
H h_random() {
	R a = any(); C3 c = C3::random(); C4 d = C4::random(a);
	vp_check((c.r >= 0) & (c.r <= 1) & (c.g >= 0) & (c.g <= 1) & (c.b >= 0) & (c.b <= 1), "random colour in range");
	vp_check((d.r >= 0) & (d.r <= 1) & (d.g >= 0) & (d.g <= 1) & (d.b >= 0) & (d.b <= 1), "random colour in range"); eq(d.a, a, "random colour has the given alpha");
}
