// ColorRGB, ColorRGBA, ColorHSV
#include "drv.h"
#include <cstring>
template <class R> static std::vector<R> v(const ColorRGB<R>& c) { return {c.r, c.g, c.b}; }
template <class R> static std::vector<R> v(const ColorRGBA<R>& c) { return {c.r, c.g, c.b, c.a}; }
template <class R> static std::vector<R> v(const ColorHSV<R>& c) { return {c.h, c.s, c.v}; }

OP(co_rgb, "co.rgb")
{
	std::vector<R> x = c.nums("c", 3), y = c.nums("d", 3); R k = c.num("k"), t = c.num("t"), al = c.num("al");
	const ColorRGB<R> a(x[0], x[1], x[2]), b(y[0], y[1], y[2]); ColorRGB<R> q, w;
	c.o("c", v(a)); q.set(x[0], x[1], x[2]); c.o("c", v(q)); q = ColorRGB<R>(k); c.o("k", v(q)); q.set(a); c.o("c", v(q));
	c.o("rgba1", v(a.toRGBA())); c.o("rgba", v(a.toRGBA(al)));
	c.o("sum", v(a + b)); q = a; c.b("self", drv::isSelf(q += b, q)); c.o("sum", v(q)); q = b; q += a; c.o("sum", v(q));
	c.o("dif", v(a - b)); q = a; c.b("self", drv::isSelf(q -= b, q)); c.o("dif", v(q));
	c.o("neg", v(-a));
	c.o("mul", v(a * k)); q = a; c.b("self", drv::isSelf(q *= k, q)); c.o("mul", v(q));
	if (k != R(0)) { c.o("div", v(a / k)); q = a; c.b("self", drv::isSelf(q /= k, q)); c.o("div", v(q)); }
	q = a; q += q; c.o("twice", v(q)); q = a; q -= q; c.o("none", v(q));
	c.o("mix", v(ColorRGB<R>::fromInterp(a, b, t))); c.b("self", drv::isSelf(w.interp(a, b, t), w)); c.o("mix", v(w));
	q = a; q.interp(q, b, t); c.o("mix", v(q)); q = b; q.interp(a, q, t); c.o("mix", v(q)); q = a; q.interp(q, q, t); c.o("same", v(q));
	c.o("mix0", v(ColorRGB<R>::fromInterp(a, b, R(0)))); c.o("mix1", v(ColorRGB<R>::fromInterp(a, b, R(1))));
	c.b("frame", v(a) == x && v(b) == y);
}
OP(co_rgba, "co.rgba")
{
	std::vector<R> x = c.nums("c", 4), y = c.nums("d", 4); R k = c.num("k"), t = c.num("t");
	const ColorRGBA<R> a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]); ColorRGBA<R> q, w;
	c.o("c", v(a)); q.set(x[0], x[1], x[2], x[3]); c.o("c", v(q)); q = ColorRGBA<R>(k, y[3]); c.o("k", v(q)); q.set(a); c.o("c", v(q));
	c.o("k1", v(ColorRGBA<R>(k))); c.o("c1", v(ColorRGBA<R>(x[0], x[1], x[2]))); q = b; q.set(x[0], x[1], x[2]); c.o("c1", v(q));
	c.o("rgb", v(a.toRGB())); c.o("hsv", v(a.toRGB().toHSV())); c.o("hsv", v(a.toHSV()));
	c.o("sum", v(a + b)); q = a; c.b("self", drv::isSelf(q += b, q)); c.o("sum", v(q));
	c.o("dif", v(a - b)); q = a; c.b("self", drv::isSelf(q -= b, q)); c.o("dif", v(q));
	c.o("neg", v(-a));
	c.o("mul", v(a * k)); q = a; c.b("self", drv::isSelf(q *= k, q)); c.o("mul", v(q));
	if (k != R(0)) { c.o("div", v(a / k)); q = a; c.b("self", drv::isSelf(q /= k, q)); c.o("div", v(q)); }
	q = a; q += q; c.o("twice", v(q)); q = a; q -= q; c.o("none", v(q));
	c.o("mix", v(ColorRGBA<R>::fromInterp(a, b, t))); c.b("self", drv::isSelf(w.interp(a, b, t), w)); c.o("mix", v(w));
	q = a; q.interp(q, b, t); c.o("mix", v(q)); q = b; q.interp(a, q, t); c.o("mix", v(q)); q = a; q.interp(q, q, t); c.o("same", v(q));
	c.o("mix0", v(ColorRGBA<R>::fromInterp(a, b, R(0)))); c.o("mix1", v(ColorRGBA<R>::fromInterp(a, b, R(1))));
	c.b("frame", v(a) == x && v(b) == y);
}
// a colour of the unit cube: to hue, saturation, value and back
OP(co_conv, "co.conv")
{
	std::vector<R> x = c.nums("c", 3); R al = c.num("al");
	const ColorRGB<R> a(x[0], x[1], x[2]); const ColorRGBA<R> b = a.toRGBA(al);
	const ColorHSV<R> h = a.toHSV();
	c.o("hsv", v(h)); c.o("hsv", v(b.toHSV()));
	c.o("back", v(h.toRGB())); c.o("backa", v(h.toRGBA(al))); c.o("backa1", v(h.toRGBA()));
	c.b("frame", v(a) == x);
}
// any hue
OP(co_hue, "co.hue")
{
	std::vector<R> x = c.nums("c", 3); R al = c.num("al");
	const ColorHSV<R> h(x[0], x[1], x[2]); ColorHSV<R> q;
	c.o("c", v(h)); c.b("self", drv::isSelf(q.set(x[0], x[1], x[2]), q)); c.o("c", v(q)); q = ColorHSV<R>(R(1), R(2), R(3)); q.set(h); c.o("c", v(q));
	c.o("rgb", v(h.toRGB())); c.o("rgba", v(h.toRGBA(al))); c.o("rgba1", v(h.toRGBA()));
	c.b("frame", v(h) == x);
}
OP(co_mix, "co.mix")
{
	std::vector<R> x = c.nums("c", 3), y = c.nums("d", 3); R t = c.num("t");
	const ColorHSV<R> a(x[0], x[1], x[2]), b(y[0], y[1], y[2]); ColorHSV<R> q, w;
	c.o("mix", v(ColorHSV<R>::fromInterp(a, b, t))); c.b("self", drv::isSelf(w.interp(a, b, t), w)); c.o("mix", v(w));
	q = a; q.interp(q, b, t); c.o("mix", v(q)); q = b; q.interp(a, q, t); c.o("mix", v(q));
	c.o("mix0", v(ColorHSV<R>::fromInterp(a, b, R(0)))); c.o("mix1", v(ColorHSV<R>::fromInterp(a, b, R(1))));
	c.b("frame", v(a) == x && v(b) == y);
}
OP(co_int, "co.int")
{
	int r = c.rawint(), g = c.rawint(), b = c.rawint(), a = c.rawint();
	c.logA("c", {R(r), R(g), R(b), R(a)});
	c.o("rgb", v(ColorRGB<R>(r, g, b))); c.o("rgba", v(ColorRGBA<R>(r, g, b, a))); c.o("rgba1", v(ColorRGBA<R>(r, g, b)));
	std::vector<R> k;
	auto put = [&](const std::vector<R>& x) { k.insert(k.end(), x.begin(), x.end()); };
	put(v(ColorRGB<R>::Black)); put(v(ColorRGB<R>::White)); put(v(ColorRGB<R>::Red)); put(v(ColorRGB<R>::Green)); put(v(ColorRGB<R>::Blue)); c.o("named", k); k.clear();
	put(v(ColorHSV<R>::Black.toRGB())); put(v(ColorHSV<R>::White.toRGB())); put(v(ColorHSV<R>::Red.toRGB())); put(v(ColorHSV<R>::Green.toRGB())); put(v(ColorHSV<R>::Blue.toRGB())); c.o("named", k); k.clear();
	put(v(ColorRGBA<R>::Black)); put(v(ColorRGBA<R>::White)); put(v(ColorRGBA<R>::Red)); put(v(ColorRGBA<R>::Green)); put(v(ColorRGBA<R>::Blue)); c.o("nameda", k);
	R al = R(a) / R(255);
	c.logA("al", {al});
	c.o("rnd", v(ColorRGB<R>::random())); c.o("rnda", v(ColorRGBA<R>::random(al))); c.o("rnda1", v(ColorRGBA<R>::random())); c.o("rndh", v(ColorHSV<R>::random()));
}
