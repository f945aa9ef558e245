// interpolation.h and functions.h: properties I01, I02, S01
#include "drv.h"

// I01
OP(ip_ratio, "ip.ratio")
{
	int m = c.integer("m"); R t = c.num("t");
	R r = interpolationRatio(t, static_cast<InterpolationMode>(m));
	c.o("r", r);
}
OP(ip_lerp, "ip.lerp")
{
	int m = c.integer("m"); R t = c.num("t"), x = c.num("x"), y = c.num("y");
	Vec2<R> a2 = c.v2("a2"), b2 = c.v2("b2"); Vec3<R> a3 = c.v3("a3"), b3 = c.v3("b3");
	int i0 = c.integer("i0"), i1 = c.integer("i1");
	InterpolationMode mode = static_cast<InterpolationMode>(m);
	c.o("s", lerp(x, y, t)); c.o("v2", lerp(a2, b2, t)); c.o("v3", lerp(a3, b3, t)); c.i("int", lerp(i0, i1, t));
	c.o("sm", lerp(x, y, t, mode)); c.o("v2m", lerp(a2, b2, t, mode)); c.o("v3m", lerp(a3, b3, t, mode)); c.i("intm", lerp(i0, i1, t, mode));
	c.o("self", lerp(x, x, t));
}
// I02
OP(ip_clerp, "ip.clerp")
{
	R x = c.num("x"), y = c.num("y"), t = c.num("t"), m = c.num("m");
	c.o("r", clerp(x, y, t));
	R ratio = R(7);
	c.o("max", clerpMaxAngle(x, y, m)); c.o("max", clerpMaxAngle(x, y, m, ratio));
	c.o("ratio", ratio);
	c.o("r0", clerp(x, y, R(0))); c.o("r1", clerp(x, y, R(1)));
}
// S01
OP(fn_basic, "fn.basic")
{
	R x = c.num("x"), y = c.num("y"), lo = c.num("lo"), hi = c.num("hi");
	int i = c.integer("i"), j = c.integer("j");
	c.o("min", mathlib::min(x, y)); c.o("max", mathlib::max(x, y)); c.o("abs", mathlib::abs(x));
	c.o("clip", clippedBetween(x, lo, hi));
	c.i("imin", mathlib::min(i, j)); c.i("imax", mathlib::max(i, j));
	c.i("iclip", clippedBetween(i, -5, 7)); c.i("iabs", mathlib::abs(i));
	c.o("rad", degreeToRadian(x)); c.o("deg", radianToDegree(x)); c.o("deground", radianToDegree(degreeToRadian(x)));
	c.o("consts", {Constants<R>::PI, Constants<R>::PI_TIMES_2, Constants<R>::PI_OVER_2, Constants<R>::PI_OVER_4, Constants<R>::PI_OVER_8,
		Constants<R>::PI_OVER_16, Constants<R>::PI_OVER_3, Constants<R>::PI_OVER_6});
	c.b("limits", Constants<R>::MIN_VALUE == std::numeric_limits<R>::min() && Constants<R>::MAX_VALUE == std::numeric_limits<R>::max() && Constants<R>::MAX_NEG_VALUE == std::numeric_limits<R>::lowest());
	c.c("n2x", next2D(Coord::X)); c.c("n2y", next2D(Coord::Y));
	c.c("n3x", next3D(Coord::X)); c.c("n3y", next3D(Coord::Y)); c.c("n3z", next3D(Coord::Z));
}
OP(fn_asin, "fn.asin")
{
	R x = c.num("x");
	c.o("asin", mathlib::asin(x)); c.o("acos", mathlib::acos(x));
}
OP(fn_fmod, "fn.fmod")
{
	R x = c.num("x"), y = c.num("y");
	c.o("fmod", mathlib::fmod(x, y)); c.o("pos", fmodPositive(x, y)); c.o("cen", fmodCentered(x, y));
}
OP(fn_eval, "fn.eval")
{
	R x = c.num("x"), th = c.num("th"); int k = c.integer("k");
	c.o("r", evaluate(x, th, static_cast<ResponseCurveType>(k))); c.o("neg", evaluate(-x, th, static_cast<ResponseCurveType>(k)));
}
// extremes over n draws
OP(fn_rand, "fn.rand")
{
	int seed = c.integer("seed"), n = c.integer("n"), k = c.integer("k"); R f = c.num("f"), from = c.num("from"), to = c.num("to");
	int ifrom = c.integer("ifrom"), ito = c.integer("ito");
	::srand(static_cast<unsigned>(seed));
	R lo, hi; int a, b; bool pos, neg;
	#define DRAW(T, l, h, expr, each) for (int q = 0; q < n; ++q) { T v = expr; if (q == 0) l = h = v; if (v < l) l = v; if (v > h) h = v; each; }
	DRAW(R, lo, hi, mathlib::rand(f), ) c.o("rand", {lo, hi});
	DRAW(R, lo, hi, randBetween(from, to), ) c.o("between", {lo, hi});
	DRAW(R, lo, hi, randAmplitude(f), ) c.o("amp", {lo, hi});
	pos = neg = false; R alo = R(0), ahi = R(0);
	DRAW(R, lo, hi, randAmplitude(from, to), if (v > 0) pos = true; if (v < 0) neg = true; R w = v < 0 ? -v : v; if (q == 0 || w < alo) alo = w; if (q == 0 || w > ahi) ahi = w)
	c.o("ampft", {alo, ahi}); c.b("ampsigns", pos && neg);
	DRAW(int, a, b, mathlib::rand(k), ) c.i("irandlo", a); c.i("irandhi", b);
	DRAW(int, a, b, randBetween(ifrom, ito), ) c.i("ibetlo", a); c.i("ibethi", b);
	DRAW(int, a, b, randAmplitude(k), ) c.i("iamplo", a); c.i("iamphi", b);
	int iplo = 0, iphi = 0; pos = neg = false;
	DRAW(int, a, b, randAmplitude(ifrom, ito), if (v > 0) pos = true; if (v < 0) neg = true; int w = v < 0 ? -v : v; if (q == 0 || w < iplo) iplo = w; if (q == 0 || w > iphi) iphi = w)
	c.i("iamftlo", iplo); c.i("iamfthi", iphi); c.b("iampsigns", pos && neg);
	bool unit = true;
	for (int q = 0; q < n; ++q)
	{
		R l2 = Vec2<R>::randomUnitVector().length(), l3 = Vec3<R>::randomUnitVector().length();
		if (!(l2 > R(0.99999) && l2 < R(1.00001) && l3 > R(0.99999) && l3 < R(1.00001))) unit = false;
	}
	c.b("unit", unit);
}
