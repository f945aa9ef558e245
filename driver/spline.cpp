// HermiteSplineSegment3, BezierSegment3, BezierSegment3FwdDiff, SplineSolver3
#include "arr.h"
#include <type_traits>

template <class R> static std::vector<R> ctl(const BezierSegment3<R>& s)
{
	const Vec3<R> p[4] = { s.p1(), s.p2(), s.p3(), s.p4() };
	std::vector<R> v; for (auto& x : p) { v.push_back(x.x); v.push_back(x.y); v.push_back(x.z); }
	return v;
}
template <class R> static std::vector<R> ctl(const HermiteSplineSegment3<R>& s)
{
	const Vec3<R> p[4] = { s.p1(), s.p4(), s.r1(), s.r4() };
	std::vector<R> v; for (auto& x : p) { v.push_back(x.x); v.push_back(x.y); v.push_back(x.z); }
	return v;
}

OP(sp_herm, "sp.herm")
{
	typedef HermiteSplineSegment3<R> H;
	Vec3<R> p1 = c.v3("p1"), p4 = c.v3("p4"), r1 = c.v3("r1"), r4 = c.v3("r4"); R t = c.num("t");
	const H h(p1, p4, r1, r4); H g; g.set(p1, p4, r1, r4);
	c.o("ctl", ctl(h)); c.o("ctl", ctl(g));
	c.o("at", h.pointAt(t)); c.o("at", g.pointAt(t)); c.o("at", p1 * H::hp1(t) + p4 * H::hp4(t) + r1 * H::hr1(t) + r4 * H::hr4(t));
	c.o("tan", h.tangentAt(t)); c.o("tan", g.tangentAt(t)); c.o("tan", p1 * H::dhp1(t) + p4 * H::dhp4(t) + r1 * H::dhr1(t) + r4 * H::dhr4(t));
	c.o("w", {H::hp1(t), H::hp4(t), H::hr1(t), H::hr4(t)}); c.o("dw", {H::dhp1(t), H::dhp4(t), H::dhr1(t), H::dhr4(t)});
	g.set(r4, r1, p4, p1); c.o("rev", ctl(g));
	// a segment set from its own parts
	g = h; g.set(g.p4(), g.p4(), g.r4(), g.r4()); c.o("own", ctl(g));
}
OP(sp_bez, "sp.bez")
{
	typedef BezierSegment3<R> B;
	Vec3<R> p1 = c.v3("p1"), p2 = c.v3("p2"), p3 = c.v3("p3"), p4 = c.v3("p4"); R t = c.num("t"), a = c.num("a");
	const B s(p1, p2, p3, p4); B g; g.set(p1, p2, p3, p4);
	c.o("ctl", ctl(s)); c.o("ctl", ctl(g)); c.o("r1", s.r1()); c.o("r4", s.r4());
	c.o("at", s.pointAt(t)); c.o("at", p1 * B::hp1(t) + p2 * B::hp2(t) + p3 * B::hp3(t) + p4 * B::hp4(t));
	c.o("at", HermiteSplineSegment3<R>(p1, p4, s.r1(), s.r4()).pointAt(t));
	c.o("tan", s.tangentAt(t)); c.o("tan", p1 * B::dhp1(t) + p2 * B::dhp2(t) + p3 * B::dhp3(t) + p4 * B::dhp4(t));
	c.o("w", {B::hp1(t), B::hp2(t), B::hp3(t), B::hp4(t)}); c.o("dw", {B::dhp1(t), B::dhp2(t), B::dhp3(t), B::dhp4(t)});
	B x, y; s.split(a, x, y); c.o("lo", ctl(x)); c.o("hi", ctl(y));
	c.b("frame", ctl(s) == ctl(g));
}
OP(sp_len, "sp.len")
{
	Vec3<R> p1 = c.v3("p1"), p2 = c.v3("p2"), p3 = c.v3("p3"), p4 = c.v3("p4"); int n = c.integer("n");
	const BezierSegment3<R> s(p1, p2, p3, p4);
	c.o("len", s.length(n)); if (n == 10) c.o("len", s.length());
}
OP(sp_frame, "sp.frame")
{
	Vec3<R> p1 = c.v3("p1"), p2 = c.v3("p2"), p3 = c.v3("p3"), p4 = c.v3("p4"); R t = c.num("t");
	const BezierSegment3<R> s(p1, p2, p3, p4);
	Mat3<R> m(Vec3<R>(1, 2, 3), Vec3<R>(4, 5, 6), Vec3<R>(7, 8, 10)); const Mat3<R> m0 = m;
	bool ok = s.frenetFrameAt(m, t); c.b("ok", ok); c.o("m", m);
	c.b("kept", ok || drv::same(m, m0));
	c.b("ortho", ok && m.isOrthonormal());
}
// a walk along the curve in steps of d
OP(sp_fwd, "sp.fwd")
{
	std::vector<R> p; for (int i = 0; i < 12; ++i) p.push_back(c.rawnum());
	R d = c.rawnum(); int n = c.rawint();
	Vec3<R> P[4]; for (int i = 0; i < 4; ++i) P[i] = Vec3<R>(p[3 * i], p[3 * i + 1], p[3 * i + 2]);
	typedef typename std::conditional<sizeof(R) == sizeof(float), BezierSegmentFwdDiff3f, BezierSegmentFwdDiff3d>::type Alias;
	BezierSegment3FwdDiff<R> f(P[0], P[1], P[2], P[3], d);
	auto put = [&](const char* w) {
		const BezierSegment3FwdDiff<R>& k = f;
		c.what = w; c.logA("p", p); c.logA("d", {d}); c.b("alias", std::is_same<Alias, BezierSegment3FwdDiff<R>>::value); c.o("at", k.currentPoint()); c.o("tan", k.currentTangent()); c.emit(); };
	put("start");
	for (int i = 0; i < n; ++i)
	{
		if (i % 3 == 1) { BezierSegment3FwdDiff<R> g = f; g.stepForward(); f.stepForward(); f = g; } else f.stepForward();
		put("step");
	}
}

template <class R, class F> static void fit(drv::C<R>& c, int n, int segs, const std::vector<R>& p, F f)
{
	Arr<R> p1(p), p2(3 * segs), p3(3 * segs);
	bool ok = f(n, reinterpret_cast<const Vec3<R>*>(p1.p()), reinterpret_cast<Vec3<R>*>(p2.p()), reinterpret_cast<Vec3<R>*>(p3.p()));
	c.b("ok", ok); c.b("frame", p1.intact() && p2.guards() && p3.guards());
	c.o("p2", p2.get()); c.o("p3", p3.get());
}
OP(sp_nat, "sp.nat")
{
	int n = c.rawint(); std::vector<R> p = c.nums("p", 3 * n);
	fit(c, n, n - 1, p, [](int k, const Vec3<R>* a, Vec3<R>* x, Vec3<R>* y) { return SplineSolver3<R>::naturalBezierSpline(k, a, x, y); });
}
OP(sp_clamp, "sp.clamp")
{
	int n = c.rawint(); std::vector<R> p = c.nums("p", 3 * n); Vec3<R> s = c.v3("s"), e = c.v3("e"); const Vec3<R> s0 = s, e0 = e;
	fit(c, n, n - 1, p, [&](int k, const Vec3<R>* a, Vec3<R>* x, Vec3<R>* y) { return SplineSolver3<R>::bezierSpline(k, a, s, e, x, y); });
	c.b("frame", drv::same(s, s0) && drv::same(e, e0));
}
OP(sp_closed, "sp.closed")
{
	int n = c.rawint(); std::vector<R> p = c.nums("p", 3 * n);
	fit(c, n, n, p, [](int k, const Vec3<R>* a, Vec3<R>* x, Vec3<R>* y) { return SplineSolver3<R>::closedBezierSpline(k, a, x, y); });
}
