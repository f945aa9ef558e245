// Plane, Line2, Line3, Ray2, Ray3, Tri2, local planes and axes of matrices
#include "drv.h"

template <class R> static std::vector<R> pl(const Plane<R>& p) { return {p.normal.x, p.normal.y, p.normal.z, p.d}; }
template <class R> static std::vector<R> ray(const Ray3<R>& r) { return {r.start.x, r.start.y, r.start.z, r.direction.x, r.direction.y, r.direction.z}; }
template <class R> static std::vector<R> at(R t, const Vec3<R>& v) { return {t, v.x, v.y, v.z}; }

// a plane from a normal of any length; what is stored is the input of the questions
template <class R> static Plane<R> rdPlane(drv::C<R>& c, const char* n)
{
	Vec3<R> v; v.x = c.rawnum(); v.y = c.rawnum(); v.z = c.rawnum(); R d = c.rawnum();
	Plane<R> p = Plane<R>::from(v, d);
	c.logA(n, pl(p));
	return p;
}

template <class R> static void lookPlane(drv::C<R>& c, const Plane<R>& p)
{
	Vec3<R> q = c.v3("q"), f; R tol = c.num("tol");
	c.o("dist", p.distance(q)); R t = p.project(f, q); c.o("dist", t); c.o("foot", f);
	f = q; t = p.project(f, f); c.o("dist", t); c.o("foot", f);
	c.b("on", p.contains(q, tol)); c.o("r", {p.data()[0], p.data()[1], p.data()[2], p.data()[3]});
	c.o("xy", pl(Plane<R>::XY)); c.o("yz", pl(Plane<R>::YZ)); c.o("zx", pl(Plane<R>::ZX));
}
OP(pl_hist, "pl.hist")
{
	typedef Plane<R> P;
	P p = P::XY;
	bool first = true;
	while (first || c.more())
	{
		std::string w = first ? "start" : c.tok(); c.what = w; bool self = true; P t = p;
		if (first) { c.ra = drv::Rec(); }
		if (w == "raw") { Vec3<R> n = c.v3("n"); R d = c.num("d"); p = P(n, d); c.o("r", pl(p)); }
		else if (w == "nd") { Vec3<R> n = c.v3("n"); R d = c.num("d"); self = drv::isSelf(p.set(n, d), p); c.o("r", pl(p)); c.o("r", pl(P::from(n, d))); }
		else if (w == "pn") { Vec3<R> x = c.v3("x"), n = c.v3("n"); self = drv::isSelf(p.set(x, n), p); c.o("r", pl(p)); c.o("r", pl(P::from(x, n))); }
		else if (w == "abc") { Vec3<R> x = c.v3("x"), y = c.v3("y"), z = c.v3("z"); self = drv::isSelf(p.set(x, y, z), p); c.o("r", pl(p)); c.o("r", pl(P::from(x, y, z))); }
		else if (w == "tan") { Vec3<R> x = c.v3("x"), y = c.v3("y"), z = c.v3("z"); self = drv::isSelf(p.setFromPointAndTangents(x, y, z), p); c.o("r", pl(p)); c.o("r", pl(P::fromPointAndTangents(x, y, z))); }
		else if (w == "off") { R d = c.num("d"); c.o("r", pl(P::from(p, d))); P u; self = drv::isSelf(u.set(p, d), u); c.o("r", pl(u)); p.set(p, d); c.o("r", pl(p)); }
		else if (w == "move") { R d = c.num("d"); c.o("r", pl(p.moved(d))); c.b("self", drv::same(p, t)); self = drv::isSelf(p.move(d), p); c.o("r", pl(p)); }
		else if (w == "flip") { c.o("r", pl(p.flipped())); c.b("self", drv::same(p, t)); self = drv::isSelf(p.flip(), p); c.o("r", pl(p)); }
		else if (w == "start") { c.o("r", pl(p)); }
		else { fprintf(stderr, "driver: unknown step %s\n", w.c_str()); _exit(3); }
		c.b("self", self);
		if (first) { c.logA("q", {R(1), R(2), R(3)}); c.logA("tol", {R(3)}); Vec3<R> q(1, 2, 3), f; c.o("dist", p.distance(q)); c.o("dist", p.project(f, q)); c.o("foot", f); c.b("on", p.contains(q, R(3)));
			c.o("xy", pl(P::XY)); c.o("yz", pl(P::YZ)); c.o("zx", pl(P::ZX)); }
		else lookPlane(c, p);
		c.emit(); first = false;
	}
}
OP(pl_ask, "pl.ask")
{
	Plane<R> p = rdPlane(c, "r"); const Plane<R> p0 = p; Vec3<R> q = c.v3("q"), v = c.v3("v"), f; R r = c.num("rad"), d = R(0);
	bool ok = p0.project(f, q, v); c.b("along", ok); if (ok) c.o("along", f);
	f = q; ok = p0.project(f, f, v); c.b("along", ok); if (ok) c.o("along", f);
	Sphere<R> s(q, r);
	ok = p0.hits(d, s); c.b("hit", ok); if (ok) c.o("hdepth", d);
	ok = p0.intersects(d, s); c.b("meet", ok); if (ok) c.o("mdepth", d);
	c.b("frame", drv::same(p, p0));
}
OP(pl_ray, "pl.ray")
{
	const Plane<R> p = rdPlane(c, "r"); const Plane<R> p0 = p;
	Vec3<R> s = c.v3("s"), v; v.x = c.rawnum(); v.y = c.rawnum(); v.z = c.rawnum();
	const Ray3<R> ry = Ray3<R>::from(s, v); const Ray3<R> ry0 = ry; c.logA("d", {ry.direction.x, ry.direction.y, ry.direction.z});
	Vec3<R> h; R t;
	bool ok = p.hits(h, t, ry); c.b("hit", ok); if (ok) c.o("hit", at(t, h));
	ok = p.intersects(h, t, ry); c.b("meet", ok); if (ok) c.o("meet", at(t, h));
	c.b("frame", drv::same(p, p0) && drv::same(ry, ry0));
}
OP(pl_line, "pl.line")
{
	const Plane<R> p = rdPlane(c, "r"); const Plane<R> p0 = p;
	Vec3<R> s = c.v3("s"), e = c.v3("t"); R r = c.num("rad");
	const Line3<R> l = Line3<R>::from(s, e); const Line3<R> l0 = l;
	Vec3<R> h; R t;
	bool ok = p.hits(h, t, l); c.b("hit", ok); if (ok) c.o("hit", at(t, h));
	ok = p.hits(h, t, l, r); c.b("rhit", ok); if (ok) c.o("rhit", at(t, h));
	ok = p.intersects(h, t, l); c.b("meet", ok); if (ok) c.o("meet", at(t, h));
	c.b("frame", drv::same(p, p0) && drv::same(l, l0));
}
OP(pl_three, "pl.three")
{
	const Plane<R> x = rdPlane(c, "a"), y = rdPlane(c, "b"), z = rdPlane(c, "c"); const Plane<R> x0 = x, y0 = y, z0 = z;
	Vec3<R> h(7, 7, 7);
	bool ok = Plane<R>::intersectAtSinglePoint(h, x, y, z); c.b("some", ok); if (ok) c.o("at", h);
	c.b("frame", drv::same(x, x0) && drv::same(y, y0) && drv::same(z, z0));
}

template <class R, class M> static void local(drv::C<R>& c, const M& m)
{
	const M m0 = m;
	const char* a[] = {"a1", "a2", "a3"}; const char* p[] = {"p1", "p2", "p3"}; const char* n[] = {"n1", "n2", "n3"};
	const Coord k[] = {Coord::X, Coord::Y, Coord::Z}; const Axis ps[] = {Axis::X, Axis::Y, Axis::Z}; const Axis ng[] = {Axis::NX, Axis::NY, Axis::NZ};
	for (int i = 0; i < 3; ++i) { c.o(a[i], ray(m.localAxis(k[i]))); c.o(p[i], pl(m.localPlane(k[i]))); c.o(p[i], pl(m.localPlane(ps[i]))); c.o(n[i], pl(m.localPlane(ng[i]))); }
	c.b("frame", m == m0);
}
OP(m34_local, "m34.local") { Vec3<R> x = c.v3("x"), y = c.v3("y"), z = c.v3("z"), t = c.v3("t"); local(c, Mat34<R>(x, y, z, t)); }
OP(m4_local, "m4.local") { Vec3<R> x = c.v3("x"), y = c.v3("y"), z = c.v3("z"), t = c.v3("t"); local(c, Mat4<R>(Vec4<R>(x, R(0)), Vec4<R>(y, R(0)), Vec4<R>(z, R(0)), Vec4<R>(t, R(1)))); }

template <class R> static void put(drv::C<R>& c, const char* n, const Vec2<R>& a, const Vec2<R>& b) { c.o(n, {a.x, a.y, b.x, b.y}); }
template <class R> static void put(drv::C<R>& c, const char* n, const Vec3<R>& a, const Vec3<R>& b) { c.o(n, {a.x, a.y, a.z, b.x, b.y, b.z}); }
template <class R, class L, class V> static void seg(drv::C<R>& c, const V& s, const V& e, const V& p)
{
	R k = c.num("k"); const L l = L::from(s, e); const L l0 = l;
	put(c, "id", l.start, l.end); c.o("len", l.length()); c.o("len2", l.lengthSqr()); c.b("null", l.isNull()); c.o("at", l.pointAt(k)); c.o("dist", l.distance(p));
	c.b("frame", drv::same(l, l0));
}
OP(l2_seg, "l2.seg") { Vec2<R> s = c.v2("s"), e = c.v2("e"), p = c.v2("p"); seg<R, Line2<R>>(c, s, e, p); }
OP(l3_seg, "l3.seg") { Vec3<R> s = c.v3("s"), e = c.v3("e"), p = c.v3("p"); seg<R, Line3<R>>(c, s, e, p); }
template <class R, class L, class V> static void rayAsk(drv::C<R>& c, const V& s, const V& d, const V& p)
{
	R k = c.num("k"); const L l = L::from(s, d); const L l0 = l;
	c.o("start", l.start); c.o("dir", l.direction); c.o("at", l.pointAt(k)); c.o("dist", l.distance(p));
	c.b("frame", drv::same(l, l0));
}
OP(r2_ray, "r2.ray") { Vec2<R> s = c.v2("s"), d = c.v2("d"), p = c.v2("p"); rayAsk<R, Ray2<R>>(c, s, d, p); }
OP(r3_ray, "r3.ray") { Vec3<R> s = c.v3("s"), d = c.v3("d"), p = c.v3("p"); rayAsk<R, Ray3<R>>(c, s, d, p); }
OP(t2_has, "t2.has")
{
	Vec2<R> x = c.v2("x"), y = c.v2("y"), z = c.v2("z"), p = c.v2("p");
	const Vec2<R>* v[3] = {&x, &y, &z}; bool frame = true;
	for (int i = 0; i < 6; ++i) // all orders of the corners
	{
		int a = i % 3, b = (a + 1 + i / 3) % 3, d = 3 - a - b;
		const Tri2<R> t = Tri2<R>::from(*v[a], *v[b], *v[d]); const Tri2<R> t0 = t;
		c.b("has", t.contains(p)); frame = frame && drv::same(t, t0);
		if (i == 0) c.o("id", {t.a.x, t.a.y, t.b.x, t.b.y, t.c.x, t.c.y});
	}
	c.b("frame", frame);
}
