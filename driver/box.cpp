// AABB2, AABB3, CAABB2, CAABB3, Circle, Sphere
#include "drv.h"

template <class Real> struct D2
{
	typedef Real R; typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> K; typedef Circle<R> S; typedef Ray2<R> Ray; typedef Line2<R> Line;
	static const int n = 2;
	static V rd(drv::C<R>& c, const char* nm) { return c.v2(nm); }
	template <class B> static R vol(const B& b) { return b.area(); }
	template <class B> static S in(const B& b) { return b.innerCircle(); }
	template <class B> static S out(const B& b) { return b.outerCircle(); }
	static K fromA(const A& a) { return K::fromInfSup(a.inf, a.sup); }
	template <class B> static void ball(drv::C<R>&, const B&) {}
};
template <class Real> struct D3
{
	typedef Real R; typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> K; typedef Sphere<R> S; typedef Ray3<R> Ray; typedef Line3<R> Line;
	static const int n = 3;
	static V rd(drv::C<R>& c, const char* nm) { return c.v3(nm); }
	template <class B> static R vol(const B& b) { return b.volume(); }
	template <class B> static S in(const B& b) { return b.innerSphere(); }
	template <class B> static S out(const B& b) { return b.outerSphere(); }
	static K fromA(const A& a) { return K::from(a); }
	template <class B> static void ball(drv::C<R>& c, const B& b) { V q = c.v3("q"); R r = c.num("r"); c.b("ball", b.contains(S(q, r))); }
};

template <class R, class V> static std::vector<R> two(const V& a, const V& b)
{
	std::vector<R> r(a.data(), a.data() + sizeof(V) / sizeof(R));
	r.insert(r.end(), b.data(), b.data() + sizeof(V) / sizeof(R));
	return r;
}
template <class R> static std::vector<R> box(const AABB2<R>& b) { return two<R>(b.inf, b.sup); }
template <class R> static std::vector<R> box(const AABB3<R>& b) { return two<R>(b.inf, b.sup); }
template <class R> static std::vector<R> box(const CAABB2<R>& b) { return two<R>(b.center, b.extents); }
template <class R> static std::vector<R> box(const CAABB3<R>& b) { return two<R>(b.center, b.extents); }

// an array of points, with or without a stride
template <class D> struct Points
{
	typedef typename D::R R; typedef typename D::V V;
	int n; std::vector<V> dense; std::vector<char> wide; int stride;
	Points(drv::C<R>& c)
	{
		n = c.rawint(); stride = static_cast<int>(sizeof(V) + sizeof(R) * c.rawint());
		std::vector<R> x;
		for (int i = 0; i < n; ++i) { V v; for (int j = 0; j < D::n; ++j) { v.data()[j] = c.rawnum(); x.push_back(v.data()[j]); } dense.push_back(v); }
		c.logA("pts", x);
		// the bytes between the points are poison (huge numbers)
		wide.resize(static_cast<size_t>(stride) * n);
		R poison = R(1e30); for (size_t i = 0; i + sizeof(R) <= wide.size(); i += sizeof(R)) memcpy(&wide[i], &poison, sizeof(R));
		for (int i = 0; i < n; ++i) memcpy(&wide[static_cast<size_t>(i) * stride], dense[i].data(), sizeof(R) * D::n);
	}
	const V* ptr() const { return reinterpret_cast<const V*>(wide.data()); }
};

// measures of the box
template <class D> static void look(drv::C<typename D::R>& c, const typename D::A& b)
{
	c.o("lo", b.inf); c.o("hi", b.sup); c.o("mid", b.center()); c.o("half", b.extents()); c.o("size", b.size()); c.o("vol", D::vol(b));
	auto i = D::in(b), u = D::out(b); c.o("mid", i.center); c.o("mid", u.center); c.o("rin", i.radius); c.o("rout", u.radius); c.b("null", b.isNull());
}
template <class D> static void look(drv::C<typename D::R>& c, const typename D::K& b)
{
	c.o("lo", b.inf()); c.o("hi", b.sup()); c.o("mid", b.center); c.o("half", b.extents); c.o("size", b.size()); c.o("vol", D::vol(b));
	auto i = D::in(b), u = D::out(b); c.o("mid", i.center); c.o("mid", u.center); c.o("rin", i.radius); c.o("rout", u.radius); c.b("null", b.isNull());
}

template <class D, class B> static void common(drv::C<typename D::R>& c, B& b, const std::string& w)
{
	typedef typename D::R R; typedef typename D::V V;
	bool self = true; const B b0 = b; B t;
	if (w == "pt") { V p = D::rd(c, "x"); self = drv::isSelf(b.set(p), b); c.o("r", box<R>(b)); c.o("r", box<R>(B::from(p))); }
	else if (w == "pair") { V p = D::rd(c, "x"), q = D::rd(c, "y"); self = drv::isSelf(b.set(p, q), b); c.o("r", box<R>(b)); c.o("r", box<R>(B::from(p, q))); c.o("r", box<R>(B(p, q))); }
	else if (w == "pts")
	{
		Points<D> p(c);
		self = drv::isSelf(b.set(p.n, p.dense.data()), b); c.o("r", box<R>(b)); c.o("r", box<R>(B::from(p.n, p.dense.data())));
		t = b0; self = drv::isSelf(t.set(p.n, p.ptr(), p.stride), t) && self; c.o("r", box<R>(t)); c.o("r", box<R>(B::from(p.n, p.ptr(), p.stride)));
	}
	else if (w == "add") { V p = D::rd(c, "x"); self = drv::isSelf(b.add(p), b); c.o("r", box<R>(b)); }
	else if (w == "move") { V p = D::rd(c, "x"); c.o("r", box<R>(b + p)); self = drv::isSelf(b += p, b); c.o("r", box<R>(b)); }
	else if (w == "back") { V p = D::rd(c, "x"); c.o("r", box<R>(b - p)); self = drv::isSelf(b -= p, b); c.o("r", box<R>(b)); }
	else if (w == "mul") { R k = c.num("k"); c.o("r", box<R>(b * k)); self = drv::isSelf(b *= k, b); c.o("r", box<R>(b)); }
	else if (w == "div") { R k = c.num("k"); c.o("r", box<R>(b / k)); self = drv::isSelf(b /= k, b); c.o("r", box<R>(b)); }
	else { fprintf(stderr, "driver: unknown step %s\n", w.c_str()); _exit(3); }
	c.b("self", self);
}

template <class D> static void histA(drv::C<typename D::R>& c)
{
	typedef typename D::R R; typedef typename D::A A; typedef typename D::K K;
	A b = A::One;
	c.what = "start"; c.o("r", box<R>(b)); c.o("zero", box<R>(A::Zero)); look<D>(c, b); c.emit();
	while (c.more())
	{
		std::string w = c.tok(); c.what = w;
		if (w == "union" || w == "inter")
		{
			auto x = D::rd(c, "x"); auto y = D::rd(c, "y"); A q(x, y);
			A r = w == "union" ? A::fromUnion(b, q) : A::fromIntersection(b, q);
			c.o("r", box<R>(r)); c.o("r", box<R>(w == "union" ? A::fromUnion(q, b) : A::fromIntersection(q, b)));
			c.b("meet", b.intersects(q)); c.b("meet", q.intersects(b));
			b = r;
		}
		else if (w == "scale") { R k = c.num("k"); c.b("self", drv::isSelf(b.scaleCentered(k), b)); c.o("r", box<R>(b)); }
		else if (w == "form") { K k; auto x = D::rd(c, "x"); auto y = D::rd(c, "y"); k.center = x; k.extents = y; c.b("self", drv::isSelf(b.set(k), b)); c.o("r", box<R>(b)); c.o("r", box<R>(A::from(k))); }
		else common<D>(c, b, w);
		look<D>(c, b); c.emit();
	}
}
template <class D> static void histK(drv::C<typename D::R>& c)
{
	typedef typename D::R R; typedef typename D::A A; typedef typename D::K K;
	K b = K::One;
	c.what = "start"; c.o("r", box<R>(b)); look<D>(c, b); c.emit();
	while (c.more())
	{
		std::string w = c.tok(); c.what = w;
		if (w == "form") { auto x = D::rd(c, "x"); auto y = D::rd(c, "y"); A a(x, y); c.b("self", drv::isSelf(b.set(a), b)); c.o("r", box<R>(b)); c.o("r", box<R>(D::fromA(a))); }
		else common<D>(c, b, w);
		look<D>(c, b); c.emit();
	}
}
OP(a2_hist, "a2.hist") { histA<D2<R>>(c); }
OP(a3_hist, "a3.hist") { histA<D3<R>>(c); }
OP(k2_hist, "k2.hist") { histK<D2<R>>(c); }
OP(k3_hist, "k3.hist") { histK<D3<R>>(c); }

// questions about two boxes and a point
template <class D, class B> static void ask(drv::C<typename D::R>& c)
{
	typedef typename D::V V;
	V x = D::rd(c, "x"), y = D::rd(c, "y"), z = D::rd(c, "z"), w = D::rd(c, "w"), p = D::rd(c, "p");
	B a, b;
	memcpy(&a, x.data(), sizeof(V)); memcpy(reinterpret_cast<char*>(&a) + sizeof(V), y.data(), sizeof(V));
	memcpy(&b, z.data(), sizeof(V)); memcpy(reinterpret_cast<char*>(&b) + sizeof(V), w.data(), sizeof(V));
	const B a0 = a, b0 = b;
	c.b("has", a.contains(p)); c.b("covers", a.contains(b)); c.b("meet", a.intersects(b)); c.b("meet", b.intersects(a));
	c.b("eq", a == b); c.b("ne", a != b); c.b("same", a == a0); c.b("diff", a != a0);
	c.o("at", a.pointAt(p));
	D::ball(c, a);
	c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(a2_ask, "a2.ask") { ask<D2<R>, AABB2<R>>(c); }
OP(a3_ask, "a3.ask") { ask<D3<R>, AABB3<R>>(c); }
OP(k2_ask, "k2.ask") { ask<D2<R>, CAABB2<R>>(c); }
OP(k3_ask, "k3.ask") { ask<D3<R>, CAABB3<R>>(c); }

template <class D> static void rays(drv::C<typename D::R>& c)
{
	typedef typename D::R R;
	auto x = D::rd(c, "lo"); auto y = D::rd(c, "hi"); typename D::A b(x, y); const typename D::A b0 = b;
	typename D::Ray ray; ray.start = D::rd(c, "s"); ray.direction = D::rd(c, "d"); const typename D::Ray ray0 = ray;
	R t = R(77), t1 = R(77), t2 = R(77);
	bool h = b.hits(t, ray); c.b("hit", h); c.o("t", t);
	bool i = b.intersects(t1, t2, ray); c.b("meet", i); c.o("t1", t1); c.o("t2", t2);
	c.b("frame", drv::same(b, b0) && drv::same(ray, ray0));
}
template <class D> static void lines(drv::C<typename D::R>& c)
{
	typedef typename D::R R;
	auto x = D::rd(c, "lo"); auto y = D::rd(c, "hi"); typename D::A b(x, y); const typename D::A b0 = b;
	auto s = D::rd(c, "s"); auto e = D::rd(c, "e"); typename D::Line line = D::Line::from(s, e); const typename D::Line line0 = line;
	R t = R(77), t1 = R(77), t2 = R(77);
	bool h = b.hits(t, line); c.b("hit", h); c.o("t", t);
	bool i = b.intersects(t1, t2, line); c.b("meet", i); c.o("t1", t1); c.o("t2", t2);
	c.b("frame", drv::same(b, b0) && drv::same(line, line0));
}
OP(a2_ray, "a2.ray") { rays<D2<R>>(c); }
OP(a3_ray, "a3.ray") { rays<D3<R>>(c); }
OP(a2_line, "a2.line") { lines<D2<R>>(c); }
OP(a3_line, "a3.line") { lines<D3<R>>(c); }

// circles and spheres
template <class D> static std::vector<typename D::R> ball(const typename D::S& s)
{
	std::vector<typename D::R> r(s.center.data(), s.center.data() + D::n); r.push_back(s.radius); return r;
}
template <class D> static void balls(drv::C<typename D::R>& c)
{
	typedef typename D::R R; typedef typename D::S S; typedef typename D::V V;
	V x = D::rd(c, "x"); R r = c.num("r"); V y = D::rd(c, "y"); R q = c.num("q"); V p = D::rd(c, "p"); R k = c.num("k");
	S a(x, r), b = S::from(y, q), t; const S a0 = a, b0 = b;
	c.o("id", ball<D>(a)); c.o("id", ball<D>(S::from(x, r))); t = b; bool self = drv::isSelf(t.set(x, r), t); c.o("id", ball<D>(t));
	c.o("id", std::vector<R>(a.data(), a.data() + D::n + 1)); const S& ca = a; c.o("id", std::vector<R>(ca.data(), ca.data() + D::n + 1));
	c.o("one", ball<D>(S::One));
	c.o("move", ball<D>(a + p)); t = a; self = drv::isSelf(t += p, t) && self; c.o("move", ball<D>(t));
	c.o("back", ball<D>(a - p)); t = a; self = drv::isSelf(t -= p, t) && self; c.o("back", ball<D>(t));
	c.o("mul", ball<D>(a * k)); t = a; self = drv::isSelf(t *= k, t) && self; c.o("mul", ball<D>(t));
	if (k != R(0)) { c.o("div", ball<D>(a / k)); t = a; self = drv::isSelf(t /= k, t) && self; c.o("div", ball<D>(t)); }
	c.b("has", a.contains(p)); c.b("covers", a.contains(b)); c.b("meet", a.intersects(b)); c.b("meet", b.intersects(a));
	V hit = p; R d = R(77);
	bool m = a.intersects(hit, d, b); c.b("meet", m); c.o("hit", hit); c.o("depth", d);
	c.b("eq", a == b); c.b("ne", a != b); c.b("same", a == a0); c.b("diff", a != a0);
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(c2_ball, "c2.ball") { balls<D2<R>>(c); }
OP(c3_ball, "c3.ball") { balls<D3<R>>(c); }

template <class D> static void around(drv::C<typename D::R>& c)
{
	typedef typename D::S S;
	Points<D> p(c); S t; t.center = typename D::V(7); t.radius = 5;
	S u = t;
	bool self = drv::isSelf(t.set(p.n, p.dense.data()), t); c.o("r", ball<D>(t)); c.o("r", ball<D>(S::from(p.n, p.dense.data())));
	self = drv::isSelf(u.set(p.n, p.ptr(), p.stride), u) && self; c.o("r", ball<D>(u)); c.o("r", ball<D>(S::from(p.n, p.ptr(), p.stride)));
	c.b("self", self);
}
OP(c2_pts, "c2.pts") { around<D2<R>>(c); }
OP(c3_pts, "c3.pts") { around<D3<R>>(c); }

// a circle is tested against the projection of the line along z
template <class D> static void ballLine(drv::C<typename D::R>& c)
{
	typedef typename D::R R; typedef typename D::S S; typedef typename D::V V;
	V x = D::rd(c, "x"); R r = c.num("r"); Vec3<R> s = c.v3("s"), e = c.v3("e");
	S a(x, r); const S a0 = a; Line3<R> l = Line3<R>::from(s, e); const Line3<R> l0 = l;
	V hit = V(77), hit2 = V(77); R t = R(77), t2 = R(77);
	bool m = a.hits(hit, t, l); c.b("hit", m); c.b("hit", a.intersects(l)); c.b("hit", a.intersects(hit2, t2, l));
	c.o("at", hit); c.o("at", hit2); c.o("t", t); c.o("t", t2);
	c.b("frame", drv::same(a, a0) && drv::same(l, l0));
}
OP(c2_line, "c2.line") { ballLine<D2<R>>(c); }
OP(c3_line, "c3.line") { ballLine<D3<R>>(c); }
