// Vec2, Vec3, Vec4: properties V01, V02, V03
#include "drv.h"

template <class R> static const R* cdata(const Vec2<R>& v) { return v.data(); }
template <class R> static const R* cdata(const Vec3<R>& v) { return v.data(); }
template <class R> static const R* cdata(const Vec4<R>& v) { return v.data(); }

// operations every vector class has
template <class R, class V> static void common(drv::C<R>& c, V a, V b, R k, int n)
{
	const V a0 = a, b0 = b;
	const V& ca = a; const V& cb = b;
	V t;
	c.o("add", ca + cb); t = a; bool self = drv::isSelf(t += cb, t); c.o("add", t);
	c.o("sub", ca - cb); t = a; self = drv::isSelf(t -= cb, t) && self; c.o("sub", t);
	c.o("neg", -ca);
	c.o("mul", ca * k); t = a; self = drv::isSelf(t *= k, t) && self; c.o("mul", t);
	if (k != R(0)) { c.o("div", ca / k); t = a; self = drv::isSelf(t /= k, t) && self; c.o("div", t); }
	c.o("dot", ca * cb);
	c.o("len", ca.length()); c.o("lensq", ca.lengthSqr());
	c.o("prod", V::product(a, b)); c.o("min", V::min(a, b)); c.o("max", V::max(a, b));
	c.b("null", ca.isNull()); c.b("eq", ca == cb); c.b("ne", ca != cb);
	t = a; t += t; c.o("dbl", t); t = a; t -= t; c.o("nil", t);
	c.o("dbl", a + a); c.o("nil", a - a); c.o("lensq", a * a);
	c.o("id", ca.copy()); V cc(a); c.o("id", cc); t = b; t.set(a); c.o("id", t); t.set(t); c.o("id", t);
	c.o("id", cdata(ca), n); t = b; for (int j = 0; j < n; ++j) t.data()[j] = cdata(a)[j]; c.o("id", t);
	t.set(b); self = drv::isSelf(t.set(a), t) && self; c.b("self", self);
	t = V(k); c.o("fill", t);
	c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}

OP(v2_alg, "v2.alg")
{
	Vec2<R> a = c.v2("a"), b = c.v2("b"), d = c.v2("c"); R k = c.num("k");
	const Vec2<R> a0 = a, b0 = b, d0 = d;
	common(c, a, b, k, 2);
	const Vec2<R>& ca = a;
	c.o("dist", distance(a, b)); c.o("distsqr", distanceSqr(a, b));
	c.o("cross", ca % b); c.o("cross3", Vec2<R>::crossProduct(a, b, d));
	c.o("x", ca[Coord::X]); c.o("y", ca[Coord::Y]); c.o("x", a[Coord::X]); c.o("y", a[Coord::Y]);
	Vec2<R> t = a; t[Coord::X] = k; c.o("setx", t); t = a; t.set(Coord::X, k); c.o("setx", t);
	t = a; t[Coord::Y] = k; c.o("sety", t); t = a; t.set(Coord::Y, k); c.o("sety", t);
	c.o("movx", ca.moved(Coord::X, k)); c.o("movy", ca.moved(Coord::Y, k));
	t.set(b.x, b.y); c.o("idb", t); c.o("idb", Vec2<R>(b.x, b.y));
	c.c("major", ca.majorCoord()); c.c("minor", ca.minorCoord());
	c.o("axes", {Vec2<R>::Zero.x, Vec2<R>::Zero.y, Vec2<R>::OneX.x, Vec2<R>::OneX.y, Vec2<R>::OneY.x, Vec2<R>::OneY.y});
	c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(d, d0));
}

OP(v3_alg, "v3.alg")
{
	Vec3<R> a = c.v3("a"), b = c.v3("b"); R k = c.num("k");
	const Vec3<R> a0 = a, b0 = b;
	common(c, a, b, k, 3);
	const Vec3<R>& ca = a;
	Vec3<R> t;
	c.o("dist", distance(a, b)); c.o("distsqr", distanceSqr(a, b));
	c.o("cross", ca % b); t = a; bool self = drv::isSelf(t %= b, t); c.o("cross", t);
	t = a; t %= t; c.o("nil", t); c.o("nil", a % a);
	c.o("x", ca[Coord::X]); c.o("y", ca[Coord::Y]); c.o("z", ca[Coord::Z]); c.o("x", a[Coord::X]); c.o("y", a[Coord::Y]); c.o("z", a[Coord::Z]);
	const char* sn[] = {"setx", "sety", "setz"}; const char* mn[] = {"movx", "movy", "movz"};
	const char* cn[] = {"crossx", "crossy", "crossz"}; const char* nn[] = {"crossnx", "crossny", "crossnz"};
	for (int j = 0; j < 3; ++j)
	{
		Coord q = static_cast<Coord>(j); Axis p = static_cast<Axis>(j), m = static_cast<Axis>(j + 3);
		t = a; t[q] = k; c.o(sn[j], t); t = a; t.set(q, k); c.o(sn[j], t); c.o(mn[j], ca.moved(q, k));
		c.o(cn[j], ca % q); t = a; self = drv::isSelf(t %= q, t) && self; c.o(cn[j], t);
		c.o(cn[j], ca % p); t = a; self = drv::isSelf(t %= p, t) && self; c.o(cn[j], t);
		c.o(nn[j], ca % m); t = a; self = drv::isSelf(t %= m, t) && self; c.o(nn[j], t);
	}
	t.set(b.x, b.y, b.z); c.o("idb", t); c.o("idb", Vec3<R>(b.x, b.y, b.z));
	c.c("major", ca.majorCoord()); c.c("minor", ca.minorCoord());
	c.b("self", self);
	const Vec3<R>* k3[] = {&Vec3<R>::Zero, &Vec3<R>::OneX, &Vec3<R>::OneY, &Vec3<R>::OneZ};
	std::vector<R> ax; for (auto v : k3) { ax.push_back(v->x); ax.push_back(v->y); ax.push_back(v->z); }
	c.o("axes", ax);
	c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}

OP(v4_alg, "v4.alg")
{
	Vec4<R> a = c.v4("a"), b = c.v4("b"); R k = c.num("k");
	const Vec4<R> a0 = a, b0 = b;
	common(c, a, b, k, 4);
	const Vec4<R>& ca = a;
	Vec4<R> t; Vec3<R> b3(b.x, b.y, b.z);
	t = a; bool self = drv::isSelf(t += b3, t); c.o("add3", t); t = a; self = drv::isSelf(t -= b3, t) && self; c.o("sub3", t);
	const char* sn[] = {"setx", "sety", "setz", "setw"}; const char* mn[] = {"movx", "movy", "movz", "movw"};
	for (int j = 0; j < 4; ++j)
	{
		Coord q = static_cast<Coord>(j);
		t = a; self = drv::isSelf(t.set(q, k), t) && self; c.o(sn[j], t); c.o(mn[j], ca.moved(q, k));
	}
	t.set(b.x, b.y, b.z, b.w); c.o("idb", t); c.o("idb", Vec4<R>(b.x, b.y, b.z, b.w)); c.o("idb", Vec4<R>(b3, b.w)); t = a; t.set(b3, b.w); c.o("idb", t);
	c.o("xyz", ca.toVec3());
	c.o("point", Vec4<R>(ca.toVec3())); c.o("point", Vec4<R>(a.x, a.y, a.z));
	t = b; t.set(ca.toVec3()); c.o("dir", t); t = b; t.set(a.x, a.y, a.z); c.o("dir", t);
	c.b("self", self);
	const Vec4<R>* k4[] = {&Vec4<R>::Zero, &Vec4<R>::OneX, &Vec4<R>::OneY, &Vec4<R>::OneZ, &Vec4<R>::OneW, &Vec4<R>::OneXnw, &Vec4<R>::OneYnw, &Vec4<R>::OneZnw};
	std::vector<R> ax; for (auto v : k4) { ax.push_back(v->x); ax.push_back(v->y); ax.push_back(v->z); ax.push_back(v->w); }
	c.o("axes", ax);
	c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}

// dimension conversions
OP(v_conv, "v.conv")
{
	Vec3<R> a = c.v3("a"); Vec2<R> u = c.v2("u");
	const Vec3<R> a0 = a; const Vec2<R> u0 = u;
	c.o("dropx", Vec2<R>(a, Coord::X)); c.o("dropx", a.toVec2(Coord::X));
	c.o("dropy", Vec2<R>(a, Coord::Y)); c.o("dropy", a.toVec2(Coord::Y));
	c.o("dropz", Vec2<R>(a, Coord::Z)); c.o("dropz", a.toVec2(Coord::Z)); c.o("dropz", Vec2<R>(a)); c.o("dropz", a.toVec2());
	c.o("liftx", Vec3<R>(u, Coord::X)); c.o("lifty", Vec3<R>(u, Coord::Y)); c.o("liftz", Vec3<R>(u, Coord::Z)); c.o("liftz", Vec3<R>(u));
	c.b("frame", drv::same(a, a0) && drv::same(u, u0));
}

// crossing of the lines through two segments
OP(v2_seg, "v2.seg")
{
	Vec2<R> f = c.v2("f"), t = c.v2("t"), a = c.v2("a"), b = c.v2("b");
	const Vec2<R> f0 = f, t0 = t, a0 = a, b0 = b;
	R x = R(7), y = R(7);
	int r = intersection(f, t, a, b, x, y);
	c.i("found", r); c.o("ftp", x); c.o("abp", y);
	c.b("frame", drv::same(f, f0) && drv::same(t, t0) && drv::same(a, a0) && drv::same(b, b0));
}

// one object through a chain of in-place operations; one event per step
template <class R, class V> static void chain(drv::C<R>& c, V v)
{
	c.what = "start"; c.o("r", v); c.emit();
	while (c.more())
	{
		std::string w = c.tok(); c.what = w; bool self = true;
		std::vector<R> arg;
		V b;
		if (w == "add" || w == "sub") { for (size_t j = 0; j < sizeof(V) / sizeof(R); ++j) { arg.push_back(c.rawnum()); b.data()[j] = arg[j]; } c.logA("b", arg); }
		if (w == "mul" || w == "div" || w == "norm" || w == "rot") { arg.push_back(c.rawnum()); c.logA("k", arg); }
		if (w == "add") self = drv::isSelf(v += b, v);
		else if (w == "sub") self = drv::isSelf(v -= b, v);
		else if (w == "mul") self = drv::isSelf(v *= arg[0], v);
		else if (w == "div") self = drv::isSelf(v /= arg[0], v);
		else if (w == "dbl") self = drv::isSelf(v += v, v);
		else if (w == "neg") { v = -v; }
		else if (w == "set") { int j = c.integer("j"); R x = c.num("k"); v.set(static_cast<Coord>(j - 1), x); }
		else { fprintf(stderr, "driver: bad step %s\n", w.c_str()); _exit(3); }
		c.o("r", v); c.b("self", self); c.emit();
	}
}
OP(v2_hist, "v2.hist") { chain(c, c.v2("r")); }
OP(v3_hist, "v3.hist") { chain(c, c.v3("r")); }
OP(v4_hist, "v4.hist") { chain(c, c.v4("r")); }

// ---- V02
OP(v2_rot, "v2.rot")
{
	Vec2<R> a = c.v2("a"), b = c.v2("b"); R ang = c.num("t"), k = c.num("k");
	const Vec2<R> a0 = a, b0 = b; const Vec2<R>& ca = a; Vec2<R> t;
	c.o("rot", ca.rotated(ang)); t = a; bool self = drv::isSelf(t.rotate(ang), t); c.o("rot", t);
	c.o("r90", ca.rotated90()); t = a; self = drv::isSelf(t.rotate90(), t) && self; c.o("r90", t);
	c.o("r180", ca.rotated180()); t = a; self = drv::isSelf(t.rotate180(), t) && self; c.o("r180", t);
	c.o("r270", ca.rotated270()); t = a; self = drv::isSelf(t.rotate270(), t) && self; c.o("r270", t);
	c.o("mirx", ca.mirrored(Coord::X)); t = a; self = drv::isSelf(t.mirror(Coord::X), t) && self; c.o("mirx", t);
	c.o("miry", ca.mirrored(Coord::Y)); t = a; self = drv::isSelf(t.mirror(Coord::Y), t) && self; c.o("miry", t);
	c.o("unit", ca.normalized()); t = a; c.o("len", t.normalize()); c.o("unit", t);
	c.o("norm", ca.normalized(k)); t = a; c.o("len", t.normalize(k)); c.o("norm", t);
	c.o("polar", Vec2<R>::fromAngle(ang, k)); t = a; self = drv::isSelf(t.setAngle(ang, k), t) && self; c.o("polar", t);
	c.o("dir", Vec2<R>::fromAngle(ang)); t = a; t.setAngle(ang); c.o("dir", t);
	c.o("angle", ca.angle());
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}

OP(v3_rot, "v3.rot")
{
	Vec3<R> a = c.v3("a"); R ang = c.num("t"), k = c.num("k");
	const Vec3<R> a0 = a; const Vec3<R>& ca = a; Vec3<R> t;
	const char* rn[] = {"rotx", "roty", "rotz"}; const char* mn[] = {"mirx", "miry", "mirz"};
	bool self = true;
	for (int j = 0; j < 3; ++j)
	{
		Coord q = static_cast<Coord>(j);
		c.o(rn[j], ca.rotated(q, ang)); t = a; self = drv::isSelf(t.rotate(q, ang), t) && self; c.o(rn[j], t);
		c.o(mn[j], ca.mirrored(q)); t = a; self = drv::isSelf(t.mirror(q), t) && self; c.o(mn[j], t);
	}
	c.o("unit", ca.normalized()); t = a; c.o("len", t.normalize()); c.o("unit", t);
	c.o("norm", ca.normalized(k)); t = a; c.o("len", t.normalize(k)); c.o("norm", t);
	c.b("self", self); c.b("frame", drv::same(a, a0));
}

// ---- V03
OP(v2_clerp, "v2.clerp")
{
	Vec2<R> u = c.v2("u"), v = c.v2("v"); R k = c.num("k");
	const Vec2<R> u0 = u, v0 = v; Vec2<R> t;
	c.o("r", Vec2<R>::fromClerp(u, v, k)); t = v; bool self = drv::isSelf(t.clerp(u, v, k), t); c.o("r", t);
	t = u; t.clerp(t, v, k); c.o("r", t); t = v; t.clerp(u, t, k); c.o("r", t);
	c.o("lerp", lerp(u, v, k));
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
OP(v2_clerpmax, "v2.clerpmax")
{
	Vec2<R> u = c.v2("u"), v = c.v2("v"); R k = c.num("k");
	const Vec2<R> u0 = u, v0 = v; Vec2<R> t;
	c.o("r", Vec2<R>::fromClerpMaxAngle(u, v, k)); t = v; bool self = drv::isSelf(t.clerpMaxAngle(u, v, k), t); c.o("r", t);
	t = u; t.clerpMaxAngle(t, v, k); c.o("r", t); t = v; t.clerpMaxAngle(u, t, k); c.o("r", t);
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
OP(v3_slerp, "v3.slerp")
{
	Vec3<R> u = c.v3("u"), v = c.v3("v"); R k = c.num("k");
	const Vec3<R> u0 = u, v0 = v; Vec3<R> t;
	c.o("r", Vec3<R>::fromSlerp(u, v, k)); t = v; bool self = drv::isSelf(t.slerp(u, v, k), t); c.o("r", t);
	t = u; t.slerp(t, v, k); c.o("r", t); t = v; t.slerp(u, t, k); c.o("r", t);
	c.o("lerp", lerp(u, v, k));
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
OP(v3_slerpmax, "v3.slerpmax")
{
	Vec3<R> u = c.v3("u"), v = c.v3("v"); R k = c.num("k");
	const Vec3<R> u0 = u, v0 = v; Vec3<R> t;
	c.o("r", Vec3<R>::fromSlerpMaxAngle(u, v, k)); t = v; bool self = drv::isSelf(t.slerpMaxAngle(u, v, k), t); c.o("r", t);
	t = u; t.slerpMaxAngle(t, v, k); c.o("r", t); t = v; t.slerpMaxAngle(u, t, k); c.o("r", t);
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
