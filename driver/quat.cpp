// Quat: properties Q01, Q02
#include "drv.h"

template <class R> static Quat<R> raw(drv::C<R>& c, const char* n) { R x = c.rawnum(), y = c.rawnum(), z = c.rawnum(), w = c.rawnum(); c.logA(n, {x, y, z, w}); return Quat<R>(x, y, z, w, false); }

OP(q_alg, "q.alg")
{
	Quat<R> p = raw(c, "p"), q = raw(c, "q"); Vec3<R> v = c.v3("v");
	const Quat<R> p0 = p, q0 = q; const Vec3<R> v0 = v; const Quat<R>& cp = p; Quat<R> t;
	c.o("id", p); t.set(p); c.o("id", t); t = q; t = p; c.o("id", t); c.o("id", Quat<R>::from(p)); t.set(t); c.o("id", t);
	c.o("id", cp.data(), 4); for (int j = 0; j < 4; ++j) t.data()[j] = cp.data()[j]; c.o("id", t);
	c.o("one", Quat<R>::One); t = p; bool self = drv::isSelf(t.setIdentity(), t); c.o("one", t);
	c.o("inv", cp.inverse()); c.o("neg", -cp); c.o("pq", cp * q); t = p; t = t * q; c.o("pq", t);
	if (q.x != R(0) || q.y != R(0) || q.z != R(0) || q.w != R(0)) c.o("div", cp / q);
	c.o("pv", cp * v);
	t = p; self = drv::isSelf(t.normalize(), t) && self; c.o("norm", t); c.o("norm", Quat<R>(p.x, p.y, p.z, p.w)); c.o("norm", Quat<R>(p.x, p.y, p.z, p.w, true));
	Quat<R> pu(p.x, p.y, p.z, p.w), qu(q.x, q.y, q.z, q.w);
	c.o("rx", qu.rotated(Coord::X)); c.o("ry", qu.rotated(Coord::Y)); c.o("rz", qu.rotated(Coord::Z));
	c.o("rv", qu.rotated(v)); c.o("rv", Mat3<R>::from(qu) * v); c.o("rv", Mat4<R>::from(qu) * v);
	c.o("prod", (pu * qu).rotated(v)); c.o("back", qu.inverse().rotated(qu.rotated(v))); c.o("quot", (pu / qu).rotated(v));
	c.b("eq", cp == q); c.b("ne", cp != q); c.b("eq", q == cp);
	c.b("self", self); c.b("frame", drv::same(p, p0) && drv::same(q, q0) && drv::same(v, v0));
}
OP(q_conv, "q.conv")
{
	Quat<R> q = c.quat("q"); Vec3<R> u = c.v3("u"); R x = c.num("x");
	const Quat<R> q0 = q; const Vec3<R> u0 = u; Quat<R> t;
	Vec3<R> ax; R an; q.toAxisAngle(ax, an); c.o("axis", ax); c.o("angle", an);
	c.o("same", Quat<R>::from(ax, an)); t.set(ax, an); c.o("same", t);
	Mat3<R> m = Mat3<R>::from(q); Mat4<R> m4 = Mat4<R>::from(q);
	c.o("viam", Quat<R>::from(m)); bool self = drv::isSelf(t.set(m), t); c.o("viam", t);
	c.o("viam", Quat<R>::from(m4)); self = drv::isSelf(t.set(m4), t) && self; c.o("viam", t);
	c.o("fromm", Quat<R>::from(Mat3<R>::from(u, x))); c.o("fromm", Quat<R>::from(Mat4<R>::from(u, x)));
	c.o("set", Quat<R>::from(u, x)); self = drv::isSelf(t.set(u, x), t) && self; c.o("set", t);
	c.b("self", self); c.b("frame", drv::same(q, q0) && drv::same(u, u0));
}
OP(q_arc, "q.arc")
{
	Vec3<R> u = c.v3("u"), v = c.v3("v"); const Vec3<R> u0 = u, v0 = v; Quat<R> t;
	Quat<R> r = Quat<R>::from(u, v); c.o("r", r); bool self = drv::isSelf(t.set(u, v), t); c.o("r", t);
	c.o("ru", r.rotated(u.normalized())); c.o("ru", t.rotated(u.normalized()));
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
OP(q_lerp, "q.lerp")
{
	Quat<R> a = c.quat("a"), b = c.quat("b"); R k = c.num("t"); const Quat<R> a0 = a, b0 = b; Quat<R> t;
	c.o("lerp", Quat<R>::fromLerp(a, b, k)); bool self = drv::isSelf(t.lerp(a, b, k), t); c.o("lerp", t); t = a; t.lerp(t, b, k); c.o("lerp", t); t = b; t.lerp(a, t, k); c.o("lerp", t);
	c.o("slerp", Quat<R>::fromSlerp(a, b, k)); self = drv::isSelf(t.slerp(a, b, k), t) && self; c.o("slerp", t); t = a; t.slerp(t, b, k); c.o("slerp", t); t = b; t.slerp(a, t, k); c.o("slerp", t);
	c.o("noinv", Quat<R>::fromSlerpNoInvert(a, b, k)); self = drv::isSelf(t.slerpNoInvert(a, b, k), t) && self; c.o("noinv", t); t = a; t.slerpNoInvert(t, b, k); c.o("noinv", t); t = b; t.slerpNoInvert(a, t, k); c.o("noinv", t);
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(q_max, "q.max")
{
	Quat<R> a = c.quat("a"), b = c.quat("b"); R k = c.num("m"); const Quat<R> a0 = a, b0 = b; Quat<R> t;
	c.o("r", Quat<R>::fromSlerpMaxAngle(a, b, k)); bool self = drv::isSelf(t.slerpMaxAngle(a, b, k), t); c.o("r", t); t = a; t.slerpMaxAngle(t, b, k); c.o("r", t); t = b; t.slerpMaxAngle(a, t, k); c.o("r", t);
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(q_squad, "q.squad")
{
	Quat<R> a = c.quat("a"), b = c.quat("b"), d = c.quat("c"), f = c.quat("d"); R k = c.num("t"); const Quat<R> a0 = a, b0 = b, d0 = d, f0 = f; Quat<R> t;
	c.o("squad", Quat<R>::from(a, b, d, f, k)); bool self = drv::isSelf(t.set(a, b, d, f, k), t); c.o("squad", t);
	c.o("ctl", Quat<R>::from(a, b, d)); self = drv::isSelf(t.set(a, b, d), t) && self; c.o("ctl", t);
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(d, d0) && drv::same(f, f0));
}
