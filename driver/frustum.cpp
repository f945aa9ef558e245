// Frustum
#include "drv.h"
OP(fr_ask, "fr.ask")
{
	int form = c.integer("form");
	std::vector<R> x = c.nums("c", 24), m = c.nums("m", 12); Vec3<R> q = c.v3("q"); R r = c.num("r");
	Vec3<R> k[8]; for (int i = 0; i < 8; ++i) k[i] = Vec3<R>(x[3 * i], x[3 * i + 1], x[3 * i + 2]);
	const Mat34<R> m34(Vec3<R>(m[0], m[1], m[2]), Vec3<R>(m[3], m[4], m[5]), Vec3<R>(m[6], m[7], m[8]), Vec3<R>(m[9], m[10], m[11]));
	const Mat4<R> m4(Vec4<R>(m[0], m[1], m[2], R(0)), Vec4<R>(m[3], m[4], m[5], R(0)), Vec4<R>(m[6], m[7], m[8], R(0)), Vec4<R>(m[9], m[10], m[11], R(1)));
	Vec3<R> k0[8]; memcpy(k0, k, sizeof k);
	Frustum<R> f;
	if (form == 0) f.set(k); else if (form == 1) f.set(m34, k); else if (form == 2) f.set(m4, k);
	else { f = Frustum<R>(k); f.set(m34, f.corners); }
	const Frustum<R> g = f; const Sphere<R> s(q, r);
	auto put = [&](const Frustum<R>& a) {
		std::vector<R> v; for (int i = 0; i < 8; ++i) for (int j = 0; j < 3; ++j) v.push_back(a.corners[i].data()[j]);
		c.o("c", v); v.clear();
		for (int i = 0; i < 6; ++i) for (int j = 0; j < 4; ++j) v.push_back(a.planes[i].data()[j]);
		c.o("planes", v); };
	put(g);
	if (form == 0) put(Frustum<R>(k));
	c.b("has", g.contains(q)); c.b("has", g.contains(Vec4<R>(q, R(1)))); c.b("covers", g.contains(s)); c.b("meets", g.intersects(s));
	c.b("frame", memcmp(k, k0, sizeof k) == 0 && drv::same(f, g));
}
