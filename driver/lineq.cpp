// TriDiagonal, GaussJordan
#include "arr.h"

OP(tri_solve, "tri.solve")
{
	int n = c.rawint();
	Arr<R> a(c.nums("a", n - 1)), b(c.nums("b", n)), u(c.nums("c", n - 1)), r(c.nums("r", n));
	std::vector<R> rx = c.nums("rx", n), ry = c.nums("ry", n), rz = c.nums("rz", n), rv;
	for (int i = 0; i < n; ++i) { rv.push_back(rx[i]); rv.push_back(ry[i]); rv.push_back(rz[i]); }
	Arr<R> x(n), vr(rv), vx(3 * n);
	bool ok = TriDiagonal<R>::solve(a.p(), b.p(), u.p(), r.p(), x.p(), n); c.b("ok", ok);
	if (ok) c.o("u", x.get()); else c.o("u", std::vector<R>());
	ok = TriDiagonal<R>::solve(a.p(), b.p(), u.p(), reinterpret_cast<Vec3<R>*>(vr.p()), reinterpret_cast<Vec3<R>*>(vx.p()), n); c.b("okv", ok);
	if (ok) { c.o("ux", vx.part(0, 3)); c.o("uy", vx.part(1, 3)); c.o("uz", vx.part(2, 3)); }
	else { c.o("ux", std::vector<R>()); c.o("uy", std::vector<R>()); c.o("uz", std::vector<R>()); }
	c.b("frame", a.intact() && b.intact() && u.intact() && r.intact() && vr.intact() && x.guards() && vx.guards());
}
OP(tri_cyclic, "tri.cyclic")
{
	int n = c.rawint();
	Arr<R> a(c.nums("a", n - 1)), b(c.nums("b", n)), u(c.nums("c", n - 1)); R al = c.num("al"), be = c.num("be"); Arr<R> r(c.nums("r", n)), x(n);
	bool ok = TriDiagonal<R>::solveCyclic(a.p(), b.p(), u.p(), al, be, r.p(), x.p(), n); c.b("ok", ok);
	c.o("x", ok ? x.get() : std::vector<R>());
	c.b("frame", a.intact() && b.intact() && u.intact() && r.intact() && x.guards());
}
OP(gj_solve, "gj.solve")
{
	int n = c.rawint(), m = c.rawint(); c.ra.add("n", "[" + std::to_string(n) + "]"); c.ra.add("m", "[" + std::to_string(m) + "]");
	std::vector<R> a0 = c.nums("a", n * n), b0 = c.nums("b", n * m);
	bool frame = true;
	auto put = [&](bool ok, const Arr<R>& a, const Arr<R>& b) { c.b("ok", ok); if (ok) { c.o("inv", a.get()); c.o("x", b.get()); } frame = frame && a.guards() && b.guards(); };
	{ Arr<R> a(a0), b(b0); bool ok = GaussJordan<R>::solve(a.p(), n, b.p(), m); put(ok, a, b); }
	if (m == 2) { Arr<R> a(a0), b(b0); bool ok = GaussJordan<R>::solve(a.p(), n, reinterpret_cast<Vec2<R>*>(b.p())); put(ok, a, b); }
	if (m == 3) { Arr<R> a(a0), b(b0); bool ok = GaussJordan<R>::solve(a.p(), n, reinterpret_cast<Vec3<R>*>(b.p())); put(ok, a, b); }
	c.b("frame", frame);
}
