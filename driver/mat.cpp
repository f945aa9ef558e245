// Mat2, Mat3, Mat34, Mat4: properties M01 .. M04
#include "drv.h"

typedef std::string S;
template <class R> struct Other { typedef double type; };
template <> struct Other<double> { typedef float type; };
enum Kind { K2 = 2, K3 = 3, K34 = 34, K4 = 4 };

template <class R, template <class> class M> struct Tr;
template <class R> struct Tr<R, Mat2> { typedef Vec2<R> V; enum { N = 4, VN = 2 }; static Mat2<R> make(const R* d) { return Mat2<R>(Vec2<R>(d[0], d[1]), Vec2<R>(d[2], d[3])); } };
template <class R> struct Tr<R, Mat3> { typedef Vec3<R> V; enum { N = 9, VN = 3 }; static Mat3<R> make(const R* d) { return Mat3<R>(Vec3<R>(d[0], d[1], d[2]), Vec3<R>(d[3], d[4], d[5]), Vec3<R>(d[6], d[7], d[8])); } };
template <class R> struct Tr<R, Mat34> { typedef Vec3<R> V; enum { N = 12, VN = 3 }; static Mat34<R> make(const R* d) { return Mat34<R>(Vec3<R>(d[0], d[1], d[2]), Vec3<R>(d[3], d[4], d[5]), Vec3<R>(d[6], d[7], d[8]), Vec3<R>(d[9], d[10], d[11])); } };
template <class R> struct Tr<R, Mat4> { typedef Vec4<R> V; enum { N = 16, VN = 4 }; static Mat4<R> make(const R* d) { return Mat4<R>(Vec4<R>(d[0], d[1], d[2], d[3]), Vec4<R>(d[4], d[5], d[6], d[7]), Vec4<R>(d[8], d[9], d[10], d[11]), Vec4<R>(d[12], d[13], d[14], d[15])); } };

template <template <class> class M, class R> static M<R> rd(drv::C<R>& c, const char* n)
{
	std::vector<R> d = c.nums(n, Tr<R, M>::N);
	return Tr<R, M>::make(d.data());
}
template <class R> static Vec2<R> rdv(drv::C<R>& c, const char* n, Vec2<R>*) { return c.v2(n); }
template <class R> static Vec3<R> rdv(drv::C<R>& c, const char* n, Vec3<R>*) { return c.v3(n); }
template <class R> static Vec4<R> rdv(drv::C<R>& c, const char* n, Vec4<R>*) { return c.v4(n); }
template <class M> static bool sameBits(const M& a, const M& b) { return memcmp(a.data(), b.data(), sizeof(typename M::Real) * (sizeof(M) / sizeof(typename M::Real))) == 0 || a == b; }

// what all four classes have
template <class R, class M> static void algCommon(drv::C<R>& c, const M& a, const M& b)
{
	M t;
	c.o("ab", a * b); t = a; bool self = drv::isSelf(t *= b, t); c.o("ab", t); t = b; M::multiply(t, a, b); c.o("ab", t);
	c.o("aa", a * a); t = a; self = drv::isSelf(t *= t, t) && self; c.o("aa", t);
	c.o("neg", -a); c.o("id", a); t.set(a); c.o("id", t); t.set(t); c.o("id", t);
	t = a; self = drv::isSelf(t.transpose(), t) && self; c.o("tr", t);
	c.b("eq", a == b); c.b("ne", a != b);
	c.b("self", self);
}
template <class R, class M> static void algSquare(drv::C<R>& c, const M& a, R k)
{
	M t;
	c.o("ak", a * k); t = a; bool self = drv::isSelf(t *= k, t); c.o("ak", t);
	if (k != R(0)) { c.o("adk", a / k); t = a; self = drv::isSelf(t /= k, t) && self; c.o("adk", t); }
	c.o("tr", a.transposed()); c.o("inv", a.inversed());
	c.o("trace", a.trace()); c.o("det", a.determinant());
	c.o("nerr", a.normalError()); c.o("oerr", a.orthogonalError()); c.o("ierr", a.identityError());
	c.b("self", self);
}
template <class R, class M, class V> static void algVec(drv::C<R>& c, const M& a, const V& v)
{
	c.o("av", a * v); V d; a.transform(d, v); c.o("av", d); d = v; a.transform(d, d); c.o("av", d);
}

OP(m2_alg, "m2.alg")
{
	Mat2<R> a = rd<Mat2>(c, "a"), b = rd<Mat2>(c, "b"); Vec2<R> v = c.v2("v"); R k = c.num("k");
	const Mat2<R> a0 = a, b0 = b; const Vec2<R> v0 = v; const Mat2<R>& ca = a;
	algCommon(c, ca, b); algSquare(c, ca, k); algVec(c, ca, v);
	c.o("cof", ca.cofactors()); c.o("adj", ca.adjoint()); c.o("angle", ca.angle());
	c.o("va", v * ca); Vec2<R> u = v; c.b("self", drv::isSelf(u *= ca, u)); c.o("va", u);
	c.o("consts", {Mat2<R>::Zero.x.x, Mat2<R>::Zero.x.y, Mat2<R>::Zero.y.x, Mat2<R>::Zero.y.y}); c.o("one", Mat2<R>::One); c.o("diag", Mat2<R>(k));
	c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(v, v0));
}
OP(m3_alg, "m3.alg")
{
	Mat3<R> a = rd<Mat3>(c, "a"), b = rd<Mat3>(c, "b"); Vec3<R> v = c.v3("v"); R k = c.num("k");
	const Mat3<R> a0 = a, b0 = b; const Vec3<R> v0 = v; const Mat3<R>& ca = a; Mat3<R> t;
	algCommon(c, ca, b); algSquare(c, ca, k); algVec(c, ca, v);
	c.o("cof", ca.cofactors()); c.o("adj", ca.adjoint());
	t = a; c.b("self", drv::isSelf(t.invert(), t)); c.o("inv", t);
	c.o("va", v * ca); Vec3<R> u = v; u *= ca; c.o("va", u);
	c.o("zero", Mat3<R>::Zero); c.o("one", Mat3<R>::One); c.o("diag", Mat3<R>(k));
	c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(v, v0));
}
OP(m34_alg, "m34.alg")
{
	Mat34<R> a = rd<Mat34>(c, "a"), b = rd<Mat34>(c, "b"); Vec3<R> v = c.v3("v"); R k = c.num("k");
	const Mat34<R> a0 = a, b0 = b; const Vec3<R> v0 = v; const Mat34<R>& ca = a; Mat34<R> t;
	algCommon(c, ca, b); algVec(c, ca, v);
	c.o("abrs", ca * b.rs); t = a; bool self = drv::isSelf(t *= b.rs, t); c.o("abrs", t);
	t = a; self = drv::isSelf(t.invert(), t) && self; c.o("inv", t); c.b("self", self);
	const char* cn[] = {"cx", "cy", "cz"};
	for (int j = 0; j < 3; ++j) { Coord q = static_cast<Coord>(j); c.o(cn[j], ca[q]); c.o(cn[j], a[q]); }
	c.o("zero", Mat34<R>::Zero); c.o("one", Mat34<R>::One); c.o("diag", Mat34<R>(k));
	c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(v, v0));
}
OP(m4_alg, "m4.alg")
{
	Mat4<R> a = rd<Mat4>(c, "a"), b = rd<Mat4>(c, "b"); Vec4<R> v = c.v4("v"); R k = c.num("k");
	const Mat4<R> a0 = a, b0 = b; const Vec4<R> v0 = v; const Mat4<R>& ca = a; Mat4<R> t;
	c.o("ab", ca * b); Mat4<R>::multiply(t, ca, b); c.o("ab", t); c.o("aa", ca * ca);
	c.o("neg", -ca); c.o("id", ca); t.set(ca); c.o("id", t); t.set(t); c.o("id", t);
	t = a; bool self = drv::isSelf(t.transpose(), t); c.o("tr", t);
	c.b("eq", ca == b); c.b("ne", ca != b);
	algSquare(c, ca, k); algVec(c, ca, v);
	Vec3<R> v3(v.x, v.y, v.z), d3; c.o("av3", ca * v3); ca.transform(d3, v3); c.o("av3", d3); d3 = v3; ca.transform(d3, d3); c.o("av3", d3);
	ca.transformVector(d3, v3); c.o("dv3", d3); d3 = v3; ca.transformVector(d3, d3); c.o("dv3", d3);
	Vec4<R> d4; ca.transformVector(d4, v); c.o("dv4", d4); d4 = v; ca.transformVector(d4, d4); c.o("dv4", d4);
	t = a; self = drv::isSelf(t.invert(), t) && self; c.o("inv", t); c.b("self", self);
	const char* cn[] = {"cx", "cy", "cz"};
	for (int j = 0; j < 3; ++j) { Coord q = static_cast<Coord>(j); c.o(cn[j], ca[q]); c.o(cn[j], a[q]); }
	c.o("zero", Mat4<R>::Zero); c.o("one", Mat4<R>::One); c.o("diag", Mat4<R>(k));
	c.b("frame", drv::same(a, a0) && drv::same(b, b0) && drv::same(v, v0));
}

// ---- M02: the same rotation by every route
template <class R> static void rots(drv::C<R>& c, const Mat3<R>& m, const Vec3<R>& v)
{
	c.o("m", m); c.o("rv", m * v);
}
template <class R> static void rots(drv::C<R>& c, const Mat34<R>& m, const Vec3<R>& t)
{
	c.o("m", m.rs); c.o("t", m.t); (void)t;
}
template <class R> static void rots(drv::C<R>& c, const Mat4<R>& m, const char* tn)
{
	c.o("m", {m.x.x, m.x.y, m.x.z, m.y.x, m.y.y, m.y.z, m.z.x, m.z.y, m.z.z});
	c.o(tn, {m.t.x, m.t.y, m.t.z}); c.o("last", {m.x.w, m.y.w, m.z.w, m.t.w});
}
OP(m_axis, "m.axis")
{
	Vec3<R> u = c.v3("u"); R x = c.num("x"); Vec3<R> t = c.v3("t"), v = c.v3("v");
	const Vec3<R> u0 = u, t0 = t, v0 = v;
	rots(c, Mat3<R>::from(u, x), v); Mat3<R> m(R(3)); bool self = drv::isSelf(m.set(u, x), m); rots(c, m, v);
	rots(c, Mat34<R>::from(u, x, t), t); Mat34<R> m34(R(3)); self = drv::isSelf(m34.set(u, x, t), m34) && self; rots(c, m34, t);
	rots(c, Mat4<R>::from(u, x), "t0"); Mat4<R> m4(R(3)); self = drv::isSelf(m4.set(u, x), m4) && self; rots(c, m4, "t0");
	m34.set(u, x); c.o("t0", m34.t); c.o("t0", Mat34<R>::from(u, x).t); c.o("m", m34.rs);
	c.o("rv", m34 * v); c.o("rv", m4 * v);
	Quat<R> q = Quat<R>::from(u, x); c.o("q", q); q = Quat<R>::One; self = drv::isSelf(q.set(u, x), q) && self; c.o("q", q);
	c.o("rv", q.rotated(v)); c.o("m", Mat3<R>::from(q)); 
	c.b("ortho", m.isOrthonormal()); c.b("ortho", m34.isOrthonormal()); c.b("ortho", m4.isOrthonormal()); c.b("trs", m4.isTrs());
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(t, t0) && drv::same(v, v0));
}
OP(m_coord, "m.coord")
{
	Coord q = c.coord("c"); R x = c.num("x"); Vec3<R> t = c.v3("t"), v = c.v3("v");
	const Vec3<R> t0 = t, v0 = v;
	rots(c, Mat3<R>::from(q, x), v); Mat3<R> m(R(3)); bool self = drv::isSelf(m.set(q, x), m); rots(c, m, v);
	rots(c, Mat34<R>::from(q, x, t), t); Mat34<R> m34(R(3)); self = drv::isSelf(m34.set(q, x, t), m34) && self; rots(c, m34, t);
	rots(c, Mat4<R>::from(q, x), "t0"); Mat4<R> m4(R(3)); self = drv::isSelf(m4.set(q, x), m4) && self; rots(c, m4, "t0");
	m34.set(q, x); c.o("t0", m34.t); c.o("t0", Mat34<R>::from(q, x).t); c.o("m", m34.rs);
	c.o("rv", m34 * v); c.o("rv", m4 * v); c.o("rv", v.rotated(q, x));
	Vec3<R> ax(R(0)); ax[q] = R(1); rots(c, Mat3<R>::from(ax, x), v);
	Mat2<R> m2 = Mat2<R>::from(x); c.o("m2", m2); m2 = Mat2<R>(R(3)); self = drv::isSelf(m2.set(x), m2) && self; c.o("m2", m2);
	c.b("ortho", m.isOrthonormal()); c.b("ortho", m2.isOrthonormal()); c.b("ortho", m34.isOrthonormal()); c.b("ortho", m4.isOrthonormal()); c.b("trs", m4.isTrs());
	c.b("self", self); c.b("frame", drv::same(t, t0) && drv::same(v, v0));
}
OP(m_quat, "m.quat")
{
	Quat<R> q = c.quat("q"); Vec3<R> t = c.v3("t"), v = c.v3("v");
	const Vec3<R> t0 = t, v0 = v; const Quat<R> q0 = q;
	rots(c, Mat3<R>::from(q), v); Mat3<R> m(R(3)); bool self = drv::isSelf(m.set(q), m); rots(c, m, v);
	rots(c, Mat34<R>::from(q, t), t); Mat34<R> m34(R(3)); self = drv::isSelf(m34.set(q, t), m34) && self; rots(c, m34, t);
	rots(c, Mat4<R>::from(q, t), "t"); Mat4<R> m4(R(3)); self = drv::isSelf(m4.set(q, t), m4) && self; rots(c, m4, "t");
	m34.set(q); c.o("t0", m34.t); c.o("t0", Mat34<R>::from(q).t); m4.set(q); rots(c, m4, "t0"); rots(c, Mat4<R>::from(q), "t0");
	c.o("rv", m34 * v); c.o("rv", m4 * v); c.o("rv", q.rotated(v));
	rots(c, Mat4<R>(m), "t0"); rots(c, Mat4<R>(m, t), "t"); m4 = Mat4<R>(R(3)); self = drv::isSelf(m4.set(m, t), m4) && self; rots(c, m4, "t"); m4.set(m); rots(c, m4, "t0");
	rots(c, Mat34<R>(m, t), t); m34.set(m, t); rots(c, m34, t); m34.set(m); c.o("t0", m34.t); c.o("t0", Mat34<R>(m).t); c.o("m", m34.rs);
	m34.set(m.x, m.y, m.z, t); rots(c, m34, t); rots(c, Mat34<R>::from(m.x, m.y, m.z, t), t); rots(c, Mat34<R>(m.x, m.y, m.z, t), t); m34.set(m.x, m.y, m.z); c.o("t0", m34.t);
	m4.set(m.x, m.y, m.z, t); rots(c, m4, "t"); rots(c, Mat4<R>::from(m.x, m.y, m.z, t), "t"); rots(c, Mat4<R>(m.x, m.y, m.z, t), "t"); m4.set(m.x, m.y, m.z); rots(c, m4, "t0");
	c.o("m", Mat3<R>::from(m.x, m.y, m.z));
	c.b("ortho", m.isOrthonormal()); c.b("ortho", m34.isOrthonormal()); c.b("ortho", m4.isOrthonormal()); c.b("trs", m4.isTrs());
	c.b("self", self); c.b("frame", drv::same(t, t0) && drv::same(v, v0) && drv::same(q, q0));
}
OP(m_axes, "m.axes")
{
	Coord e = c.coord("e"), f = c.coord("f"); Vec3<R> u = c.v3("u"), v = c.v3("v");
	const Vec3<R> u0 = u, v0 = v;
	c.o("m", Mat3<R>::from(e, u, f, v)); Mat3<R> m(R(3)); bool self = drv::isSelf(m.set(e, u, f, v), m); c.o("m", m);
	Mat34<R> m34 = Mat34<R>::from(e, u, f, v); c.o("m", m34.rs); c.o("t0", m34.t); m34 = Mat34<R>(R(3)); m34.t = u; self = drv::isSelf(m34.set(e, u, f, v), m34) && self; c.o("m", m34.rs); c.o("t0", m34.t);
	rots(c, Mat4<R>::from(e, u, f, v), "t0"); Mat4<R> m4(R(3)); self = drv::isSelf(m4.set(e, u, f, v), m4) && self; rots(c, m4, "t0");
	c.b("ortho", m.isOrthonormal()); c.b("ortho", m34.isOrthonormal()); c.b("ortho", m4.isOrthonormal()); c.b("trs", m4.isTrs());
	c.b("self", self); c.b("frame", drv::same(u, u0) && drv::same(v, v0));
}
OP(m_slerp, "m.slerp")
{
	Quat<R> qa = c.quat("qa"), qb = c.quat("qb"); R k = c.num("k");
	Mat3<R> a = Mat3<R>::from(qa), b = Mat3<R>::from(qb); const Mat3<R> a0 = a, b0 = b; Mat3<R> t;
	c.o("m", Mat3<R>::fromSlerp(a, b, k)); t = b; bool self = drv::isSelf(t.slerp(a, b, k), t); c.o("m", t); t = a; t.slerp(t, b, k); c.o("m", t); t = b; t.slerp(a, t, k); c.o("m", t);
	Mat34<R> a34(a), b34(b), t34 = Mat34<R>::fromSlerp(a34, b34, k); c.o("m", t34.rs); c.o("t0", t34.t); t34.t = Vec3<R>(1, 2, 3); self = drv::isSelf(t34.slerp(a34, b34, k), t34) && self; c.o("m", t34.rs); c.o("t0", t34.t);
	t34 = a34; t34.slerp(t34, b34, k); c.o("m", t34.rs); c.o("t0", t34.t); c.b("ortho", t34.isOrthonormal());
	c.b("ortho", t.isOrthonormal());
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(m_slerpmax, "m.slerpmax")
{
	Quat<R> qa = c.quat("qa"), qb = c.quat("qb"); R k = c.num("k");
	Mat3<R> a = Mat3<R>::from(qa), b = Mat3<R>::from(qb); const Mat3<R> a0 = a, b0 = b; Mat3<R> t;
	c.o("m", Mat3<R>::fromSlerpMaxAngle(a, b, k)); t = b; bool self = drv::isSelf(t.slerpMaxAngle(a, b, k), t); c.o("m", t); t = a; t.slerpMaxAngle(t, b, k); c.o("m", t);
	Mat34<R> a34(a), b34(b), t34 = Mat34<R>::fromSlerpMaxAngle(a34, b34, k); c.o("m", t34.rs); c.o("t0", t34.t); t34.t = Vec3<R>(1, 2, 3); self = drv::isSelf(t34.slerpMaxAngle(a34, b34, k), t34) && self; c.o("m", t34.rs); c.o("t0", t34.t);
	t34 = b34; t34.slerpMaxAngle(a34, t34, k); c.o("m", t34.rs); c.o("t0", t34.t); c.b("ortho", t34.isOrthonormal());
	c.b("ortho", t.isOrthonormal());
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}
OP(m2_slerp, "m2.slerp")
{
	R x = c.num("x"), y = c.num("y"), k = c.num("k"), l = c.num("l");
	Mat2<R> a = Mat2<R>::from(x), b = Mat2<R>::from(y), t; const Mat2<R> a0 = a, b0 = b;
	c.o("m", Mat2<R>::fromSlerp(a, b, k)); t = b; bool self = drv::isSelf(t.slerp(a, b, k), t); c.o("m", t); t = a; t.slerp(t, b, k); c.o("m", t);
	c.o("lim", Mat2<R>::fromSlerpMaxAngle(a, b, l)); t = b; self = drv::isSelf(t.slerpMaxAngle(a, b, l), t) && self; c.o("lim", t);
	c.b("ortho", t.isOrthonormal());
	c.b("self", self); c.b("frame", drv::same(a, a0) && drv::same(b, b0));
}

// ---- histories: one event per step and API form.  f = 0: the step in place (the history continues with
// its result); f = 1: a copying form, which must leave the object as it was
template <class R> static void trs(drv::C<R>&, const Mat2<R>&) {}
template <class R> static void trs(drv::C<R>&, const Mat3<R>&) {}
template <class R> static void trs(drv::C<R>&, const Mat34<R>&) {}
template <class R> static void trs(drv::C<R>& c, const Mat4<R>& m) { c.b("trs", m.isTrs()); }
template <class R, class M> static void obs(drv::C<R>& c, const M& m, int form)
{
	c.ra.add("f", std::to_string(form));
	c.o("r", m);
	c.b("normal", m.isNormal()); c.b("orthogonal", m.isOrthogonal()); c.b("orthonormal", m.isOrthonormal());
	c.b("identity", m.isIdentity()); c.b("init", m.isInitialized()); trs(c, m);
}
// the arguments have to be logged again for every event of a step
template <class R> struct Args
{
	drv::C<R>& c; drv::Rec r;
	explicit Args(drv::C<R>& cc) : c(cc) {}
	void keep() { r = c.ra; }
	void again() { c.ra = r; }
};
template <class R, class M> struct Step
{
	drv::C<R>& c; M& v; drv::Rec args;
	Step(drv::C<R>& cc, M& m) : c(cc), v(m), args(cc.ra) {}
	void copy(const M& before, const M& r) { c.ra = args; obs(c, r, 1); c.b("frame", sameBits(before, v)); c.emit(); }
	void place(const M& r) { c.ra = args; obs(c, r, 0); c.b("self", &r == &v); c.emit(); }
};
#define COPY(expr) { const M before = v; M r = expr; s.copy(before, r); }
#define PLACE(expr) { const M& r = expr; s.place(r); }

template <class R> static Quat<R> rq(drv::C<R>& c) { return c.quat("q"); }

template <class R> static bool step(drv::C<R>& c, Mat2<R>& v, const S& w)
{
	typedef Mat2<R> M;
	if (w == "rot") { R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotated(x)) PLACE(v.rotate(x)) }
	else if (w == "rotp") { R x = c.num("x"); Step<R, M> s(c, v); PLACE(v.rotatePre(x)) }
	else if (w == "scap") { Vec2<R> k = c.v2("k"); Step<R, M> s(c, v); COPY(v.scaled(k)) PLACE(v.scale(k)) }
	else if (w == "inv") { Step<R, M> s(c, v); COPY(v.inversed()) v = v.inversed(); s.place(v); }
	else return false;
	return true;
}
template <class R> static bool step(drv::C<R>& c, Mat3<R>& v, const S& w)
{
	typedef Mat3<R> M;
	if (w == "rotc") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotated(q, x)) PLACE(v.rotate(q, x)) }
	else if (w == "rotv") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotated(u, x)) PLACE(v.rotate(u, x)) }
	else if (w == "rotq") { Quat<R> q = rq(c); Step<R, M> s(c, v); COPY(v.rotated(q)) PLACE(v.rotate(q)) }
	else if (w == "xf") { M m = rd<Mat3>(c, "x"); Step<R, M> s(c, v); COPY(v.rotated(m)) PLACE(v.rotate(m)) }
	else if (w == "rotcp") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotatedPre(q, x)) PLACE(v.rotatePre(q, x)) }
	else if (w == "rotvp") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotatedPre(u, x)) PLACE(v.rotatePre(u, x)) }
	else if (w == "rotqp") { Quat<R> q = rq(c); Step<R, M> s(c, v); COPY(v.rotatedPre(q)) PLACE(v.rotatePre(q)) }
	else if (w == "xfp") { M m = rd<Mat3>(c, "x"); Step<R, M> s(c, v); COPY(v.rotatedPre(m)) PLACE(v.rotatePre(m)) }
	else if (w == "scap") { Vec3<R> k = c.v3("k"); Step<R, M> s(c, v); COPY(v.scaled(k)) PLACE(v.scale(k)) }
	else if (w == "selfxf") { Step<R, M> s(c, v); COPY(v.rotated(v)) PLACE(v.rotate(v)) }
	else if (w == "selfxfp") { Step<R, M> s(c, v); COPY(v.rotatedPre(v)) PLACE(v.rotatePre(v)) }
	else if (w == "inv") { Step<R, M> s(c, v); COPY(v.inversed()) PLACE(v.invert()) }
	else return false;
	return true;
}
template <class R> static bool step(drv::C<R>& c, Mat34<R>& v, const S& w)
{
	typedef Mat34<R> M;
	if (w == "rotc") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); PLACE(v.rotate(q, x)) }
	else if (w == "rotv") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); PLACE(v.rotate(u, x)) }
	else if (w == "rotq") { Quat<R> q = rq(c); Step<R, M> s(c, v); PLACE(v.rotate(q)) }
	else if (w == "xf") { M m = rd<Mat34>(c, "x"); Step<R, M> s(c, v); COPY(m * v) PLACE(v.transform(m)) }
	else if (w == "xf3") { Mat3<R> m = rd<Mat3>(c, "x3"); Step<R, M> s(c, v); PLACE(v.transform(m)) }
	else if (w == "rotcp") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); PLACE(v.rotatePre(q, x)) }
	else if (w == "rotvp") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); PLACE(v.rotatePre(u, x)) }
	else if (w == "rotqp") { Quat<R> q = rq(c); Step<R, M> s(c, v); PLACE(v.rotatePre(q)) }
	else if (w == "xfp") { M m = rd<Mat34>(c, "x"); Step<R, M> s(c, v); COPY(v * m) PLACE(v.transformPre(m)) }
	else if (w == "xf3p") { Mat3<R> m = rd<Mat3>(c, "x3"); Step<R, M> s(c, v); COPY(v * m) PLACE(v.transformPre(m)) }
	else if (w == "selfxf") { Step<R, M> s(c, v); PLACE(v.transform(v)) }
	else if (w == "selfxfp") { Step<R, M> s(c, v); PLACE(v.transformPre(v)) }
	else if (w == "tra") { Vec3<R> t = c.v3("t"); Step<R, M> s(c, v); PLACE(v.translate(t)) }
	else if (w == "trap") { Vec3<R> t = c.v3("t"); Step<R, M> s(c, v); PLACE(v.translatePre(t)) }
	else if (w == "sca") { R k = c.num("u"); Step<R, M> s(c, v); PLACE(v.scale(Vec3<R>(k, k, k))) }
	else if (w == "scap") { Vec3<R> k = c.v3("k"); Step<R, M> s(c, v); PLACE(v.scalePre(k)) }
	else if (w == "inv") { Step<R, M> s(c, v); PLACE(v.invert()) }
	else return false;
	return true;
}
template <class R> static bool step(drv::C<R>& c, Mat4<R>& v, const S& w)
{
	typedef Mat4<R> M;
	if (w == "rotc") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotated(q, x)) PLACE(v.rotate(q, x)) }
	else if (w == "rotv") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotated(u, x)) PLACE(v.rotate(u, x)) }
	else if (w == "rotq") { Quat<R> q = rq(c); Step<R, M> s(c, v); COPY(v.rotated(q)) PLACE(v.rotate(q)) }
	else if (w == "xf") { M m = rd<Mat4>(c, "x"); Step<R, M> s(c, v); COPY(v.transformed(m)) COPY(m * v) PLACE(v.transform(m)) }
	else if (w == "rotcp") { Coord q = c.coord("c"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotatedPre(q, x)) PLACE(v.rotatePre(q, x)) }
	else if (w == "rotvp") { Vec3<R> u = c.v3("u"); R x = c.num("x"); Step<R, M> s(c, v); COPY(v.rotatedPre(u, x)) PLACE(v.rotatePre(u, x)) }
	else if (w == "rotqp") { Quat<R> q = rq(c); Step<R, M> s(c, v); COPY(v.rotatedPre(q)) PLACE(v.rotatePre(q)) }
	else if (w == "xfp") { M m = rd<Mat4>(c, "x"); Step<R, M> s(c, v); COPY(v.transformedPre(m)) COPY(v * m) PLACE(v.transformPre(m)) }
	else if (w == "selfxf") { Step<R, M> s(c, v); COPY(v.transformed(v)) PLACE(v.transform(v)) }
	else if (w == "selfxfp") { Step<R, M> s(c, v); COPY(v.transformedPre(v)) PLACE(v.transformPre(v)) }
	else if (w == "tra") { Vec3<R> t = c.v3("t"); Step<R, M> s(c, v); COPY(v.translated(t)) PLACE(v.translate(t)) }
	else if (w == "trap") { Vec3<R> t = c.v3("t"); Step<R, M> s(c, v); COPY(v.translatedPre(t)) PLACE(v.translatePre(t)) }
	else if (w == "sca") { R k = c.num("u"); Step<R, M> s(c, v); COPY(v.scaled(Vec3<R>(k, k, k))) PLACE(v.scale(Vec3<R>(k, k, k))) }
	else if (w == "scap") { Vec3<R> k = c.v3("k"); Step<R, M> s(c, v); COPY(v.scaledPre(k)) PLACE(v.scalePre(k)) }
	else if (w == "inv") { Step<R, M> s(c, v); COPY(v.inversed()) PLACE(v.invert()) }
	else return false;
	return true;
}
// steps of the square classes
template <class R, class M> static bool stepSquare(drv::C<R>& c, M& v, const S& w)
{
	if (w == "mulk") { R k = c.num("k"); Step<R, M> s(c, v); COPY(v * k) PLACE(v *= k) }
	else if (w == "divk") { R k = c.num("k"); Step<R, M> s(c, v); COPY(v / k) PLACE(v /= k) }
	else if (w == "trans") { Step<R, M> s(c, v); COPY(v.transposed()) PLACE(v.transpose()) }
	else if (w == "ortho") { Step<R, M> s(c, v); PLACE(v.orthonormalise()) }
	else return false;
	return true;
}
template <class R> static bool stepMul(drv::C<R>& c, Mat2<R>& v, const S& w)
{
	typedef Mat2<R> M;
	if (w == "mul") { M m = rd<Mat2>(c, "x"); Step<R, M> s(c, v); COPY(v * m) PLACE(v *= m) }
	else if (w == "selfmul") { Step<R, M> s(c, v); COPY(v * v) PLACE(v *= v) }
	else return stepSquare(c, v, w);
	return true;
}
template <class R> static bool stepMul(drv::C<R>& c, Mat3<R>& v, const S& w)
{
	typedef Mat3<R> M;
	if (w == "mul") { M m = rd<Mat3>(c, "x"); Step<R, M> s(c, v); COPY(v * m) PLACE(v *= m) }
	else if (w == "selfmul") { Step<R, M> s(c, v); COPY(v * v) PLACE(v *= v) }
	else return stepSquare(c, v, w);
	return true;
}
template <class R> static bool stepMul(drv::C<R>& c, Mat34<R>& v, const S& w)
{
	typedef Mat34<R> M;
	if (w == "mul") { M m = rd<Mat34>(c, "x"); Step<R, M> s(c, v); COPY(v * m) PLACE(v *= m) }
	else if (w == "selfmul") { Step<R, M> s(c, v); COPY(v * v) PLACE(v *= v) }
	else if (w == "trans") { Step<R, M> s(c, v); PLACE(v.transpose()) }
	else return false;
	return true;
}
template <class R> static bool stepMul(drv::C<R>& c, Mat4<R>& v, const S& w)
{
	typedef Mat4<R> M;
	if (w == "mul") { M m = rd<Mat4>(c, "x"); Step<R, M> s(c, v); COPY(v * m) v = v * m; s.place(v); }
	else if (w == "selfmul") { Step<R, M> s(c, v); COPY(v * v) v = v * v; s.place(v); }
	else return stepSquare(c, v, w);
	return true;
}

template <template <class> class MT, class R> static void hist(drv::C<R>& c)
{
	typedef MT<R> M;
	M v;
	{ M u; c.what = "default"; c.ra.add("f", "1"); c.b("init", u.isInitialized()); c.emit(); }
	S w = c.tok();
	c.what = w;
	if (w == "cols") { v = rd<MT>(c, "x"); obs(c, v, 0); }
	else if (w == "scalar") { R k = c.num("k"); v = M(k); obs(c, v, 0); }
	else if (w == "ident") { v.setIdentity(); obs(c, v, 0); }
	else { fprintf(stderr, "driver: bad start %s\n", w.c_str()); _exit(3); }
	c.emit();
	while (c.more())
	{
		w = c.tok(); c.what = w;
		if (w == "neg") { Step<R, M> s(c, v); COPY(-v) v = -v; s.place(v); }
		else if (w == "opt") { Step<R, M> s(c, v); PLACE(v.optimize()) }
		else if (w == "copy") { Step<R, M> s(c, v); M m; m.set(v); COPY(M(v)) v = m; s.place(v); }
		else if (w == "cast")
		{
			typedef typename Other<R>::type O;
			Step<R, M> s(c, v); COPY(v.template cast<O>().template cast<R>()) v = v.template cast<O>().template cast<R>(); s.place(v);
		}
		else if (w == "ident") { Step<R, M> s(c, v); PLACE(v.setIdentity()) }
		else if (w == "cols") { M m = rd<MT>(c, "x"); Step<R, M> s(c, v); v = m; s.place(v); }
		else if (w == "opttol")
		{
			// judged with these tolerances, on a copy
			std::vector<R> d = c.nums("tol", 3); typename M::Tolerance tol; tol.normal = d[0]; tol.orthogonal = d[1]; tol.identity = d[2];
			Step<R, M> s(c, v); M m = v; m.optimize(&tol); COPY(m)
		}
		else if (!step(c, v, w) && !stepMul(c, v, w)) { fprintf(stderr, "driver: bad step %s\n", w.c_str()); _exit(3); }
	}
}
OP(m2_hist, "m2.hist") { hist<Mat2>(c); }
OP(m3_hist, "m3.hist") { hist<Mat3>(c); }
OP(m34_hist, "m34.hist") { hist<Mat34>(c); }
OP(m4_hist, "m4.hist") { hist<Mat4>(c); }

// scaling of an affine transform by different factors: the scale applies after the transform
OP(m34_scale, "m34.scale")
{
	Mat34<R> v = rd<Mat34>(c, "x"); Vec3<R> k = c.v3("k"), p = c.v3("p");
	v.scale(k); c.o("r", v); c.o("rp", v * p);
}
OP(m4_scale, "m4.scale")
{
	Mat4<R> v = rd<Mat4>(c, "x"); Vec3<R> k = c.v3("k"), p = c.v3("p");
	Mat4<R> u = v.scaled(k); c.o("r", u); c.o("rp", u * p); v.scale(k); c.o("r", v); c.o("rp", v * p);
}

// ---- arrays
template <class R, class M, class V> static void arrays(drv::C<R>& c, const M& m, V*, const char* nm, const char* nmg,
	void (M::*one)(V&, const V&) const, void (M::*plain)(V*, const V*, size_t) const, void (M::*strided)(V*, const V*, size_t, size_t, size_t) const,
	const std::vector<R>& pts, int n, int dpad, int spad)
{
	const size_t D = sizeof(V) / sizeof(R);
	const int GUARD = 2;
	auto vec = [&](int i) { V v; for (size_t j = 0; j < D; ++j) v.data()[j] = pts[(i * 3 + j) % pts.size()]; return v; };
	std::vector<R> in;
	for (int i = 0; i < n; ++i) { V v = vec(i); in.insert(in.end(), v.data(), v.data() + D); }
	c.logA((std::string(nm) + "in").c_str(), in);
	auto dump = [&](const std::vector<R>& buf, size_t stride) { std::vector<R> o; for (int i = 0; i < n; ++i) for (size_t j = 0; j < D; ++j) o.push_back(buf[GUARD + i * stride + j]); c.o(nm, o); };
	auto clean = [&](const std::vector<R>& buf, const std::vector<R>& was, size_t stride)
	{
		bool ok = true;
		for (size_t q = 0; q < buf.size(); ++q)
		{
			bool mine = q >= GUARD && (q - GUARD) / stride < size_t(n) && (q - GUARD) % stride < D;
			if (!mine && memcmp(&buf[q], &was[q], sizeof(R)) != 0) ok = false;
		}
		return ok;
	};
	bool ok = true;
	auto run = [&](bool useStride, size_t ds, size_t ss, bool inplace)
	{
		std::vector<R> src(2 * GUARD + (n + 1) * ss), dst(2 * GUARD + (n + 1) * ds);
		for (size_t q = 0; q < src.size(); ++q) src[q] = R(100 + q);
		for (size_t q = 0; q < dst.size(); ++q) dst[q] = R(500 + q);
		for (int i = 0; i < n; ++i) for (size_t j = 0; j < D; ++j) src[GUARD + i * ss + j] = in[i * D + j];
		std::vector<R> src0 = src, dst0 = dst;
		if (inplace)
		{
			V* p = reinterpret_cast<V*>(&src[GUARD]);
			if (useStride) (m.*strided)(p, p, n, ss * sizeof(R), ss * sizeof(R)); else (m.*plain)(p, p, n);
			dump(src, ss); ok = ok && clean(src, src0, ss);
		}
		else
		{
			V* p = reinterpret_cast<V*>(&dst[GUARD]); const V* q = reinterpret_cast<const V*>(&src[GUARD]);
			if (useStride) (m.*strided)(p, q, n, ds * sizeof(R), ss * sizeof(R)); else (m.*plain)(p, q, n);
			dump(dst, ds); ok = ok && clean(dst, dst0, ds) && memcmp(src.data(), src0.data(), src.size() * sizeof(R)) == 0;
		}
	};
	run(false, D, D, false); run(false, D, D, true);
	run(true, D, D, false); run(true, D + dpad, D + spad, false); run(true, D + dpad, D, false); run(true, D + spad, D + spad, true);
	std::vector<R> o; for (int i = 0; i < n; ++i) { V v = vec(i), d; (m.*one)(d, v); o.insert(o.end(), d.data(), d.data() + D); }
	c.o(nm, o);
	c.b(nmg, ok);
}
template <template <class> class MT, class R> static void arr(drv::C<R>& c, MT<R> m, typename Tr<R, MT>::V* z)
{
	typedef MT<R> M; typedef typename Tr<R, MT>::V V;
	int n = c.integer("n"), dp = c.integer("dp"), sp = c.integer("sp"); std::vector<R> pts = c.nums("pts", 12);
	arrays<R, M, V>(c, m, z, "v", "guard", &M::transform, &M::transform, &M::transform, pts, n, dp, sp);
}
OP(m2_arr, "m2.arr") { arr<Mat2>(c, rd<Mat2>(c, "x"), static_cast<Vec2<R>*>(nullptr)); }
OP(m3_arr, "m3.arr") { arr<Mat3>(c, rd<Mat3>(c, "x"), static_cast<Vec3<R>*>(nullptr)); }
OP(m34_arr, "m34.arr") { arr<Mat34>(c, rd<Mat34>(c, "x"), static_cast<Vec3<R>*>(nullptr)); }
OP(m4_arr, "m4.arr")
{
	typedef Mat4<R> M;
	M m = rd<Mat4>(c, "x"); int n = c.integer("n"), dp = c.integer("dp"), sp = c.integer("sp"); std::vector<R> pts = c.nums("pts", 12);
	Vec3<R>* z3 = nullptr; Vec4<R>* z4 = nullptr;
	arrays<R, M, Vec4<R>>(c, m, z4, "v", "guard", &M::transform, &M::transform, &M::transform, pts, n, dp, sp);
	arrays<R, M, Vec3<R>>(c, m, z3, "v3", "guard3", &M::transform, &M::transform, &M::transform, pts, n, dp, sp);
	arrays<R, M, Vec3<R>>(c, m, z3, "d3", "guardd3", &M::transformVector, &M::transformVector, &M::transformVector, pts, n, dp, sp);
	arrays<R, M, Vec4<R>>(c, m, z4, "d", "guardd", &M::transformVector, &M::transformVector, &M::transformVector, pts, n, dp, sp);
}
