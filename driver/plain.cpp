// comparison, conversion of precision, raw access, approximate matchers: every type
#include "drv.h"
#include <iomanip>
#include <sstream>
#include <catch2/catch_tostring.hpp>
#include <catch2/matchers/catch_matchers_floating_point.hpp>
#include <catch2/internal/catch_enforce.hpp>
#include "mathlib_testlib.h"

// the components, in the order of declaration
template <class R> struct Parts : std::vector<R*>
{
	Parts& add(R& x) { this->push_back(&x); return *this; }
	Parts& add(Vec2<R>& v) { return add(v.x).add(v.y); }
	Parts& add(Vec3<R>& v) { return add(v.x).add(v.y).add(v.z); }
	Parts& add(Vec4<R>& v) { return add(v.x).add(v.y).add(v.z).add(v.w); }
	Parts& add(Mat2<R>& m) { return add(m.x).add(m.y); }
	Parts& add(Mat3<R>& m) { return add(m.x).add(m.y).add(m.z); }
	Parts& add(Mat34<R>& m) { return add(m.rs).add(m.t); }
	Parts& add(Mat4<R>& m) { return add(m.x).add(m.y).add(m.z).add(m.t); }
	Parts& add(Quat<R>& q) { return add(q.x).add(q.y).add(q.z).add(q.w); }
	Parts& add(ColorRGB<R>& k) { return add(k.r).add(k.g).add(k.b); }
	Parts& add(ColorRGBA<R>& k) { return add(k.r).add(k.g).add(k.b).add(k.a); }
	Parts& add(ColorHSV<R>& k) { return add(k.h).add(k.s).add(k.v); }
	Parts& add(AABB2<R>& b) { return add(b.inf).add(b.sup); }
	Parts& add(AABB3<R>& b) { return add(b.inf).add(b.sup); }
	Parts& add(CAABB2<R>& b) { return add(b.center).add(b.extents); }
	Parts& add(CAABB3<R>& b) { return add(b.center).add(b.extents); }
	Parts& add(Line2<R>& l) { return add(l.start).add(l.end); }
	Parts& add(Line3<R>& l) { return add(l.start).add(l.end); }
	Parts& add(Ray2<R>& l) { return add(l.start).add(l.direction); }
	Parts& add(Ray3<R>& l) { return add(l.start).add(l.direction); }
	Parts& add(Tri2<R>& t) { return add(t.a).add(t.b).add(t.c); }
	Parts& add(Plane<R>& p) { return add(p.normal).add(p.d); }
	Parts& add(Circle<R>& s) { return add(s.center).add(s.radius); }
	Parts& add(Sphere<R>& s) { return add(s.center).add(s.radius); }
	Parts& add(Frustum<R>& f) { for (auto& v : f.corners) add(v); for (auto& p : f.planes) add(p); return *this; }
};
template <class R, class T> static void put(T& t, const std::vector<R>& x) { Parts<R> p; p.add(t); for (size_t i = 0; i < p.size(); ++i) *p[i] = x[i]; }
template <class R, class T> static std::vector<R> get(const T& t) { Parts<R> p; p.add(const_cast<T&>(t)); std::vector<R> v; for (R* x : p) v.push_back(*x); return v; }

template <class R> struct Other { typedef double type; };
template <> struct Other<double> { typedef float type; };

template <template <class> class T, class R> static void eq(drv::C<R>& c, const T<R>& a, const T<R>& b)
{
	const T<R> k = a;
	c.b("eq", a == b); c.b("eq", b == a); c.b("ne", a != b); c.b("ne", b != a); c.b("refl", k == a); c.b("refl", !(k != a)); c.b("refl", a == a); c.b("refl", !(a != a));
}
template <template <class> class T, class R> static void raw(drv::C<R>& c, const T<R>& a, const std::vector<R>& y)
{
	T<R> k = a; c.o("raw", a.data(), y.size()); c.o("raw", k.data(), y.size());
	for (size_t i = 0; i < y.size(); ++i) k.data()[i] = y[i];
	c.o("put", get<R>(k));
}
template <template <class> class T, class R> static void near(drv::C<R>& c, const T<R>& a, const T<R>& b, double m)
{
	c.b("near", Matches::WithinAbs(b, m).match(a)); c.b("near1000", Matches::WithinAbs(b).match(a)); c.b("near0", Matches::WithinAbs(a, 0.0).match(a));
}
template <template <class> class T, class R> static void conv(drv::C<R>& c, const T<R>& a)
{
	typedef typename Other<R>::type O;
	const T<O> d = a.template cast<O>(); const T<R> e = a.template cast<R>(), f = d.template cast<R>();
	std::vector<R> v; for (O x : get<O>(d)) v.push_back(static_cast<R>(x));
	c.o("cast", v); c.o("cast", get<R>(f)); c.o("copy", get<R>(e));

}

struct Any { template <template <class> class T, class R> static void go(drv::C<R>& c, const T<R>& a, const T<R>& b, const std::vector<R>& y, double m) { eq(c, a, b); raw(c, a, y); near(c, a, b, m); conv(c, a); } };
struct NoRaw { template <template <class> class T, class R> static void go(drv::C<R>& c, const T<R>& a, const T<R>& b, const std::vector<R>&, double m) { eq(c, a, b); near(c, a, b, m); conv(c, a); } };
struct NearCast { template <template <class> class T, class R> static void go(drv::C<R>& c, const T<R>& a, const T<R>& b, const std::vector<R>&, double m) { near(c, a, b, m); conv(c, a); } };
struct EqCast { template <template <class> class T, class R> static void go(drv::C<R>& c, const T<R>& a, const T<R>& b, const std::vector<R>&, double) { eq(c, a, b); conv(c, a); } };

// the numbers in a text, in order
template <class R> static std::vector<R> numbers(const std::string& s)
{
	std::vector<R> v;
	for (size_t i = 0; i < s.size();)
	{
		bool sign = s[i] == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]) && (i == 0 || !(s[i - 1] == ']'));
		if (!isdigit((unsigned char)s[i]) && !sign) { ++i; continue; }
		char* e; v.push_back(static_cast<R>(strtod(s.c_str() + i, &e))); i = e - s.c_str();
	}
	return v;
}
struct Text
{
	template <template <class> class T, class R> static void go(drv::C<R>& c, const T<R>& a, const T<R>& b, const std::vector<R>&, double m)
	{
		c.o("text", numbers<R>(Catch::StringMaker<T<R>>::convert(a))); c.o("text", numbers<R>(Catch::Detail::stringify(a)));
		auto w = Matches::WithinAbs(a, m);
		c.o("said", numbers<R>(w.describe())); (void)w.match(b); c.o("said", numbers<R>(w.toString())); c.o("said", numbers<R>(w.describe()));
		bool no = false; try { Matches::WithinAbs(a, -m - 0.5); } catch (const std::domain_error&) { no = true; }
		c.b("refused", no);
		no = false; try { Matches::WithinAbs(a, 0.0); Matches::WithinAbs(a, m); } catch (...) { no = true; }
		c.b("taken", !no);
	}
};

template <class K, template <class> class T, class R> static void run(drv::C<R>& c, const char* name, size_t n)
{
	int flip = c.rawint(); R m = c.num("m");
	std::vector<R> x, y; for (size_t i = 0; i < n; ++i) x.push_back(c.rawnum()); for (size_t i = 0; i < n; ++i) y.push_back(c.rawnum());
	if (flip) for (R& z : y) if (z == R(0)) z = -z;   // zero has two forms
	c.logA("x", x); c.logA("y", y);
	T<R> a, b; put<R>(a, x); put<R>(b, y);
	if (!c.rb.names.empty() || get<R>(a).size() != n) _exit(3);
	c.what = name;
	K::go(c, a, b, y, static_cast<double>(m));
	c.b("frame", get<R>(a) == x && get<R>(b) == y);
}
OP(ty_any, "ty.any")
{
	std::string t = c.tok();
	if (t == "vec2") run<Any, Vec2>(c, "vec2", 2);
	else if (t == "vec3") run<Any, Vec3>(c, "vec3", 3);
	else if (t == "vec4") run<Any, Vec4>(c, "vec4", 4);
	else if (t == "mat2") run<Any, Mat2>(c, "mat2", 4);
	else if (t == "mat3") run<Any, Mat3>(c, "mat3", 9);
	else if (t == "mat34") run<Any, Mat34>(c, "mat34", 12);
	else if (t == "mat4") run<Any, Mat4>(c, "mat4", 16);
	else if (t == "quat") run<Any, Quat>(c, "quat", 4);
	else if (t == "rgb") run<Any, ColorRGB>(c, "rgb", 3);
	else if (t == "rgba") run<Any, ColorRGBA>(c, "rgba", 4);
	else if (t == "hsv") run<Any, ColorHSV>(c, "hsv", 3);
	else if (t == "aabb2") run<NoRaw, AABB2>(c, "aabb2", 4);
	else if (t == "aabb3") run<NoRaw, AABB3>(c, "aabb3", 6);
	else if (t == "caabb2") run<NoRaw, CAABB2>(c, "caabb2", 4);
	else if (t == "caabb3") run<NoRaw, CAABB3>(c, "caabb3", 6);
	else if (t == "line2") run<NoRaw, Line2>(c, "line2", 4);
	else if (t == "line3") run<NoRaw, Line3>(c, "line3", 6);
	else if (t == "ray2") run<NoRaw, Ray2>(c, "ray2", 4);
	else if (t == "ray3") run<NoRaw, Ray3>(c, "ray3", 6);
	else if (t == "tri2") run<EqCast, Tri2>(c, "tri2", 6);
	else if (t == "plane") run<Any, Plane>(c, "plane", 4);
	else if (t == "circle") run<Any, Circle>(c, "circle", 3);
	else if (t == "sphere") run<Any, Sphere>(c, "sphere", 4);
	else if (t == "frustum") run<NearCast, Frustum>(c, "frustum", 48);
	else _exit(3);
}
OP(ty_text, "ty.text")
{
	std::string t = c.tok();
	if (t == "vec2") run<Text, Vec2>(c, "vec2", 2);
	else if (t == "vec3") run<Text, Vec3>(c, "vec3", 3);
	else if (t == "vec4") run<Text, Vec4>(c, "vec4", 4);
	else if (t == "mat2") run<Text, Mat2>(c, "mat2", 4);
	else if (t == "mat3") run<Text, Mat3>(c, "mat3", 9);
	else if (t == "mat34") run<Text, Mat34>(c, "mat34", 12);
	else if (t == "mat4") run<Text, Mat4>(c, "mat4", 16);
	else if (t == "quat") run<Text, Quat>(c, "quat", 4);
	else if (t == "rgb") run<Text, ColorRGB>(c, "rgb", 3);
	else if (t == "rgba") run<Text, ColorRGBA>(c, "rgba", 4);
	else if (t == "hsv") run<Text, ColorHSV>(c, "hsv", 3);
	else if (t == "aabb2") run<Text, AABB2>(c, "aabb2", 4);
	else if (t == "aabb3") run<Text, AABB3>(c, "aabb3", 6);
	else if (t == "caabb2") run<Text, CAABB2>(c, "caabb2", 4);
	else if (t == "caabb3") run<Text, CAABB3>(c, "caabb3", 6);
	else if (t == "line2") run<Text, Line2>(c, "line2", 4);
	else if (t == "line3") run<Text, Line3>(c, "line3", 6);
	else if (t == "ray2") run<Text, Ray2>(c, "ray2", 4);
	else if (t == "ray3") run<Text, Ray3>(c, "ray3", 6);
	else if (t == "plane") run<Text, Plane>(c, "plane", 4);
	else if (t == "circle") run<Text, Circle>(c, "circle", 3);
	else if (t == "sphere") run<Text, Sphere>(c, "sphere", 4);
	else if (t == "frustum") run<Text, Frustum>(c, "frustum", 48);
	else _exit(3);
}
