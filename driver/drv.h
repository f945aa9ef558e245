// Command interpreter that binds the TLA+ specification to the library: reads one call (or one
// history of calls) per line, performs it through every public API form, and logs what was observed.
#pragma once
#include <cassert>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/time.h>
#include <unistd.h>
#include "mathlib.h"

using namespace mathlib;

namespace drv {

typedef std::vector<std::string> Toks;

inline std::string hex(double x)
{
	if (std::isnan(x)) return "nan";
	if (std::isinf(x)) return x < 0 ? "-inf" : "inf";
	char b[64]; snprintf(b, sizeof b, "%a", x); return b;
}
inline long double parseNum(const std::string& s)
{
	size_t k = s.find('/');
	if (k == std::string::npos) return strtold(s.c_str(), nullptr);
	return strtold(s.substr(0, k).c_str(), nullptr) / strtold(s.substr(k + 1).c_str(), nullptr);
}

// insertion-ordered record of lists, printed as JSON
struct Rec
{
	std::vector<std::string> names;
	std::map<std::string, std::vector<std::string>> vals;
	// equal observations of the same quantity (API forms that agree to the bit) are kept once
	void add(const std::string& n, const std::string& v)
	{
		auto& l = vals[n];
		if (l.empty()) names.push_back(n);
		for (auto& x : l) if (x == v) return;
		l.push_back(v);
	}
	std::string json(bool wrap) const
	{
		std::string r = "{";
		for (size_t i = 0; i < names.size(); ++i)
		{
			r += (i ? ",\"" : "\"") + names[i] + (wrap ? "\":[" : "\":");
			const auto& l = vals.at(names[i]);
			for (size_t j = 0; j < l.size(); ++j) r += (j ? "," : "") + l[j];
			if (wrap) r += "]";
		}
		return r + "}";
	}
};

extern long gId;
extern std::string gOp;

// One call context. R is the precision under test.
template <class R>
struct C
{
	const Toks& t; size_t p;
	Rec ra, ro, rb, ri; std::string what;
	C(const Toks& toks, size_t pos) : t(toks), p(pos) {}

	// ---- inputs
	bool more() const { return p < t.size(); }
	const std::string& tok()
	{
		if (p >= t.size()) { fprintf(stderr, "driver: missing argument: %s (line %ld)\n", gOp.c_str(), gId); _exit(3); }
		return t[p++];
	}
	R rawnum() { return static_cast<R>(parseNum(tok())); }
	int rawint() { return static_cast<int>(parseNum(tok())); }
	void logA(const std::string& n, std::initializer_list<R> v) { ra.add(n, seq(v.begin(), v.size())); }
	void logA(const std::string& n, const std::vector<R>& v) { ra.add(n, seq(v.data(), v.size())); }
	R num(const char* n) { R x = rawnum(); logA(n, {x}); return x; }
	int integer(const char* n) { int x = rawint(); ra.add(n, std::to_string(x)); return x; }
	std::vector<R> nums(const char* n, int k) { std::vector<R> v; for (int i = 0; i < k; ++i) v.push_back(rawnum()); logA(n, v); return v; }
	Vec2<R> v2(const char* n) { R x = rawnum(), y = rawnum(); logA(n, {x, y}); return Vec2<R>(x, y); }
	Vec3<R> v3(const char* n) { R x = rawnum(), y = rawnum(), z = rawnum(); logA(n, {x, y, z}); return Vec3<R>(x, y, z); }
	Vec4<R> v4(const char* n) { R x = rawnum(), y = rawnum(), z = rawnum(), w = rawnum(); logA(n, {x, y, z, w}); return Vec4<R>(x, y, z, w); }
	Quat<R> quat(const char* n) { R x = rawnum(), y = rawnum(), z = rawnum(), w = rawnum(); logA(n, {x, y, z, w}); return Quat<R>(x, y, z, w); }
	Coord coord(const char* n) { int c = integer(n); return static_cast<Coord>(c - 1); }

	// ---- observations
	static std::string seq(const R* v, size_t n)
	{
		std::string r = "[";
		for (size_t i = 0; i < n; ++i) r += (i ? ",\"" : "\"") + hex(static_cast<double>(v[i])) + "\"";
		return r + "]";
	}
	void o(const char* n, const R* v, size_t k) { ro.add(n, seq(v, k)); }
	void o(const char* n, const std::vector<R>& v) { ro.add(n, seq(v.data(), v.size())); }
	void o(const char* n, std::initializer_list<R> v) { ro.add(n, seq(v.begin(), v.size())); }
	void o(const char* n, R v) { o(n, {v}); }
	void o(const char* n, const Vec2<R>& v) { o(n, {v.x, v.y}); }
	void o(const char* n, const Vec3<R>& v) { o(n, {v.x, v.y, v.z}); }
	void o(const char* n, const Vec4<R>& v) { o(n, {v.x, v.y, v.z, v.w}); }
	void o(const char* n, const Quat<R>& v) { o(n, {v.x, v.y, v.z, v.w}); }
	void o(const char* n, const Mat2<R>& m) { o(n, {m.x.x, m.x.y, m.y.x, m.y.y}); }
	void o(const char* n, const Mat3<R>& m) { o(n, {m.x.x, m.x.y, m.x.z, m.y.x, m.y.y, m.y.z, m.z.x, m.z.y, m.z.z}); }
	void o(const char* n, const Mat34<R>& m) { o(n, {m.rs.x.x, m.rs.x.y, m.rs.x.z, m.rs.y.x, m.rs.y.y, m.rs.y.z, m.rs.z.x, m.rs.z.y, m.rs.z.z, m.t.x, m.t.y, m.t.z}); }
	void o(const char* n, const Mat4<R>& m) { o(n, {m.x.x, m.x.y, m.x.z, m.x.w, m.y.x, m.y.y, m.y.z, m.y.w, m.z.x, m.z.y, m.z.z, m.z.w, m.t.x, m.t.y, m.t.z, m.t.w}); }
	void b(const char* n, bool v) { rb.add(n, v ? "true" : "false"); }
	void i(const char* n, int v) { ri.add(n, std::to_string(v)); }
	void c(const char* n, Coord v) { i(n, static_cast<int>(v) + 1); }

	void emit()
	{
		printf("{\"id\":%ld,\"op\":\"%s\",\"w\":\"%s\",\"p\":%d,\"a\":%s,\"o\":%s,\"b\":%s,\"i\":%s}\n", gId, gOp.c_str(), what.c_str(),
			std::numeric_limits<R>::digits, ra.json(false).c_str(), ro.json(true).c_str(), rb.json(true).c_str(), ri.json(true).c_str());
		ra = Rec(); ro = Rec(); rb = Rec(); ri = Rec();
	}
};

template <class T> inline bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> inline bool isSelf(const T& a, const T& b) { return &a == &b; }

typedef void (*Fn)(const Toks&);
std::map<std::string, Fn>& table();
struct Registrar { Registrar(const char* n, Fn f) { table()[n] = f; } };

// OP(function, "name") { ... }: c is the call context, R the precision
#define OP(fn, name) \
	template <class R> static void fn(drv::C<R>& c); \
	static void fn##_call(const drv::Toks& t) \
	{ \
		if (t.at(1) == "f") { drv::C<float> c(t, 2); fn(c); if (!c.ro.names.empty() || !c.rb.names.empty() || !c.ri.names.empty()) c.emit(); } \
		else { drv::C<double> c(t, 2); fn(c); if (!c.ro.names.empty() || !c.rb.names.empty() || !c.ri.names.empty()) c.emit(); } \
	} \
	static drv::Registrar fn##_reg(name, fn##_call); \
	template <class R> static void fn(drv::C<R>& c)

} // namespace drv
