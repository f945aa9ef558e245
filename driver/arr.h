#pragma once
#include "drv.h"

// an array with poison around it
template <class R> struct Arr
{
	std::vector<R> v; int n; std::vector<R> before;
	static R poison() { return std::numeric_limits<R>::quiet_NaN(); }
	Arr(const std::vector<R>& x) : v(x.size() + 16, poison()), n(static_cast<int>(x.size())) { for (int i = 0; i < n; ++i) v[8 + i] = x[i]; before = v; }
	Arr(int size) : v(size + 16, poison()), n(size), before(v) {}
	R* p() { return &v[8]; }
	bool intact() const { return memcmp(v.data(), before.data(), v.size() * sizeof(R)) == 0; }
	bool guards() const { return memcmp(v.data(), before.data(), 8 * sizeof(R)) == 0 && memcmp(&v[8 + n], &before[8 + n], 8 * sizeof(R)) == 0; }
	std::vector<R> get() const { return std::vector<R>(v.begin() + 8, v.begin() + 8 + n); }
	std::vector<R> part(int k, int of) const { std::vector<R> r; for (int i = k; i < n; i += of) r.push_back(v[8 + i]); return r; }
};
