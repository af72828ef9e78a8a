#pragma once
#include "hcommon.h"
#include "stenos/cvector.hpp"
#include <algorithm>
#include <vector>
#ifndef CV_T
#define CV_T uint32_t
#endif
#ifndef CV_LEVEL
#define CV_LEVEL 0
#endif
#ifndef CV_SHIFT
#define CV_SHIFT 0
#endif
struct T12 { uint32_t a, b, c; };
struct T3 { uint8_t a, b, c; };
typedef CV_T T;
typedef stenos::cvector<T, CV_SHIFT, CV_LEVEL> V;
static const size_t B = V::block_size;
// streams over memory
struct Out
{
	uint8_t* d;
	size_t n, cap;
	bool bad;
	Out& write(const char* p, size_t c)
	{
		if (bad || c > cap - n) bad = true;
		else { memcpy(d + n, p, c); n += c; }
		return *this;
	}
	size_t tellp() { return bad ? (size_t)-1 : n; }
	bool operator!() const { return bad; }
};
struct In
{
	const uint8_t* d;
	size_t pos, n;
	bool bad;
	In& read(char* p, size_t c)
	{
		if (bad || c > n - pos) { if (!bad) { memcpy(p, d + pos, n - pos); pos = n; } bad = true; }
		else { memcpy(p, d + pos, c); pos += c; }
		return *this;
	}
	template<class D> In& seekg(long off, D) { if (!bad) pos = (size_t)((long)pos + off); return *this; }
	bool operator!() const { return bad; }
};
// the sequence a vector is compared with
struct Model
{
	static const size_t CAP = 6000;
	T* d;
	size_t n;
	Model() : d((T*)calloc(CAP, sizeof(T))), n(0) {}
	Model(const Model& o) : d((T*)calloc(CAP, sizeof(T))), n(o.n) { memcpy(d, o.d, n * sizeof(T)); }
	~Model() { free(d); }
	void insert(size_t pos, size_t cnt, const T& v)
	{
		memmove(d + pos + cnt, d + pos, (n - pos) * sizeof(T));
		for (size_t i = 0; i < cnt; ++i) d[pos + i] = v;
		n += cnt;
	}
	void erase(size_t a, size_t b)
	{
		memmove(d + a, d + b, (n - b) * sizeof(T));
		n -= b - a;
	}
	void resize(size_t m, const T& v)
	{
		for (size_t i = n; i < m; ++i) d[i] = v;
		n = m;
	}
};
static inline T value(const char* name) { T v; sym_bytes(&v, sizeof v, name); return v; }
static inline T konst(size_t i)
{
	T v;
	uint8_t* p = (uint8_t*)&v;
	for (size_t k = 0; k < sizeof(T); ++k) p[k] = (uint8_t)(k == 0 ? i * 7 : k == 1 ? i >> 5 : 3);
	return v;
}
static inline void check(const V& v, const Model& m, const char* msg)
{
	sym_assert(v.size() == m.n, "size of the vector");
	if (v.size() != m.n) return;
	uint8_t bad = 0;
	size_t i = 0;
	if (m.n) {
		size_t r = v.const_for_each(0, m.n, [&](const T& x) { bad |= sym_differs(&x, m.d + i, sizeof(T)); ++i; });
		sym_assert(r == m.n, "every element is visited");
	}
	sym_assert(bad == 0, msg);
}
// an index of the interesting ones: ends, block borders, middle
static inline size_t place(const char* name, size_t n, bool endok)
{
	if (sym_param("allpos", 0))
		return (size_t)sym_fork(name, 0, endok ? n : n - 1);
	size_t c[8], k = 0;
	auto add = [&](size_t x) {
		if (x > n || (x == n && !endok)) return;
		for (size_t i = 0; i < k; ++i) if (c[i] == x) return;
		c[k++] = x;
	};
	add(0);
	add(n - 1);
	add(n);
	add(B - 1);
	add(B);
	add(n / B * B);
	add(n / 2 + 1);
	return c[sym_fork(name, 0, k - 1)];
}
