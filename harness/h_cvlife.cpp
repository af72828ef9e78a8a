// the elements of a vector are objects: each one is constructed once and destroyed once, and a failing allocation or
// constructor neither loses objects nor breaks the vector
#include "hcommon.h"
#include "stenos/cvector.hpp"
#include <algorithm>
#include <list>
#include <memory>
#include <vector>
#ifndef CV_LEVEL
#define CV_LEVEL 0
#endif
#ifndef LIFE
#define LIFE 1 // 0 plain integer, 1 copyable object, 2 object that can only be moved, 3 unique_ptr
#endif
static const unsigned NT = 6000;
static uint32_t payload[NT];
static uint8_t alive[NT];
static uint32_t freed[NT], nfree, objects;
static long throwIn = -1; // constructions left before one fails
static bool thrown;
struct Failure {};
static void construction()
{
	if (throwIn >= 0 && throwIn-- == 0) {
		thrown = true;
		throw Failure();
	}
}
static uint32_t take(uint32_t p)
{
	if (!nfree) {
		sym_fail("more objects alive than the vectors hold");
		return 1;
	}
	uint32_t h = freed[--nfree];
	alive[h] = 1;
	payload[h] = p;
	++objects;
	return h;
}
static void drop(uint32_t h)
{
	if (!h)
		return;
	if (h >= NT || !alive[h]) {
		sym_fail("an object was destroyed twice, or never constructed");
		return;
	}
	alive[h] = 0;
	freed[nfree++] = h;
	--objects;
}
static uint32_t value_of(uint32_t h)
{
	if (!h)
		return 0; // moved from
	if (h >= NT || !alive[h]) {
		sym_fail("a destroyed object was read");
		return 0;
	}
	return payload[h];
}
struct H
{
	uint32_t h = 0;
	H() { construction(); h = take(0); }
	explicit H(uint32_t p) : h(take(p)) {}
#if LIFE == 2
	H(const H&) = delete;
	H& operator=(const H&) = delete;
#else
	H(const H& o) { uint32_t v = value_of(o.h); construction(); h = take(v); }
	H& operator=(const H& o)
	{
		if (this != &o) {
			uint32_t v = value_of(o.h);
			construction();
			drop(h);
			h = take(v);
		}
		return *this;
	}
#endif
	H(H&& o) noexcept : h(o.h) { o.h = 0; }
	H& operator=(H&& o) noexcept
	{
		if (this != &o) {
			drop(h);
			h = o.h;
			o.h = 0;
		}
		return *this;
	}
	~H() { drop(h); }
};
#if LIFE == 0
typedef uint32_t T;
static T mk(uint32_t p) { return p; }
static uint32_t rd(const T& x) { return x; }
#elif LIFE == 3
typedef std::unique_ptr<uint32_t> T;
static T mk(uint32_t p) { return T(new uint32_t(p)); }
static uint32_t rd(const T& x) { return x ? *x : 0; }
#else
typedef H T;
static T mk(uint32_t p) { return H(p); }
static uint32_t rd(const T& x) { return value_of(x.h); }
namespace stenos
{
	template<>
	struct is_relocatable<H> : std::true_type
	{
	};
}
#endif
#define COPY (LIFE < 2)
typedef stenos::cvector<T, 0, CV_LEVEL> V;
static const size_t B = V::block_size;
struct Model
{
	static const size_t CAP = 2600;
	uint32_t d[CAP];
	size_t n = 0;
	void insert(size_t pos, size_t cnt, uint32_t v)
	{
		for (size_t i = n; i-- > pos;) d[i + cnt] = d[i];
		for (size_t i = 0; i < cnt; ++i) d[pos + i] = v;
		n += cnt;
	}
	void erase(size_t a, size_t b)
	{
		for (size_t i = b; i < n; ++i) d[a + i - b] = d[i];
		n -= b - a;
	}
	void resize(size_t m, uint32_t v)
	{
		for (size_t i = n; i < m; ++i) d[i] = v;
		n = m;
	}
};
static V *v, *other;
static Model model, omodel, before;
static Model *m = &model, *om = &omodel;
static size_t holding(const V& x)
{
	size_t k = 0;
#if LIFE == 1 || LIFE == 2
	x.const_for_each(0, x.size(), [&](const T& e) { k += e.h != 0; });
#endif
	return k;
}
static void count_objects()
{
#if LIFE == 1 || LIFE == 2
	sym_assert(objects == holding(*v) + holding(*other), "as many objects as elements");
#endif
}
static void check(const V& x, const Model& mo, const char* msg)
{
	sym_assert(x.size() == mo.n, "size of the vector");
	if (x.size() != mo.n)
		return;
	size_t i = 0;
	bool ok = true;
	size_t r = x.const_for_each(0, mo.n, [&](const T& e) { ok &= rd(e) == mo.d[i]; ++i; });
	sym_assert(r == mo.n, "every element is visited");
	sym_assert(ok, msg);
}
static size_t place(const char* name, size_t n, bool endok)
{
	size_t c[8], k = 0;
	auto add = [&](size_t x) {
		if (x > n || (x == n && !endok)) return;
		for (size_t i = 0; i < k; ++i) if (c[i] == x) return;
		c[k++] = x;
	};
	add(0);
	add(n - 1);
	add(n);
	add(B - 1);
	add(B);
	return c[sym_fork(name, 0, k - 1)];
}
static bool armed();
static void arm(bool alloc = true);
static void disarm();
// fails to the state before (true) or to some valid state (false)
static bool strong;
static uint32_t any_value() { uint32_t p = 0; sym_bytes(&p, 4, "value"); return p; }
// the model is changed after the vector: an exception leaves it as it was
static void op(unsigned o)
{
	strong = true;
	uint32_t p = any_value();
	switch (o) {
		case 0: { T x = mk(p); arm(); v->push_back(std::move(x)); m->insert(m->n, 1, p); break; }
		case 1: if (m->n) { arm(); v->pop_back(); --m->n; } break;
		case 2: { size_t q = place("pos", m->n, true); T x = mk(p); strong = false; arm(); v->insert(v->cbegin() + q, std::move(x)); m->insert(q, 1, p); break; }
		case 3: if (m->n) { size_t q = place("pos", m->n, false); strong = false; arm(); v->erase(v->cbegin() + q); m->erase(q, q + 1); } break;
		case 4: if (m->n) {
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true);
			if (a > b) std::swap(a, b);
			strong = false; arm(); v->erase(v->cbegin() + a, v->cbegin() + b); m->erase(a, b);
		} break;
		case 5: { // resize
			static const size_t sz[] = { 0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5 };
			size_t c = sz[sym_fork("size", 0, 8)];
			strong = false; arm(); v->resize(c); m->resize(c, 0);
			break;
		}
		case 6: { strong = false; arm(); v->shrink_to_fit(); break; }
		case 7: { arm(); v->clear(); m->n = 0; break; }
		case 8: if (m->n) { size_t q = place("pos", m->n, false); T x = mk(p); arm(); (*v)[q] = std::move(x); m->d[q] = p; } break;
		case 9: if (m->n) { // take an element out, and put it back elsewhere
			size_t a = place("pos", m->n, false), b = place("pos2", m->n, false);
			strong = false; arm();
			T x = (*v)[a].move();
			uint32_t w = m->d[a];
			m->d[a] = LIFE ? 0 : w;
			before = *m;
			(*v)[b] = std::move(x);
			m->d[b] = w;
		} break;
		case 10: if (m->n) { size_t a = place("pos", m->n, false), b = place("pos2", m->n, false); arm(); auto x = (*v)[a]; auto y = (*v)[b]; x.swap(y); std::swap(m->d[a], m->d[b]); } break;
		case 11: { arm(); uint64_t s = 0; const V& c = *v; size_t i = 0; bool ok = true; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= rd((*it).get()) == m->d[i]; sym_assert(ok && i == m->n, "iteration gives the elements in order"); (void)s; break; }
		case 12: { strong = false; arm(); V w(std::move(*v)); check(w, *m, "elements after a move"); if (!armed()) v->push_back(mk(p)); *v = std::move(w); break; }
		case 13: { arm(); v->swap(*other); std::swap(m, om); break; }
		case 14: { // elements of another container are moved in
			size_t q = place("pos", m->n, true);
			std::vector<T> r;
			for (unsigned i = 0; i < 5; ++i) r.push_back(mk(p + i));
			strong = false; arm();
			v->insert(v->cbegin() + q, std::make_move_iterator(r.begin()), std::make_move_iterator(r.end()));
			for (unsigned i = 0; i < 5; ++i) m->insert(q + i, 1, p + i);
			break;
		}
		case 15: { // the same from a list
			size_t q = place("pos", m->n, true);
			std::list<T> r;
			for (unsigned i = 0; i < 5; ++i) r.push_back(mk(p + i));
			strong = false; arm();
			v->insert(v->cbegin() + q, std::make_move_iterator(r.begin()), std::make_move_iterator(r.end()));
			for (unsigned i = 0; i < 5; ++i) m->insert(q + i, 1, p + i);
			break;
		}
		case 16: if (m->n) { // replace in a range
			size_t a = place("pos", m->n, true), b = place("pos2", m->n, true);
			if (a > b) std::swap(a, b);
			strong = false; arm();
			uint32_t i = 0;
			v->for_each(a, b, [&](T& e) { e = mk(p + i); ++i; });
			for (size_t j = a; j < b; ++j) m->d[j] = p + (uint32_t)(j - a);
		} break;
		case 17: { strong = false; arm(); std::reverse(v->begin(), v->end()); std::reverse(m->d, m->d + m->n); break; }
		case 18: { strong = false; arm(); auto e = std::remove_if(v->begin(), v->end(), [](const T& x) { return rd(x) % 3 == 0; }); v->erase(e, v->cend()); m->n = (size_t)(std::remove_if(m->d, m->d + m->n, [](uint32_t x) { return x % 3 == 0; }) - m->d); break; }
#if COPY
		case 20: { T x = mk(p); arm(); v->push_back((const T&)x); m->insert(m->n, 1, p); break; }
		case 21: { size_t q = place("pos", m->n, true), c = sym_fork("big", 0, 1) ? B + 3 : 3; T x = mk(p); strong = false; arm(); v->insert(v->cbegin() + q, c, x); m->insert(q, c, p); break; }
		case 22: {
			static const size_t sz[] = { 0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5 };
			size_t c = sz[sym_fork("size", 0, 8)];
			T x = mk(p); strong = false; arm(); v->resize(c, x); m->resize(c, p);
			break;
		}
		case 23: if (m->n) { size_t a = place("pos", m->n, false), b = place("pos2", m->n, false); strong = a == b; arm(); (*v)[a] = (*v)[b]; m->d[a] = m->d[b];
			if (a != b) { auto x = (*v)[b], y = (*v)[a]; x = y; m->d[b] = m->d[a]; }
		} break;
		case 24: { size_t c = sym_fork("big", 0, 1) ? B + 3 : 5; T x = mk(p); strong = false; arm(); v->assign(c, x); m->n = 0; m->resize(c, p); break; }
		// (without memory for the context of a new vector, the process ends: see DESIGN.md)
		case 25: { arm(false); V w(*v); check(w, *m, "elements of the copy"); break; }
		case 26: { arm(false); *v = *other; *m = *om; break; }
		case 28: if (m->n) { size_t q = place("pos", m->n, true), k = place("pos2", m->n, false); strong = false; arm(); uint32_t w = m->d[k]; v->insert(v->cbegin() + q, 3, (*v)[k]); m->insert(q, 3, w); } break;
		case 29: if (m->n) { size_t k = place("pos2", m->n, false), c = m->n + (sym_fork("big", 0, 1) ? B + 9 : 2); strong = false; arm(); uint32_t w = m->d[k]; v->resize(c, (*v)[k]); m->resize(c, w); } break;
		case 30: if (m->n) { // an element is referenced: its block keeps its place
			size_t k = place("pos", m->n, false), n = m->n;
			T x = mk(p);
			strong = false; arm();
			auto r = (*v)[k];
			const T& e = r.get();
			v->push_back((const T&)x);
			m->insert(m->n, 1, p);
			before = *m;
			sym_assert(rd(e) == m->d[k], "a referenced element after an append");
			uint32_t s = 0;
			for (size_t i = 0; i < n; i += B / 2) s += rd((*v)[i].get());
			(void)s;
			sym_assert(rd(e) == m->d[k], "a referenced element after reads of other blocks");
			r = x;
			m->d[k] = p;
		} break;
		case 27: if (m->n) { arm(); v->push_back((*v)[0]); m->insert(m->n, 1, m->d[0]); } break;
#endif
		default: arm(); break;
	}
}
static bool failing;
static bool armed() { return sym_param("fails", 0) || sym_param("throws", 0); }
static void arm(bool alloc)
{
	before = *m;
	size_t f = sym_param("fails", 0);
	if (f && alloc)
		sym_alloc_fail((int)f);
	if (sym_param("throws", 0)) {
		static const long at[] = { 0, 1, 2, 4, (long)B - 1, (long)B, (long)B + 1, (long)(2 * B) };
		throwIn = at[sym_fork("throw", 0, 7)];
	}
	failing = true;
}
static void disarm()
{
	if (failing) {
		sym_alloc_fail(0);
		throwIn = -1;
		failing = false;
	}
}
static void run()
{
	V vec, oth;
	v = &vec;
	other = &oth;
	m = &model;
	om = &omodel;
	model.n = omodel.n = 0;
	size_t n0 = sym_param("n0", 2 * B + 40);
	for (size_t i = 0; i < n0; ++i) { uint32_t p = 1000 + (uint32_t)i * 3; v->push_back(mk(p)); m->insert(m->n, 1, p); }
	if (n0 < B) { // (the context of the vector exists)
		v->resize(3 * B);
		v->shrink_to_fit();
		v->resize(n0);
	}
	for (size_t i = 0; i < B + 7; ++i) { uint32_t p = 5000 + (uint32_t)i; other->push_back(mk(p)); om->insert(om->n, 1, p); }
	for (unsigned k = 0; k < (unsigned)sym_param("dirty", 0) && k * B < m->n; ++k) { (*v)[k * B + 1] = mk(77 + k); m->d[k * B + 1] = 77 + k; }
	if (sym_param("shrunk", 0))
		v->shrink_to_fit();
	unsigned steps = (unsigned)sym_param("steps", 1);
	uint64_t first = sym_param("first", 99), mask = sym_param("mask", COPY ? 0x7FF7FFFF : 0x7FFFF);
	bool failed = false;
	for (unsigned s = 0; s < steps && !failed; ++s) {
		unsigned o;
		if (s == 0 && first != 99)
			o = (unsigned)first;
		else {
			unsigned list[32], k = 0;
			for (unsigned i = 0; i < 32; ++i) if (mask >> i & 1) list[k++] = i;
			o = list[sym_fork("op", 0, k - 1)];
		}
		try {
			op(o);
			disarm();
		}
		catch (...) {
			failed = true;
			bool did = sym_alloc_failed() > 0 || thrown;
			disarm();
			sym_assert(did, "nothing is thrown when nothing fails");
			sym_cover("failed operation");
			if (sym_fork("append", 0, 1)) { // the next operation opens a block
				size_t n = v->size();
				v->push_back(mk(4242));
				sym_assert(v->size() == n + 1 && rd(v->back().get()) == 4242, "an append after a failure");
				if (strong) before.insert(before.n, 1, 4242);
			}
			if (strong) {
				*m = before;
				check(*v, *m, "the vector after an operation that failed");
				count_objects();
			}
			else {
				count_objects();
				// some valid state: its elements can be read
				size_t n = v->size(), i = 0;
				sym_assert(n <= Model::CAP - 300, "size after a failure");
				size_t r = v->const_for_each(0, n, [&](const T& e) { m->d[i++] = rd(e); });
				sym_assert(r == n, "every element is visited");
				m->n = n;
			}
		}
		check(*v, *m, "elements of the vector");
		check(*other, *om, "elements of the other vector");
		count_objects();
	}
	SYM_OBS(v->size(), "size");
	// still usable
	uint32_t p = any_value();
	v->push_back(mk(p));
	m->insert(m->n, 1, p);
	v->shrink_to_fit();
	check(*v, *m, "elements of the vector, later");
	v->resize(m->n > 3 ? m->n - 3 : 0);
	m->resize(m->n > 3 ? m->n - 3 : 0, 0);
	check(*v, *m, "elements of the vector, at the end");
	count_objects();
}
int main()
{
	for (unsigned i = NT - 1; i > 0; --i) freed[nfree++] = i;
	{ // state of the library that lives as long as the thread
		V w;
		for (unsigned i = 0; i < 3 * B; ++i) w.push_back(mk(i * 7));
		w.shrink_to_fit();
		uint32_t s = 0;
		w.const_for_each(0, w.size(), [&](const T& x) { s += rd(x); });
		(void)s;
	}
	uint64_t live = sym_heap_live();
	run();
	sym_assert(objects == 0, "every object is destroyed with its vector");
	sym_assert(sym_heap_live() <= live, "no memory is lost");
	sym_cover("end");
	return 0;
}
