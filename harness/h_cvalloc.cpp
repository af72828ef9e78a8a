// the memory of a vector comes from its allocator and goes back to an equal one, whatever happens to the vector;
// allocators are handed over as their traits say
#include "hcommon.h"
#include "stenos/cvector.hpp"
#include <algorithm>
#ifndef POCCA
#define POCCA 0
#endif
#ifndef POCMA
#define POCMA 0
#endif
#ifndef POCS
#define POCS 0
#endif
#ifndef CV_LEVEL
#define CV_LEVEL 0
#endif
static const unsigned MAXB = 4000;
static struct { void* p; size_t n; int id; } book[MAXB];
static unsigned nbook;
static void enter(void* p, size_t n, int id)
{
	for (unsigned i = 0; i < nbook; ++i)
		if (!book[i].p) { book[i].p = p; book[i].n = n; book[i].id = id; return; }
	if (nbook == MAXB) { sym_fail("too many allocations"); return; }
	book[nbook].p = p; book[nbook].n = n; book[nbook].id = id; ++nbook;
}
static void leave(void* p, size_t n, int id)
{
	for (unsigned i = 0; i < nbook; ++i)
		if (book[i].p == p) {
			book[i].p = nullptr;
			sym_assert(book[i].n == n, "memory is given back with its size");
			sym_assert(book[i].id == id, "memory goes back to an allocator equal to the one it came from");
			return;
		}
	sym_fail("the allocator gets memory that is not its own");
}
static size_t held(int id)
{
	size_t n = 0;
	for (unsigned i = 0; i < nbook; ++i) n += book[i].p && book[i].id == id;
	return n;
}
static unsigned failing, failed; // only the allocator fails (without memory for the context of a new vector, the process ends: see DESIGN.md)
template<class T>
struct Al
{
	typedef T value_type;
	typedef std::integral_constant<bool, POCCA> propagate_on_container_copy_assignment;
	typedef std::integral_constant<bool, POCMA> propagate_on_container_move_assignment;
	typedef std::integral_constant<bool, POCS> propagate_on_container_swap;
	typedef std::false_type is_always_equal;
	int id;
	Al(int i = 0) noexcept : id(i) {}
	template<class U> Al(const Al<U>& o) noexcept : id(o.id) {}
	T* allocate(size_t n)
	{
		if (failing && sym_fork("fail", 0, 1)) { --failing; ++failed; throw std::bad_alloc(); }
		void* p = malloc(n * sizeof(T));
		if (!p) throw std::bad_alloc();
		enter(p, n * sizeof(T), id);
		return (T*)p;
	}
	void deallocate(T* p, size_t n) noexcept
	{
		leave(p, n * sizeof(T), id);
		free(p);
	}
	Al select_on_container_copy_construction() const { return Al(id + 100); }
	template<class U> bool operator==(const Al<U>& o) const { return id == o.id; }
	template<class U> bool operator!=(const Al<U>& o) const { return id != o.id; }
};
typedef uint32_t T;
typedef stenos::cvector<T, 0, CV_LEVEL, Al<T>> V;
static const size_t B = V::block_size;
struct Model { T d[2000]; size_t n; };
static Model ma, mb;
static void check(const V& v, const Model& m)
{
	sym_assert(v.size() == m.n, "size of the vector");
	if (v.size() != m.n) return;
	size_t i = 0;
	T bad = 0;
	v.const_for_each(0, m.n, [&](const T& x) { bad |= x ^ m.d[i]; ++i; });
	sym_assert(bad == 0, "elements of the vector");
}
static void fill(V& v, Model& m, size_t n, T x0)
{
	m.n = 0;
	for (size_t i = 0; i < n; ++i) { T x = i % B == 3 ? x0 + (T)i : (T)(i * 7); v.push_back(x); m.d[m.n++] = x; }
}
static void use(V& v, Model& m) // some ordinary work
{
	switch (sym_fork("work", 0, 4)) {
		case 0: break;
		case 1: for (size_t i = 0; i < B + 2; ++i) { v.push_back((T)i); m.d[m.n++] = (T)i; } break;
		case 2: v.shrink_to_fit(); if (m.n) { v[m.n / 2] = 5; m.d[m.n / 2] = 5; } break;
		case 3: { size_t c = m.n / 2 + 1; v.resize(c); for (size_t i = m.n; i < c; ++i) m.d[i] = 0; m.n = c; break; }
		default: v.clear(); m.n = 0; v.push_back(9); m.d[m.n++] = 9; break;
	}
	check(v, m);
}
static void copy(Model& a, const Model& b) { a.n = b.n; memcpy(a.d, b.d, b.n * sizeof(T)); }
int main()
{
	{ // buffers that live as long as the thread
		stenos::cvector<T, 0, CV_LEVEL> w;
		for (unsigned i = 0; i < 3 * B; ++i) w.push_back(i * 7);
		w.shrink_to_fit();
	}
	{
		int ia = 1, ib = (int)sym_param("same", 0) ? 1 : 2;
		size_t na = sym_param("na", B + 40), nb = sym_param("nb", 2 * B + 5);
		T x = (T)sym_u64("x", 0, 0xFFFFFFFF), y = (T)sym_u64("y", 0, 0xFFFFFFFF);
		V a{ Al<T>(ia) };
		V b{ Al<T>(ib) };
		sym_assert(a.get_allocator().id == ia && b.get_allocator().id == ib, "a vector has the allocator it was given");
		fill(a, ma, na, x);
		fill(b, mb, nb, y);
		if (sym_param("shrunk", 0)) { a.shrink_to_fit(); b.shrink_to_fit(); }
		unsigned steps = (unsigned)sym_param("steps", 1);
		for (unsigned s = 0; s < steps; ++s) {
			unsigned what = s || sym_param("first", 99) == 99 ? (unsigned)sym_fork("what", 0, 9) : (unsigned)sym_param("first", 0);
			failing = (unsigned)sym_param("fails", 0);
			try {
			switch (what) {
				case 0: { // copy
					V c(b);
					sym_assert(c.get_allocator().id == ib + 100, "a copy selects its allocator");
					check(c, mb);
					failing = 0; Model* m = (Model*)malloc(sizeof(Model)); copy(*m, mb);
					use(c, *m);
					free(m);
					break;
				}
				case 1: { // copy with an allocator
					V c(b, Al<T>(7));
					sym_assert(c.get_allocator().id == 7, "a copy has the allocator it is given");
					check(c, mb);
					if (mb.n) sym_assert(held(7) > 0, "the memory of a vector comes from its allocator");
					break;
				}
				case 2: { // move
					V c(std::move(b));
					sym_assert(c.get_allocator().id == ib, "a moved vector keeps its allocator");
					check(c, mb);
					sym_assert(b.size() == 0, "moved from vector is empty");
					failing = 0; Model* m = (Model*)malloc(sizeof(Model)); copy(*m, mb);
					use(c, *m);
					free(m);
					mb.n = 0;
					break;
				}
				case 3: { // move with an allocator
					int id = sym_fork("other", 0, 1) ? 7 : ib;
					V c(std::move(b), Al<T>(id));
					sym_assert(c.get_allocator().id == id, "a moved vector has the allocator it is given");
					check(c, mb);
					b.clear();
					mb.n = 0;
					break;
				}
				case 4: { // copy assignment
					a = b;
					if (POCCA) ia = ib;
					copy(ma, mb);
					break;
				}
				case 5: { // move assignment
					a = std::move(b);
					if (POCMA) ia = ib;
					copy(ma, mb);
					ib = b.get_allocator().id;
					b.clear();
					mb.n = 0;
					break;
				}
				case 6: { // swap (of equal allocators, if they are not exchanged)
					if (!POCS && ia != ib) break;
					a.swap(b);
					if (POCS) std::swap(ia, ib);
					failing = 0; Model* m = (Model*)malloc(sizeof(Model)); copy(*m, mb); copy(mb, ma); copy(ma, *m); free(m);
					break;
				}
				case 7: { // a temporary
					size_t n = sym_fork("big", 0, 1) ? B + 9 : 3;
					V c(n, x, Al<T>(7));
					a = std::move(c);
					if (POCMA) ia = 7;
					ma.n = 0;
					while (ma.n < n) ma.d[ma.n++] = x;
					break;
				}
				case 8: { // serialization
					failing = 0;
					size_t cap = stenos_bound(mb.n * sizeof(T)) + 64;
					uint8_t* buf = exact(cap);
					size_t r = (size_t)sym_concretize(b.serialize(buf, cap));
					sym_assert(!stenos_has_error(r), "serialization succeeds");
					r = a.deserialize(buf, r);
					sym_assert(!stenos_has_error(r), "deserialization succeeds");
					copy(ma, mb);
					free(buf);
					break;
				}
				default: { // to and from nothing
					V e{ Al<T>(ib) };
					if (sym_fork("dir", 0, 1)) { b = e; mb.n = 0; }
					else { e = b; check(e, mb); }
					break;
				}
			}
			}
			catch (std::bad_alloc&) { // no promise but that nothing is lost, and that the vectors can still be used
				sym_assert(failed != 0, "no exception without a failed allocation");
				failing = 0;
				sym_cover("failed operation");
				size_t k = a.size();
				a.push_back(9);
				sym_assert(a.size() == k + 1 && a.back() == 9, "an append after a failure");
				b = a;
				sym_assert(b.size() == k + 1 && b.back() == 9, "an assignment after a failure");
				break;
			}
			failing = 0;
			sym_assert(a.get_allocator().id == ia && b.get_allocator().id == ib, "allocators are handed over as their traits say");
			check(a, ma);
			check(b, mb);
			if (s + 1 == steps) { use(a, ma); use(b, mb); }
		}
	}
	for (unsigned i = 0; i < nbook; ++i)
		if (book[i].p) sym_fail("memory that is never given back to the allocator");
	sym_cover("end");
	return 0;
}
