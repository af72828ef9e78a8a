// Flat 64-bit address space made of separate objects with large unmapped gaps between them.
#pragma once
#include "expr.h"
#include <string>
#include <cstring>
#include <vector>
#include <memory>

static const unsigned PG = 128;
#define UNINIT ((E)1)

struct Page
{
	uint32_t refs = 1;
	uint32_t nsym = 0; // upper bound on number of non-null sym entries (0 means no sym array needed)
	uint8_t d[PG];
	E* sym = nullptr;
	Page() {}
	Page(const Page& o) : nsym(o.nsym)
	{
		memcpy(d, o.d, PG);
		if (o.sym) {
			sym = new E[PG];
			memcpy(sym, o.sym, PG * sizeof(E));
		}
	}
	~Page() { delete[] sym; }
	void needSym()
	{
		if (!sym) {
			sym = new E[PG];
			memset(sym, 0, PG * sizeof(E));
		}
	}
};

enum ObjKind : uint8_t { O_GLOBAL, O_CONST, O_HEAP, O_STACK, O_FUNC };
struct Obj
{
	uint32_t refs = 1;
	uint64_t base = 0, size = 0;
	ObjKind kind = O_GLOBAL;
	bool zero = false; // unmaterialised pages are zero (else uninitialised)
	uint8_t heapKind = 0; // 1 malloc, 2 new, 3 new[]
	std::shared_ptr<std::string> name;
	std::vector<Page*> pages;
	Obj() {}
	Obj(const Obj& o) : base(o.base), size(o.size), kind(o.kind), zero(o.zero), heapKind(o.heapKind), name(o.name), pages(o.pages)
	{
		for (Page* p : pages)
			if (p)
				++p->refs;
	}
	~Obj()
	{
		for (Page* p : pages)
			if (p && --p->refs == 0)
				delete p;
	}
	Page* wpage(size_t i)
	{
		Page*& p = pages[i];
		if (!p) {
			p = new Page();
			memset(p->d, 0, PG);
			if (!zero) {
				p->needSym();
				for (unsigned j = 0; j < PG; ++j)
					p->sym[j] = UNINIT;
			}
		}
		else if (p->refs > 1) {
			Page* n = new Page(*p);
			--p->refs;
			p = n;
		}
		return p;
	}
};
struct Mem
{
	struct Ent { uint64_t base; Obj* o; };
	std::vector<Ent> objs; // sorted by base
	uint64_t next = 1ull << 40;
	size_t last = 0;
	Mem() {}
	Mem(const Mem& m) : objs(m.objs), next(m.next), last(m.last)
	{
		for (auto& e : objs)
			++e.o->refs;
	}
	Mem& operator=(const Mem&) = delete;
	~Mem()
	{
		for (auto& e : objs)
			if (--e.o->refs == 0)
				delete e.o;
	}
	// index of object containing addr (addr in [base, base+size], end inclusive so that zero-size/one-past are found), or -1
	long find(uint64_t a)
	{
		if (last < objs.size() && a >= objs[last].base && a - objs[last].base < objs[last].o->size)
			return (long)last;
		size_t lo = 0, hi = objs.size();
		while (lo < hi) {
			size_t mid = (lo + hi) / 2;
			if (objs[mid].base <= a)
				lo = mid + 1;
			else
				hi = mid;
		}
		if (lo == 0)
			return -1;
		Obj* o = objs[lo - 1].o;
		if (a - o->base > o->size)
			return -1;
		last = lo - 1;
		return (long)(lo - 1);
	}
	Obj* w(size_t i)
	{
		Obj*& o = objs[i].o;
		if (o->refs > 1) {
			Obj* n = new Obj(*o);
			--o->refs;
			o = n;
		}
		return o;
	}
	uint64_t alloc(uint64_t size, ObjKind kind, bool zero, unsigned align, unsigned skew, const std::shared_ptr<std::string>& name, uint8_t hk = 0)
	{
		uint64_t al = align < 64 ? 64 : align;
		uint64_t base = (next + al - 1) / al * al + skew;
		next = base + size + (1ull << 33);
		Obj* o = new Obj();
		o->base = base;
		o->size = size;
		o->kind = kind;
		o->zero = zero;
		o->heapKind = hk;
		o->name = name;
		o->pages.assign((size + PG - 1) / PG, nullptr);
		objs.push_back(Ent{ base, o });
		return base;
	}
	void remove(size_t i)
	{
		if (--objs[i].o->refs == 0)
			delete objs[i].o;
		objs.erase(objs.begin() + (long)i);
		last = 0;
	}
};
