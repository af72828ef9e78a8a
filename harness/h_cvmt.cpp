// one compressed vector used by several threads, in the ways that are allowed to be concurrent
#include "cvcommon.h"
#include <thread>
static size_t N;
static V* v;
static const V* cv;
static T* first; // the elements before the threads start
static T add[2];
static T addOf(unsigned who) { return add[who]; }
static bool writes[2];
static unsigned rounds;
static bool plausible(size_t i, T x)
{
	T e = first[i];
	unsigned r0 = writes[0] ? rounds : 0, r1 = writes[1] ? rounds : 0;
	for (unsigned a = 0; a <= r0; ++a)
		for (unsigned b = 0; b <= r1; ++b)
			if ((T)(e + a * addOf(0) + b * addOf(1)) == x) return true;
	return false;
}
static void check(size_t i, T x) { sym_assert(plausible(i, x), "a thread reads the value of an element"); }
// returns false when an operation that threw was allowed to
static void op(unsigned who, unsigned what)
{
	size_t lo = 0, hi = N;
	switch (sym_param("range", 0)) {
		case 1: lo = who ? B / 2 : 0; hi = who ? N : B + B / 2; break; // overlap
		case 2: lo = who ? N / 2 : 0; hi = who ? N : N / 2; break;	// disjoint elements, a block in common
		case 3: lo = who ? B : 0; hi = who ? N : B; break;	// disjoint blocks
		default: break;
	}
	size_t i = lo;
	switch (what) {
		case 0: // visit
			sym_assert(cv->const_for_each(lo, hi, [&](const T& x) { if (i % B < 2 || i % B > B - 3) check(i, x); ++i; }) == hi - lo, "a visit sees every element");
			break;
		case 1: // index
			for (size_t k = lo; k < hi; k += B / 2 + 3)
				check(k, (*cv)[k]);
			break;
		case 2: // iterators
			for (V::const_iterator it = cv->begin() + (ptrdiff_t)lo, e = cv->begin() + (ptrdiff_t)hi; it < e; it += (ptrdiff_t)(B / 2)) {
				check((size_t)(it - cv->begin()), *it);
				if ((it - cv->begin()) + (ptrdiff_t)(B / 2) > (ptrdiff_t)hi) break;
			}
			break;
		case 3: // modify
			sym_assert(v->for_each(lo, hi, [&](T& x) { if (i % B < 2 || i % B > B - 3) x = (T)(x + addOf(who)); ++i; }) == hi - lo, "a visit sees every element");
			break;
		case 4: // modify, backward
			i = hi;
			sym_assert(v->for_each_backward(lo, hi, [&](T& x) { --i; if (i % B < 2 || i % B > B - 3) x = (T)(x + addOf(who)); }) == hi - lo, "a visit sees every element");
			break;
		case 5: // visit, backward
			i = hi;
			sym_assert(cv->const_for_each_backward(lo, hi, [&](const T& x) { --i; if (i % B < 2 || i % B > B - 3) check(i, x); }) == hi - lo, "a visit sees every element");
			break;
		case 6: // ends
			check(N - 1, cv->back());
			check(0, cv->front());
			check(B, cv->at(B));
			break;
		case 7: { // copy
			V c(*cv);
			sym_assert(c.size() == N, "a copy has the same elements");
			check(0, c[0]);
			check(N - 1, c.back());
			break;
		}
		case 8: // references held for some time
		{
			auto a = (*cv)[0];
			auto b = (*cv)[B];
			check(B, b);
			check(0, a);
			break;
		}
		case 9: // index, not const
			for (size_t k = lo; k < hi; k += B / 2 + 3)
				check(k, (T)(*v)[k].get());
			break;
		case 10: // a visit that stops, then again
			sym_assert(v->for_each(lo, hi, [&](T&) { return i++ != lo + B + 1; }) == std::min(hi - lo, B + 1), "a visit stops");
			break;
		default: break;
	}
}
int main()
{
	N = sym_param("n", 3 * B - 40);
	first = (T*)malloc(N * sizeof(T));
	v = new V();
	cv = v;
	unsigned nsym = (unsigned)sym_param("nsym", 1);
	add[0] = nsym ? (T)sym_u64("add0", 0, 0xFFFF) : (T)1000;
	add[1] = nsym ? (T)sym_u64("add1", 0, 0xFFFF) : (T)77;
	for (size_t i = 0; i < N; ++i) {
		T x;
		if (i % B < nsym) x = (T)sym_u64("x", 0, 0xFFFF);
		else x = sym_param("flat", 1) ? (T)(i / B + 3) : (T)(i * 3);
		first[i] = x;
		v->push_back(x);
	}
	switch (sym_param("state", 0)) {
		case 1: v->shrink_to_fit(); break;
		case 2: v->shrink_to_fit(); (*v)[B + 1] = first[B + 1]; break;
		default: break;
	}
	unsigned a = (unsigned)sym_param("a", 0), b = (unsigned)sym_param("b", 0);
	writes[0] = a == 3 || a == 4;
	writes[1] = b == 3 || b == 4;
	rounds = (unsigned)sym_param("rounds", 1);
	if (sym_param("warm", 0)) (void)v->memory_footprint();
	sym_sched((int)sym_param("preempt", 1) + 1);
	bool threw[2] = { false, false };
	auto run = [&](unsigned who, unsigned what) {
		try {
			for (unsigned r = 0; r < rounds; ++r) op(who, what);
		}
		catch (std::bad_alloc&) {
			threw[who] = true;
		}
	};
	std::thread t([&]() { run(1, b); });
	if (uint64_t f = sym_param("fails", 0))
		sym_alloc_fail((int)f);
	run(0, a);
	t.join();
	bool failed = sym_alloc_failed() != 0;
	sym_alloc_fail(0);
	sym_sched(0);
	sym_assert(failed || (!threw[0] && !threw[1]), "no exception without a failed allocation");
	sym_assert(cv->size() == N, "the vector keeps its elements");
	T acc = 0;
	size_t lo0 = 0, hi0 = N, lo1 = 0, hi1 = N;
	switch (sym_param("range", 0)) {
		case 1: hi0 = B + B / 2; lo1 = B / 2; break;
		case 2: hi0 = N / 2; lo1 = N / 2; break;
		case 3: hi0 = B; lo1 = B; break;
		default: break;
	}
	for (size_t i = 0; i < N; ++i) {
		T x = (*cv)[i], e = first[i];
		bool edge = i % B < 2 || i % B > B - 3;
		if (edge && (threw[0] || threw[1])) continue;
		if (edge && writes[0] && i >= lo0 && i < hi0) e = (T)(e + rounds * addOf(0));
		if (edge && writes[1] && i >= lo1 && i < hi1) e = (T)(e + rounds * addOf(1));
		acc |= (T)(x ^ e);
	}
	sym_assert(acc == 0, "every modification is kept and nothing else changes");
	// what the threads leave behind must serve what comes after
	for (unsigned r = 0; r < sym_param("after", 0); ++r) {
		T *now = (T*)malloc(N * sizeof(T)), acc2 = 0;
		for (size_t i = 0; i < N; ++i) now[i] = (*cv)[i];
		for (size_t k = 0; k < N; k += B / 2) { size_t j = (k * 5 + r) % N; (*v)[j] = (T)(now[j] + 5); now[j] = (T)(now[j] + 5); }
		for (size_t i = 0; i < N; ++i) acc2 |= (T)((*cv)[i] ^ now[i]);
		if (r == 1) v->shrink_to_fit();
		for (size_t i = N; i > 0; --i) acc2 |= (T)((*cv)[i - 1] ^ now[i - 1]);
		sym_assert(acc2 == 0, "the vector can be used afterwards");
		free(now);
	}
	delete v;
	free(first);
	sym_cover("end");
	return 0;
}
