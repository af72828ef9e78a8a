// Harness interface. Interpreted by engine/symx (values are symbolic) and implemented by native_rt.cpp (values
// come from a model, so that a counterexample found by the solver is replayed against the natively built code).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);	     // n unconstrained input bytes
void sym_garbage(void* p, size_t n);			     // n bytes the property must not depend on
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi); // any value of [lo,hi], kept symbolic
uint64_t sym_fork(const char* name, uint64_t lo, uint64_t hi); // any value of [lo,hi], one path each
uint64_t sym_concretize(uint64_t x);			     // one path per feasible value
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_fail(const char* msg);
void sym_cover(const char* msg);
void sym_determined(const void* p, size_t n, const char* msg); // the bytes are a function of the inputs only
uint64_t sym_param(const char* name, uint64_t def);
int sym_is_symbolic();
int sym_is_const(uint64_t x);
uint64_t sym_heap_live();
uint64_t sym_heap_bytes();
void sym_alloc_fail(int k); // at most k of the following allocations fail, any ones
int sym_alloc_failed();
void sym_sched(int n); // n>0: explore all thread schedules with at most n-1 preemptions
void sym_observe(const void* p, size_t n, const char* name); // compared with the native run
void sym_print(const char* msg, uint64_t x);
int sym_valid(const void* p, size_t n);
}
static inline uint8_t sym_differs(const void* a, const void* b, size_t n)
{
	uint8_t acc = 0;
	for (size_t i = 0; i < n; ++i)
		acc |= (uint8_t)(((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]);
	return acc;
}
#define SYM_OBS(v, name)                          \
	do {                                      \
		uint64_t _o = (uint64_t)(v);      \
		sym_observe(&_o, sizeof(_o), name); \
	} while (0)
