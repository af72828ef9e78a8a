// Native implementation of the harness interface: values come from the model file named by SYM_MODEL.
#include "sym.h"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <unistd.h>
struct Rec { std::string name; std::vector<uint8_t> b; };
static std::vector<Rec>* recs;
static size_t pos;
static FILE* out;
static int garbageByte = 0xAA;
static long live; // allocations of the program, not of this file
// requested size of every live allocation
static long liveBytes;
static struct { void* p; size_t n; } tab[1 << 16];
static std::atomic_flag tabLock = ATOMIC_FLAG_INIT;
static void* enter(void* p, size_t n)
{
	if (!p) return p;
	while (tabLock.test_and_set(std::memory_order_acquire)) {}
	size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
	for (unsigned k = 0; k < (1u << 16); ++k, i = (i + 1) & 0xFFFF)
		if (!tab[i].p || tab[i].p == (void*)1 || tab[i].p == p) { tab[i].p = p; tab[i].n = n; liveBytes += (long)n; break; }
	tabLock.clear(std::memory_order_release);
	return p;
}
static void leave(void* p)
{
	if (!p) return;
	while (tabLock.test_and_set(std::memory_order_acquire)) {}
	size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
	for (unsigned k = 0; k < (1u << 16) && tab[i].p; ++k, i = (i + 1) & 0xFFFF)
		if (tab[i].p == p) { liveBytes -= (long)tab[i].n; tab[i].p = (void*)1; break; }
	tabLock.clear(std::memory_order_release);
}
struct Keep { long l = live; ~Keep() { live = l; } };
static void load()
{
	if (recs)
		return;
	Keep k;
	recs = new std::vector<Rec>();
	if (const char* g = getenv("SYM_GARBAGE"))
		garbageByte = (int)strtol(g, 0, 0);
	if (const char* o = getenv("SYM_OUT"))
		out = fopen(o, "w");
	const char* m = getenv("SYM_MODEL");
	FILE* f = m ? fopen(m, "r") : nullptr;
	if (!f)
		return;
	static char line[1 << 20];
	while (fgets(line, sizeof line, f)) {
		char* tab = strchr(line, '\t');
		if (!tab)
			continue;
		*tab = 0;
		Rec r;
		r.name = line;
		for (char* p = tab + 1; p[0] && p[1] && p[0] != '\n'; p += 2) {
			char h[3] = { p[0], p[1], 0 };
			r.b.push_back((uint8_t)strtol(h, 0, 16));
		}
		recs->push_back(r);
	}
	fclose(f);
}
static Rec* nextRec(const char* name)
{
	load();
	while (pos < recs->size() && (*recs)[pos].name[0] == '!')
		++pos;
	if (pos >= recs->size())
		return nullptr;
	Rec* r = &(*recs)[pos];
	if (r->name != name) {
		if (out) { fprintf(out, "MISMATCH wanted %s got %s\n", name, r->name.c_str()); fflush(out); }
		_exit(79);
	}
	++pos;
	return r;
}
static void hex(const char* kind, const char* name, const void* p, size_t n)
{
	load();
	if (!out)
		return;
	fprintf(out, "%s\t%s\t", kind, name);
	for (size_t i = 0; i < n; ++i)
		fprintf(out, "%02x", ((const uint8_t*)p)[i]);
	fprintf(out, "\n");
	fflush(out);
}
static bool armed;
static uint64_t acount;
static std::vector<uint64_t> failAt;
static int failedCount;
static bool failNow()
{
	if (!armed)
		return false;
	uint64_t i = acount++;
	for (uint64_t x : failAt)
		if (x == i) {
			++failedCount;
			return true;
		}
	return false;
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name)
{
	if (n == 0) return;
	Rec* r = nextRec(name);
	memset(p, 0, n);
	if (r)
		memcpy(p, r->b.data(), r->b.size() < n ? r->b.size() : n);
}
void sym_garbage(void* p, size_t n) { load(); memset(p, garbageByte, n); }
static uint64_t num(const char* name, uint64_t lo)
{
	Rec* r = nextRec(name);
	if (!r)
		return lo;
	uint64_t v = 0;
	memcpy(&v, r->b.data(), r->b.size() < 8 ? r->b.size() : 8);
	return v;
}
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t) { return num(name, lo); }
uint64_t sym_fork(const char* name, uint64_t lo, uint64_t) { return num(name, lo); }
uint64_t sym_concretize(uint64_t x) { return x; }
void sym_assume(int c) { if (!c) { load(); if (out) { fprintf(out, "ASSUME\n"); fflush(out); } _exit(78); } }
void sym_fail(const char* msg)
{
	load();
	if (out) { fprintf(out, "FAIL\t%s\n", msg); fflush(out); }
	fprintf(stderr, "property violated: %s\n", msg);
	_exit(77);
}
void sym_assert(int c, const char* msg) { if (!c) sym_fail(msg); }
void sym_cover(const char*) {}
void sym_determined(const void* p, size_t n, const char* msg) { hex("DET", msg, p, n); }
uint64_t sym_param(const char* name, uint64_t def)
{
	char e[100];
	snprintf(e, sizeof e, "SYM_P_%s", name);
	const char* v = getenv(e);
	return v ? strtoull(v, 0, 0) : def;
}
int sym_is_symbolic() { return 0; }
int sym_is_const(uint64_t) { return 1; }
uint64_t sym_heap_live() { return (uint64_t)live; }
uint64_t sym_heap_bytes() { return (uint64_t)liveBytes; }
void sym_alloc_fail(int k)
{
	load();
	Keep keep;
	armed = false;
	acount = 0;
	failAt.clear();
	if (k)
		for (size_t i = pos; i < recs->size() && (int)failAt.size() < k; ++i)
			if ((*recs)[i].name == "!allocfail") {
				uint64_t v = 0;
				memcpy(&v, (*recs)[i].b.data(), (*recs)[i].b.size() < 8 ? (*recs)[i].b.size() : 8);
				failAt.push_back(v);
			}
	armed = k > 0;
}
int sym_alloc_failed() { return failedCount; }
void sym_observe(const void* p, size_t n, const char* name) { hex("OBS", name, p, n); }
void native_sched_start(int) __attribute__((weak));
void sym_sched(int n) { if (native_sched_start) native_sched_start(n); }
void sym_print(const char* msg, uint64_t x) { fprintf(stderr, "%s = %llu\n", msg, (unsigned long long)x); }
int sym_valid(const void*, size_t) { return 1; }

#ifdef SYM_NOWRAP
unsigned _ZNSt6thread20hardware_concurrencyEv() { return (unsigned)sym_param("hw", 1); }
}
#else
// allocation interposition (linked with --wrap)
void* __real_malloc(size_t);
static size_t big() { static const size_t b = getenv("SYM_P_bigmem") ? 6ull << 30 : 1ull << 30; return b; }
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { if (failNow() || n > big()) return nullptr; ++live; return enter(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { if (failNow() || a * b > (1ull << 30)) return nullptr; ++live; return enter(__real_calloc(a, b), a * b); }
void* __wrap_realloc(void* p, size_t n) { if (failNow() || n > big()) return nullptr; if (!p) ++live; leave(p); return enter(__real_realloc(p, n), n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (failNow() || n > big()) return nullptr; ++live; return enter(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (failNow() || n > big()) return 12; ++live; int r = __real_posix_memalign(p, a, n); if (!r) enter(*p, n); return r; }
void __wrap_free(void* p) { if (p) --live; leave(p); __real_free(p); }
void* __real__Znwm(size_t);
void* __real__Znam(size_t);
void __real__ZdlPv(void*);
void __real__ZdlPvm(void*, size_t);
void __real__ZdaPv(void*);
void __real__ZdaPvm(void*, size_t);
unsigned __real__ZNSt6thread20hardware_concurrencyEv() __attribute__((weak));
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return (unsigned)sym_param("hw", 1); }
void* __wrap__Znwm(size_t n) { if (failNow() || n > big()) throw std::bad_alloc(); ++live; return enter(__real__Znwm(n), n); }
void* __wrap__Znam(size_t n) { if (failNow() || n > big()) throw std::bad_alloc(); ++live; return enter(__real__Znam(n), n); }
void __wrap__ZdlPv(void* p) { if (p) --live; leave(p); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { if (p) --live; leave(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPv(void* p) { if (p) --live; leave(p); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void* p, size_t n) { if (p) --live; leave(p); __real__ZdaPvm(p, n); }
}
#include "stenos/internal/simd.h"
extern "C" stenos::CPUFeatures __real__ZN6stenos6detail19compute_cpu_featureEv() __attribute__((weak));
extern "C" stenos::CPUFeatures __wrap__ZN6stenos6detail19compute_cpu_featureEv()
{
	stenos::CPUFeatures f = __real__ZN6stenos6detail19compute_cpu_featureEv();
	const char* c = getenv("SYM_P_cpu");
	if (c && strcmp(c, "avx2")) {
		f.HAS_AVX = f.HAS_AVX2 = f.HAS_BMI1 = f.HAS_BMI2 = false;
		if (strcmp(c, "sse41"))
			f.HAS_SSE3 = f.HAS_SSSE3 = f.HAS_SSE41 = f.HAS_SSE42 = false;
		if (!strcmp(c, "none"))
			f.HAS_SSE = f.HAS_SSE2 = f.HAS_MMX = false;
	}
	if (getenv("SYM_P_nobmi2"))
		f.HAS_BMI2 = false;
	return f;
}
#endif
