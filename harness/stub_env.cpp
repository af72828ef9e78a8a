// Environment model used on both sides (symbolic and native): zstd, the clock, the LZ4 size guess.
// zstd contract: compression returns an error or a size <= capacity; decompressing exactly those bytes gives the
// source back; decompressing anything else gives an error or at most `capacity` arbitrary bytes.
#include "sym.h"
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <zstd.h>
#include <zstd_errors.h>

namespace env
{
	struct Rec { size_t n, c; int level; uint8_t* data; };
	static const unsigned MAXREC = 64;
	Rec recs[MAXREC];
	unsigned nrec = 0;
	// memory of the model: not part of the heap of the program
	static uint8_t store[8 << 20];
	static size_t used = 0;
	static uint8_t* take(size_t n)
	{
		n = (n + 31) & ~(size_t)15;
		if (used + n > sizeof store)
			return nullptr;
		used += n;
		return store + used - n;
	}
	// what the compressor is allowed to do: bit0 error, bit1 short frame, bit2 incompressible (n + overhead), bit3 fills the capacity,
	// bit4 one byte less than the source, bit5 other error, bit6 other error (a code above 100)
	unsigned zmodes = 2;
	// what the decompressor may do with unknown data: bit0 error, bit1 returns 0, bit2 fills capacity, bit3 one byte less, bit4 (n) symbolic data
	unsigned dmodes = 1;
	unsigned zcalls = 0, zerrors = 0;
	uint64_t zbytes = 0;
	bool cctx_may_fail = false;
#ifdef SYMX
	struct Guard {};
#else
	// (neither seen by the schedule replay nor by the race detector)
	static char lck = 0;
	struct Guard
	{
		Guard() { while (__atomic_test_and_set(&lck, __ATOMIC_ACQUIRE)) {} }
		~Guard() { __atomic_clear(&lck, __ATOMIC_RELEASE); }
	};
#endif
	static const size_t HDR = 9;
	static size_t err(ZSTD_ErrorCode c) { return (size_t)0 - (size_t)c; }
	static unsigned pick(const char* name, unsigned mask, unsigned n)
	{
		unsigned opt[8], k = 0;
		for (unsigned i = 0; i < n; ++i)
			if (mask >> i & 1)
				opt[k++] = i;
		if (k == 0)
			return 0;
		return opt[k == 1 ? 0 : sym_fork(name, 0, k - 1)];
	}
	// clock
	uint64_t t = 1000000000ull;
	const uint64_t* steps = nullptr; // possible increments
	unsigned nsteps = 0;
	unsigned forks_left = 0; // further reads advance by a fixed step
	uint64_t fixed_step = 100;
	uint64_t maxs = 1ull << 34;
	bool symclock = false;	 // any clock: seconds and nanoseconds are independent values
	uint64_t cs = 0, cn = 0;
	uint64_t last = 0;	 // last value given
	bool watched = false, isExpired = false;
	uint64_t t_watch = 0, limit = 0;
	unsigned zcalls_at = 0;
	bool started = false;
	// the limit counts from the first reading of the clock
	void watch(uint64_t ns) { watched = true; isExpired = started = false; limit = ns + 2 * fixed_step; }
	bool expired() { return isExpired; }
	unsigned zcalls_expired() { return isExpired ? zcalls - zcalls_at : 0; }
	// lz4 guess
	int guess = 0; // 0: concrete "compressible", 1: arbitrary
}

extern "C" {
ZSTD_CCtx* __attribute__((noinline)) ZSTD_createCCtx(void) { return (ZSTD_CCtx*)malloc(64); }
size_t ZSTD_freeCCtx(ZSTD_CCtx* c) { free(c); return 0; }
int ZSTD_maxCLevel(void) { return 22; }
unsigned ZSTD_isError(size_t r) { return r > (size_t)-120; }
ZSTD_ErrorCode ZSTD_getErrorCode(size_t r) { return ZSTD_isError(r) ? (ZSTD_ErrorCode)((size_t)0 - r) : ZSTD_error_no_error; }
const char* ZSTD_getErrorName(size_t) { return "error"; }
size_t ZSTD_compressBound(size_t n) { return n + (n >> 8) + (n < (128 << 10) ? (((128 << 10) - n) >> 11) : 0); }
// writes the model frame of a record
static size_t env_emit(unsigned k, void* dst, size_t cap)
{
	using namespace env;
	Rec& r = recs[k];
	if (r.c > cap) { // refused, or the destination is too small
		++zerrors;
		return err(r.c == (size_t)-2 ? ZSTD_error_memory_allocation : r.c == (size_t)-3 ? (ZSTD_ErrorCode)118 : ZSTD_error_dstSize_tooSmall);
	}
	uint8_t* o = (uint8_t*)dst;
	memset(o, 0x5A, r.c);
	o[0] = 0x28; o[1] = 0xB5; o[2] = 0x2F; o[3] = 0xFD;
	o[4] = (uint8_t)k;
	o[5] = (uint8_t)r.c; o[6] = (uint8_t)(r.c >> 8);
	return r.c;
}
size_t ZSTD_compressCCtx(ZSTD_CCtx*, void* dst, size_t cap, const void* src, size_t n, int level)
{
	using namespace env;
	Guard g;
	n = (size_t)sym_concretize(n);
	++zcalls;
	zbytes += n;
	// the same call gives the same answer
	for (unsigned k = 0; k < nrec; ++k)
		if (recs[k].n == n && recs[k].level == level) {
			uint8_t d = sym_differs(recs[k].data, src, n);
			if (sym_is_const(d) && d == 0)
				return env_emit(k, dst, cap);
		}
	if (nrec >= MAXREC) {
		++zerrors;
		return err(ZSTD_error_memory_allocation);
	}
	size_t c = 0;
	switch (pick("zstd.c", zmodes, 7)) {
		case 0: c = (size_t)-1; break;
		case 1: c = HDR + n / 8; break;
		case 2: c = HDR + n + 3; break;
		case 3: c = (size_t)sym_concretize(cap); break;
		case 4: c = n - 1; break;
		case 5: c = (size_t)-2; break;
		default: c = (size_t)-3; break;
	}
	if (c < HDR)
		c = HDR;
	Rec& r = recs[nrec++];
	r.n = n;
	r.c = c;
	r.level = level;
	r.data = take(n);
	if (!r.data) {
		--nrec;
		++zerrors;
		return err(ZSTD_error_memory_allocation);
	}
	memcpy(r.data, src, n);
	return env_emit(nrec - 1, dst, cap);
}
size_t ZSTD_compress_usingCDict(ZSTD_CCtx* c, void* dst, size_t cap, const void* src, size_t n, const ZSTD_CDict*) { return ZSTD_compressCCtx(c, dst, cap, src, n, 1); }
size_t ZSTD_compress(void* dst, size_t cap, const void* src, size_t n, int l) { return ZSTD_compressCCtx(nullptr, dst, cap, src, n, l); }
static int env_known(const uint8_t* s, size_t n)
{
	using namespace env;
	if (n < HDR || nrec == 0 || !sym_is_const(s[0]) || !sym_is_const(s[1]) || !sym_is_const(s[2]) || !sym_is_const(s[3]) || !sym_is_const(s[4]) || !sym_is_const(s[5]) || !sym_is_const(s[6]))
		return -1;
	if (s[0] != 0x28 || s[1] != 0xB5 || s[2] != 0x2F || s[3] != 0xFD || s[4] >= nrec)
		return -1;
	Rec& r = recs[s[4]];
	if (r.c != n)
		return -1; // (a refused record has no frame)
	for (size_t i = 5; i < n; ++i) {
		uint8_t want = i == 5 ? (uint8_t)n : i == 6 ? (uint8_t)(n >> 8) : 0x5A;
		if (!sym_is_const(s[i]) || s[i] != want)
			return -1;
	}
	return s[4];
}
size_t ZSTD_decompress(void* dst, size_t cap, const void* src, size_t n)
{
	using namespace env;
	env::Guard g;
	n = (size_t)sym_concretize(n);
	volatile uint8_t sink = 0;
	if (n) { // zstd reads its whole input
		sink = ((const uint8_t*)src)[0];
		sink = ((const uint8_t*)src)[n - 1];
	}
	(void)sink;
	int k = env_known((const uint8_t*)src, n);
	if (k >= 0) {
		Rec& r = recs[k];
		if (r.n > cap)
			return err(ZSTD_error_dstSize_tooSmall);
		memcpy(dst, r.data, r.n);
		return r.n;
	}
	cap = (size_t)sym_concretize(cap);
	size_t m;
	switch (pick("zstd.d", dmodes, 4)) {
		case 0: return err(ZSTD_error_corruption_detected);
		case 1: m = 0; break;
		case 2: m = cap; break;
		default: m = cap ? cap - 1 : 0; break;
	}
	if (m > (1u << 24)) { // (too many to follow: the first and last bytes, what lies between keeps its value)
		sym_bytes(dst, 64, "zstd.out");
		sym_bytes((uint8_t*)dst + m - 64, 64, "zstd.out");
	}
	else if (m)
		sym_bytes(dst, m, "zstd.out");
	return m;
}
size_t ZSTD_decompressDCtx(ZSTD_DCtx*, void* dst, size_t cap, const void* src, size_t n) { return ZSTD_decompress(dst, cap, src, n); }

static uint64_t env_now()
{
	using namespace env;
	Guard g;
	if (symclock) {
		uint64_t s2 = 0;
		uint32_t n2 = 0;
		sym_bytes(&s2, 8, "clock.s");
		sym_bytes(&n2, 4, "clock.ns");
		sym_assume((n2 < 1000000000) & ((s2 > cs) | ((s2 == cs) & (n2 >= cn))) & (s2 < maxs)); // monotonic
		cs = s2;
		cn = n2;
		return last = cs * 1000000000ull + cn;
	}
	if (steps && forks_left) {
		--forks_left;
		t += steps[sym_fork("clock", 0, nsteps - 1)];
	}
	else
		t += fixed_step;
	if (watched && !started) {
		started = true;
		t_watch = t;
	}
	if (watched && !isExpired && t - t_watch > limit) {
		isExpired = true;
		zcalls_at = zcalls;
	}
	return last = t;
}
#ifdef SYMX
int clock_gettime(clockid_t, struct timespec* ts) noexcept
#else
int __wrap_clock_gettime(clockid_t, struct timespec* ts)
#endif
{
	uint64_t v = env_now();
	if (env::symclock) {
		ts->tv_sec = (time_t)env::cs;
		ts->tv_nsec = (long)env::cn;
		return 0;
	}
	ts->tv_sec = (time_t)(v / 1000000000ull);
	ts->tv_nsec = (long)(v % 1000000000ull);
	return 0;
}
}
namespace env
{
	void reset_zstd()
	{
		used = 0;
		nrec = 0;
		zcalls = zerrors = 0;
		zbytes = 0;
	}
}
