// several threads compress and decompress: every schedule gives what one thread gives, and nothing races
#include "hcommon.h"
#include <thread>
static size_t bpp, n, cap;
static int level;
static uint8_t *src, *ref;
static size_t refsize;
static stenos_context* make(int threads)
{
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	stenos_set_block_size(c, sym_param("shift", 0));
	stenos_set_threads(c, threads);
	if (uint64_t ns = sym_param("ns", 0))
		stenos_set_max_nanoseconds(c, ns);
	return c;
}
static void user(stenos_context* c, uint8_t* dst, uint8_t* out)
{
	bool timed = sym_param("ns", 0) != 0;
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, cap);
	bool failed = sym_alloc_failed() != 0;
	if (sym_param("small", 0))
		sym_assert(stenos_has_error(r), "the destination is too small");
	else if (!failed && !stenos_has_error(r)) {
		if (!timed)
			sym_assert(r == refsize && sym_differs(dst, ref, r) == 0, "the frame does not depend on threads");
		r = (size_t)sym_concretize(r);
	}
	else
		sym_assert(failed, "compression succeeds");
	const uint8_t* f = ref;
	size_t fs = refsize;
	if (!stenos_has_error(r) && !sym_param("small", 0)) {
		f = dst;
		fs = r;
	}
	if (sym_param("noread", 0))
		return;
	size_t d = stenos_decompress_generic(c, f, bpp, fs, out, n);
	if (stenos_has_error(d))
		sym_assert(sym_alloc_failed() != 0, "decompression succeeds");
	else
		sym_assert(d == n && sym_differs(out, src, n) == 0, "decompressed data equals the original");
}
int main()
{
	bpp = sym_param("bpp", 2);
	n = sym_param("n", 600) * bpp + sym_param("extra", 0);
	level = (int)sym_param("level", 1);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	unsigned users = (unsigned)sym_param("users", 1), threads = (unsigned)sym_param("threads", 2);
	src = exact(n);
	input(src, n, bpp);
	cap = frame_bound(n, bpp, sym_param("shift", 0));
	ref = exact(cap);
	{ // the reference: one thread, no schedule
		stenos_context* c = make(1);
		stenos_set_max_nanoseconds(c, 0);
		refsize = stenos_compress_generic(c, src, bpp, n, ref, cap);
		sym_assert(!stenos_has_error(refsize), "compression succeeds");
		refsize = (size_t)sym_concretize(refsize);
		stenos_destroy_context(c);
	}
	if (uint64_t small = sym_param("small", 0))
		cap = refsize - small;
	else if (sym_param("tight", 0))
		cap = refsize;
	if (uint64_t ns = sym_param("ns", 0))
		clock_around(ns, (unsigned)sym_param("clocks", 2));
	stenos_context* c[3];
	uint8_t *dst[3], *out[3];
	for (unsigned u = 0; u < users; ++u) {
		c[u] = make((int)threads);
		dst[u] = exact(cap);
		out[u] = exact(n);
		if (sym_param("warm", 0)) { // buffers exist already
			stenos_compress_generic(c[u], src, bpp, n, dst[u], cap);
			memset(dst[u], 0, cap);
		}
	}
	sym_sched((int)sym_param("preempt", 1) + 1);
	std::thread t[2];
	for (unsigned u = 1; u < users; ++u) {
		stenos_context* cu = c[u];
		uint8_t *du = dst[u], *ou = out[u];
		t[u - 1] = std::thread([cu, du, ou]() { user(cu, du, ou); });
	}
	if (uint64_t f = sym_param("fails", 0))
		sym_alloc_fail((int)f);
	user(c[0], dst[0], out[0]);
	for (unsigned u = 1; u < users; ++u)
		t[u - 1].join();
	sym_alloc_fail(0);
	sym_sched(0);
	for (unsigned u = 0; u < users; ++u) {
		if (sym_param("fails", 0)) { // the context still works
			size_t r = stenos_compress_generic(c[u], src, bpp, n, dst[u], cap);
			sym_assert(r == refsize && sym_differs(dst[u], ref, r) == 0, "the frame does not depend on threads");
		}
		stenos_destroy_context(c[u]);
	}
	sym_cover("end");
	return 0;
}
