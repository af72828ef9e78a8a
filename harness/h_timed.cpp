// compression with a time limit, for any behaviour of the clock
#include "hcommon.h"
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int threads = (int)sym_param("threads", 1);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	uint64_t ns = sym_param("ns", 1000000);
	uint8_t* src = exact(n);
	input(src, n, bpp);
	size_t bound = stenos_bound(n);
	uint8_t *dst = exact(bound), *out = exact(n);
	stenos_context* c = stenos_make_context();
	stenos_set_threads(c, threads);
	stenos_set_max_nanoseconds(c, ns);
	clock_around(ns, (unsigned)sym_param("clocks", 3));
	env::fixed_step = sym_param("tick", 100);
	env::watch(ns);
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, bound);
	sym_assert(!stenos_has_error(r), "compression succeeds whatever the clock says");
	// the clock was seen past the limit: at most the work in progress goes on
	if (env::expired())
		sym_cover("expired");
	sym_assert(env::zcalls_expired() <= (threads == 1 ? 0 : (unsigned)threads), "no further entropy compression starts once the time is known to be spent");
	SYM_OBS(r, "csize");
	stenos_info i;
	sym_assert(!stenos_has_error(stenos_get_info(dst, bpp, r, &i)) && i.decompressed_size == n, "get_info reports the size");
	sym_assert(stenos_decompress(dst, bpp, r, out, n) == n, "decompression succeeds whatever the clock said");
	sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
	// the limit is gone
	stenos_set_max_nanoseconds(c, 0);
	stenos_set_threads(c, 1);
	stenos_set_level(c, 1);
	unsigned small = (unsigned)(n < 64 * bpp ? n : 64 * bpp);
	size_t r1 = stenos_compress_generic(c, src, bpp, small, dst, bound), r2 = stenos_compress(src, bpp, small, out, n > 4096 ? n : 0, 1);
	if (n > 4096)
		sym_assert(r1 == r2, "a later compression without limit is not affected");
	stenos_destroy_context(c);
	sym_cover("end");
	return 0;
}
