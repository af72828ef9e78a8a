// the entropy coder may fail, expand, or fill the destination at any call
#include "hcommon.h"
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int level = (int)sym_param("level", 2), threads = (int)sym_param("threads", 1);
	size_t shift = sym_param("shift", 255);
	env::zmodes = (unsigned)sym_param("zmodes", 127);
	env::guess = (int)sym_param("guess", 1);
	uint64_t ns = sym_param("ns", 0);
	if (ns)
		clock_around(ns, (unsigned)sym_param("clocks", 2));
	uint8_t* src = exact(n);
	input(src, n, bpp);
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	stenos_set_threads(c, threads);
	if (shift != 255)
		stenos_set_block_size(c, shift);
	if (ns)
		stenos_set_max_nanoseconds(c, ns);
	size_t bound = frame_bound(n, bpp, shift) - sym_param("less", 0);
	uint8_t *dst = exact(bound), *out = exact(n);
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, bound);
	SYM_OBS(r, "csize");
	if (stenos_has_error(r)) {
		sym_assert(env::zerrors > 0 || sym_param("less", 0), "compression fails only if the entropy coder failed");
		sym_cover("error");
	}
	else {
		sym_assert(r <= bound, "compressed size within the destination");
		r = (size_t)sym_concretize(r);
		uint8_t* copy = exact(r);
		memcpy(copy, dst, r);
		sym_assert(stenos_decompress_generic(c, copy, bpp, r, out, n) == n, "decompression succeeds");
		sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
		free(copy);
		sym_cover("success");
	}
	// no failure any more: the context works
	env::zmodes = 2;
	env::reset_zstd();
	stenos_set_max_nanoseconds(c, 0);
	size_t bd = frame_bound(n, bpp, shift);
	uint8_t* d2 = exact(bd);
	r = stenos_compress_generic(c, src, bpp, n, d2, bd);
	sym_assert(!stenos_has_error(r), "the context works after a failure");
	memset(out, 0, n);
	sym_assert(stenos_decompress_generic(c, d2, bpp, r, out, n) == n, "decompression succeeds");
	sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
	stenos_destroy_context(c);
	sym_cover("end");
	return 0;
}
