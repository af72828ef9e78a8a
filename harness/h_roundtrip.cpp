// compress/decompress round trip through the public API.
#include "hcommon.h"
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int level = (int)sym_param("level", 1), threads = (int)sym_param("threads", 1);
	size_t shift = sym_param("shift", 255);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	uint64_t ns = sym_param("ns", 0);
	if (ns)
		clock_around(ns, (unsigned)sym_param("clocks", 3));
	uint8_t* src = exact(n);
	input(src, n, bpp);
	uint8_t* keep = exact(n);
	memcpy(keep, src, n);
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	stenos_set_threads(c, threads);
	if (shift != 255)
		stenos_set_block_size(c, shift);
	if (ns)
		stenos_set_max_nanoseconds(c, ns);
	size_t bound = frame_bound(n, bpp, shift);
	uint8_t* dst = exact(bound);
	size_t r = sym_param("simple", 0) ? stenos_compress(src, bpp, n, dst, bound, level) : stenos_compress_generic(c, src, bpp, n, dst, bound);
	sym_assert(!stenos_has_error(r), "compression into a buffer of the documented bound succeeds");
	sym_assert(r <= bound, "compressed size does not exceed the destination");
	sym_determined(&r, sizeof r, "compressed size depends only on the input");
	SYM_OBS(r, "csize");
	sym_observe(dst, r, "frame");
	sym_assert(sym_differs(src, keep, n) == 0, "compression does not modify its input");
	uint8_t* copy = exact(r);
	memcpy(copy, dst, r);
	stenos_info info;
	size_t g = stenos_get_info(copy, bpp, r, &info);
	sym_assert(!stenos_has_error(g) && info.decompressed_size == n, "get_info reports the original size");
	uint8_t* out = exact(n);
	stenos_context* d = stenos_make_context();
	stenos_set_threads(d, sym_param("dthreads", (uint64_t)threads));
	size_t r2 = sym_param("simple", 0) ? stenos_decompress(copy, bpp, r, out, n) : stenos_decompress_generic(d, copy, bpp, r, out, n);
	sym_assert(r2 == n, "decompression of a compressed frame succeeds");
	sym_determined(out, n, "decompressed data depends only on the frame");
	sym_assert(sym_differs(keep, out, n) == 0, "decompressed data equals the original");
	free(src); free(dst); free(copy); free(out); free(keep);
	stenos_destroy_context(c);
	stenos_destroy_context(d);
	sym_cover("end");
	return 0;
}
