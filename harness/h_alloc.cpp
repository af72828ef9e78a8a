// any allocation may fail: an error or a correct result, no leak, the context stays usable
#include "hcommon.h"
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int level = (int)sym_param("level", 2), threads = (int)sym_param("threads", 1);
	size_t shift = sym_param("shift", 255);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	uint8_t* src = exact(n);
	input(src, n, bpp);
	size_t bound = frame_bound(n, bpp, shift);
	uint8_t *dst = exact(bound), *out = exact(n);
	if (sym_param("warm", 1)) { // thread local state of the library exists
		stenos_context* w = stenos_make_context();
		stenos_set_level(w, level);
		size_t r = stenos_compress_generic(w, src, bpp, n, dst, bound);
		stenos_decompress_generic(w, dst, bpp, r, out, n);
		stenos_destroy_context(w);
	}
	uint64_t live = sym_heap_live();
	sym_alloc_fail((int)sym_param("fails", 1));
	stenos_context* c = stenos_make_context();
	if (!c) {
		sym_cover("no context");
		sym_assert(sym_alloc_failed() > 0, "a context is made when memory is available");
		return 0;
	}
	stenos_set_level(c, level);
	stenos_set_threads(c, threads);
	if (shift != 255)
		stenos_set_block_size(c, shift);
	if (sym_param("ns", 0))
		stenos_set_max_nanoseconds(c, sym_param("ns", 0));
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, bound);
	if (stenos_has_error(r)) {
		sym_assert(sym_alloc_failed() > 0, "compression succeeds when memory is available");
		sym_cover("compression error");
	}
	else {
		size_t r2 = stenos_decompress_generic(c, dst, bpp, r, out, n);
		sym_assert(r2 == n || (stenos_has_error(r2) && sym_alloc_failed() > 0), "decompression succeeds or reports the failure");
		if (r2 == n)
			sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
		else
			sym_cover("decompression error");
	}
	sym_alloc_fail(0);
	// memory is back
	r = stenos_compress_generic(c, src, bpp, n, dst, bound);
	sym_assert(!stenos_has_error(r), "the context works again when memory is back");
	memset(out, 0, n);
	sym_assert(stenos_decompress_generic(c, dst, bpp, r, out, n) == n, "decompression works again when memory is back");
	sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
	stenos_destroy_context(c);
	if (sym_param("warm", 1) && threads <= 1)
		sym_assert(sym_heap_live() <= live, "no memory is lost");
	sym_cover("end");
	return 0;
}
