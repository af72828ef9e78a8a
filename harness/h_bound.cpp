// compression into destinations of every size: within the buffer, an error or a valid frame
#include "hcommon.h"
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int level = (int)sym_param("level", 1), threads = (int)sym_param("threads", 1);
	size_t shift = sym_param("shift", 255);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	uint8_t* src = exact(n);
	input(src, n, bpp);
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, level);
	stenos_set_threads(c, threads);
	if (shift != 255)
		stenos_set_block_size(c, shift);
	// any size of [lo,hi] (step apart)
	uint64_t lo = sym_param("lo", 0), hi = sym_param("hi", 40), step = sym_param("step", 1);
	if (sym_param("around", 0)) { // relative to the size of the frame
		size_t b = frame_bound(n, bpp, shift);
		uint8_t* big = exact(b);
		size_t r = (size_t)sym_concretize(stenos_compress_generic(c, src, bpp, n, big, b));
		sym_assert(!stenos_has_error(r), "a destination of the documented bound is enough");
		free(big);
		lo = r > lo ? r - lo : 0;
		hi = r + hi;
	}
	size_t cap = (size_t)(lo + step * sym_fork("capacity", 0, (hi - lo) / step));
	uint8_t* dst = exact(cap);
	sym_garbage(dst, cap);
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, cap);
	SYM_OBS(r, "csize");
	sym_determined(&r, sizeof r, "result depends only on the input and the capacity");
	sym_assert(stenos_has_error(r) || r <= cap, "compressed size within the capacity");
	if (!stenos_has_error(r)) {
		sym_determined(dst, r, "all bytes of the frame are written");
		uint8_t* copy = exact(r);
		memcpy(copy, dst, r);
		uint8_t* out = exact(n);
		size_t r2 = stenos_decompress(copy, bpp, r, out, n);
		sym_assert(r2 == n, "a frame written to a small destination decompresses");
		sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
		free(copy); free(out);
		sym_cover("fits");
	}
	else
		sym_cover("error");
	if (cap >= frame_bound(n, bpp, shift))
		sym_assert(!stenos_has_error(r), "a destination of the documented bound is enough");
	free(src); free(dst);
	stenos_destroy_context(c);
	return 0;
}
