// the same input gives the same frame, whatever happened before with the context, the number of threads, the place of the buffers
#include "hcommon.h"
#include "stenos/internal/simd.h"
static size_t bpp, n, bound;
static uint8_t *src, *out;
static int level;
static void set(stenos_context* c)
{
	stenos_set_level(c, level);
	if (sym_param("shift", 255) != 255)
		stenos_set_block_size(c, sym_param("shift", 255));
	if (uint64_t ns = sym_param("ns", 0)) { // with a time limit and the same clock every time
		stenos_set_max_nanoseconds(c, ns);
		env::fixed_step = sym_param("tick", 1000);
		env::t = 5000000000ull;
	}
}
// other data goes through the buffers that are kept between calls
static void prime(unsigned kind)
{
	size_t b = sym_param("pbpp", 4), k = 1024 * b;
	uint8_t* s = exact(k);
	background(s, k, b, kind);
	size_t bd = stenos_bound(k);
	uint8_t* d = exact(bd);
	sym_assert(!stenos_has_error(stenos_compress(s, b, k, d, bd, 1)), "compression succeeds");
	free(s);
	free(d);
}
// something else done with a context before it is used
static void history(stenos_context* c, unsigned what)
{
	size_t hb = sym_param("hbpp", 3), hn = sym_param("hn", 200) * hb;
	uint8_t* s = exact(hn);
	background(s, hn, hb, 5);
	size_t bd = stenos_bound(hn) + 64;
	uint8_t* d = exact(bd);
	switch (what) {
		case 0: break;
		case 1: // compress and decompress another input with other parameters
			stenos_set_level(c, 3);
			stenos_set_threads(c, 2);
			stenos_set_block_size(c, 0);
			{
				size_t r = stenos_compress_generic(c, s, hb, hn, d, bd);
				sym_assert(!stenos_has_error(r), "compression succeeds");
				sym_assert(stenos_decompress_generic(c, d, hb, r, s, hn) == hn, "decompression succeeds");
			}
			break;
		case 2: // failures
			stenos_set_level(c, 2);
			sym_assert(stenos_has_error(stenos_compress_generic(c, s, hb, hn, d, 9)), "too small destination");
			sym_assert(stenos_has_error(stenos_compress_generic(c, s, 0, hn, d, bd)), "element size 0");
			background(d, 30, 1, 1);
			d[0] = 0; memset(d + 1, 0, 7); d[1] = 100;
			sym_assert(stenos_has_error(stenos_decompress_generic(c, d, 1, 30, s, hn)), "not a frame");
			break;
		case 3: // a time limit that expires
			clock_around(1000, 0);
			env::fixed_step = 3000;
			stenos_set_max_nanoseconds(c, 1000);
			stenos_compress_generic(c, s, hb, hn, d, bd);
			env::fixed_step = 100;
			break;
		case 4: // decompression of a frame with a custom superblock size
		{
			size_t r = 0;
			stenos_context* o = stenos_make_context();
			stenos_set_block_size(o, 1);
			r = stenos_compress_generic(o, s, hb, hn, d, bd);
			stenos_destroy_context(o);
			sym_assert(stenos_decompress_generic(c, d, hb, r, s, hn) == hn, "decompression succeeds");
			break;
		}
		case 6: // the same amount of data with a time limit that does not expire
			clock_around(1, 0);
			env::fixed_step = sym_param("hstep", 1000);
			stenos_set_max_nanoseconds(c, sym_param("hns", 100000000));
			{
				uint8_t* s6 = exact(n);
				background(s6, n, bpp, 3);
				uint8_t* d6 = exact(bound);
				stenos_compress_generic(c, s6, bpp, n, d6, bound);
				free(s6); free(d6);
			}
			env::fixed_step = 100;
			break;
		default:
			stenos_private_compress_block(c, s, hb, hb * 256, hb * 100, d, bd);
			break;
	}
	free(s);
	free(d);
	stenos_set_max_nanoseconds(c, 0);
	if (sym_param("reset", 0))
		stenos_reset_context(c);
	else {
		stenos_set_threads(c, 1);
		stenos_set_block_size(c, STENOS_NO_BLOCK_SHIFT);
	}
}
int main()
{
	bpp = sym_param("bpp", 2);
	n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	level = (int)sym_param("level", 1);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	src = exact(n);
	input(src, n, bpp);
	bound = frame_bound(n, bpp, sym_param("shift", 255));
	out = exact(n);
	uint8_t* d1 = exact(bound);
	sym_garbage(d1, bound);
	if (sym_param("prime", 0))
		prime(0);
	stenos_context* a = stenos_make_context();
	set(a);
	size_t r1 = stenos_compress_generic(a, src, bpp, n, d1, bound);
	sym_assert(!stenos_has_error(r1), "compression succeeds");
	r1 = (size_t)sym_concretize(r1);
	sym_determined(d1, r1, "the frame depends only on the input");
	SYM_OBS(r1, "csize");
	sym_observe(d1, r1, "frame");
	// second time
	size_t off = sym_param("off", 0);
	uint8_t* s2 = exact(n + off) + off;
	memcpy(s2, src, n);
	uint8_t* d2 = exact(bound + off) + off;
	background(d2, bound, 1, 1);
	stenos_context* b = stenos_make_context();
	unsigned what = (unsigned)sym_param("history", 0);
	if (what == 99)
		what = (unsigned)sym_fork("history", 1, 5);
	history(b, what);
	if (sym_param("prime", 0))
		prime(1);
	set(b);
	stenos_set_threads(b, (int)sym_param("threads", 1));
	size_t r2 = stenos_compress_generic(b, s2, bpp, n, d2, bound);
	sym_assert(r1 == r2, "same compressed size");
	sym_assert(sym_differs(d1, d2, r1) == 0, "same frame");
	// decompression with the used context
	size_t r3 = stenos_decompress_generic(b, d1, bpp, r1, out, n);
	sym_assert(r3 == n, "decompression succeeds");
	sym_assert(sym_differs(out, src, n) == 0, "decompressed data equals the original");
	// and with one thread
	stenos_set_threads(b, 1);
	memset(out, 0, n);
	sym_assert(stenos_decompress_generic(b, d1, bpp, r1, out, n) == n, "decompression succeeds");
	sym_assert(sym_differs(out, src, n) == 0, "decompressed data equals the original");
	stenos_destroy_context(a);
	stenos_destroy_context(b);
	sym_cover("end");
	return 0;
}
