// parameters: any value is accepted or refused with an error, never undefined
#include "hcommon.h"
int main()
{
	unsigned mode = (unsigned)sym_param("mode", 0);
	env::zmodes = 2;
	if (mode == 0) { // element sizes
		size_t bpp = sym_u64("bytesoftype", 0, ~0ull), n = sym_param("n", 24);
		uint8_t src[64], dst[128], out[64];
		background(src, 64, 1, 4);
		sym_bytes(src, 2, "src");
		bool good = bpp > 0 && bpp < 65535;
		int level = (int)sym_param("level", 0);
		size_t r = stenos_compress(src, bpp, n, dst, sizeof dst, level);
		SYM_OBS(stenos_has_error(r), "error");
		sym_assert(!!stenos_has_error(r) == !good, "exactly the element sizes 1 to 65534 are accepted");
		size_t r0 = stenos_decompress(dst, bpp, good ? r : 40, out, n);
		if (!good)
			sym_assert(stenos_has_error(r0), "invalid element sizes are refused by the decompression");
		else {
			sym_assert(r0 == n, "decompression succeeds");
			sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
		}
		sym_cover(good ? "accepted" : "refused");
	}
	else if (mode == 1) { // level: clamped to 0..9
		int level = (int)(int64_t)sym_u64("level", 0, 0xFFFFFFFFull);
		size_t bpp = sym_param("bpp", 2), n = 256 * bpp;
		uint8_t* src = exact(n);
		background(src, n, bpp, 2);
		if (level >= 0 && level <= 9)
			level = (int)sym_concretize((uint64_t)level);
		stenos_context *a = stenos_make_context(), *b = stenos_make_context();
		sym_assert(!stenos_has_error(stenos_set_level(a, level)), "every level is accepted");
		int want = level < 0 ? 0 : level > 9 ? 9 : level;
		want = (int)sym_concretize((uint64_t)want);
		stenos_set_level(b, want);
		size_t bd = stenos_bound(n);
		uint8_t *d1 = exact(bd), *d2 = exact(bd);
		size_t r1 = stenos_compress_generic(a, src, bpp, n, d1, bd), r2 = stenos_compress_generic(b, src, bpp, n, d2, bd);
		size_t r3 = 0;
		sym_assert(!stenos_has_error(r1) && r1 == r2 && sym_differs(d1, d2, (size_t)sym_concretize(r1)) == 0, "a level outside 0..9 is the nearest one");
		uint8_t* d3 = exact(bd);
		r3 = stenos_compress(src, bpp, n, d3, bd, level);
		sym_assert(r3 == r1 && sym_differs(d1, d3, (size_t)sym_concretize(r1)) == 0, "stenos_compress uses the same level");
		SYM_OBS(r1, "csize");
		sym_cover("end");
	}
	else if (mode == 2) { // custom block size
		size_t shift = sym_u64("shift", 0, ~0ull);
		size_t bpp = sym_param("bpp", 1), n = sym_param("n", 300) * bpp;
		stenos_context* c = stenos_make_context();
		size_t e = stenos_set_block_size(c, shift);
		sym_assert(!!stenos_has_error(e) == (shift >= 16 && shift != STENOS_NO_BLOCK_SHIFT), "block shifts above 15 are refused");
		stenos_set_level(c, 0);
		uint8_t* src = exact(n);
		input(src, n, bpp);
		size_t bd = stenos_bound(n) + 64;
		uint8_t *dst = exact(bd), *out = exact(n);
		size_t r = stenos_compress_generic(c, src, bpp, n, dst, bd);
		if (stenos_has_error(e) || shift == STENOS_NO_BLOCK_SHIFT)
			sym_assert(!stenos_has_error(r), "a refused block size changes nothing");
		bool fits = shift < 16 && (bpp * 256 << shift) < (1u << 24) - 1;
		sym_assert(stenos_has_error(r) || stenos_has_error(e) || shift == STENOS_NO_BLOCK_SHIFT || fits, "a superblock size that the format cannot hold is refused");
		if (!stenos_has_error(r)) {
			stenos_info i;
			sym_assert(!stenos_has_error(stenos_get_info(dst, bpp, r, &i)) && i.decompressed_size == n, "get_info reports the size");
			if (!stenos_has_error(e) && shift != STENOS_NO_BLOCK_SHIFT)
				sym_assert(i.superblock_size == bpp * 256 << shift, "the custom superblock size is used");
			sym_assert(stenos_decompress(dst, bpp, r, out, n) == n, "decompression succeeds");
			sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
			sym_cover("accepted");
		}
		else
			sym_cover("refused");
	}
	else if (mode == 3) { // number of threads, time limit: any value
		int threads = (int)(int64_t)sym_u64("threads", 0, 0xFFFFFFFFull);
		uint64_t ns = sym_u64("ns", 0, ~0ull);
		size_t bpp = sym_param("bpp", 4), n = sym_param("n", 256) * bpp;
		uint8_t* src = exact(n);
		background(src, n, bpp, 5);
		stenos_context* c = stenos_make_context();
		sym_assert(!stenos_has_error(stenos_set_threads(c, threads)), "every number of threads is accepted");
		sym_assert(!stenos_has_error(stenos_set_max_nanoseconds(c, ns)), "every time limit is accepted");
		size_t bd = stenos_bound(n);
		uint8_t *dst = exact(bd), *out = exact(n);
		size_t r = stenos_compress_generic(c, src, bpp, n, dst, bd);
		sym_assert(!stenos_has_error(r), "compression succeeds");
		sym_assert(stenos_decompress(dst, bpp, r, out, n) == n, "decompression succeeds");
		sym_assert(sym_differs(src, out, n) == 0, "decompressed data equals the original");
		sym_cover("end");
	}
	else { // bound: monotonic and enough for the stored form, whatever the size
		size_t x = sym_u64("bytes", 0, (1ull << 50));
		size_t b = stenos_bound(x);
		sym_assert(b >= x + 12, "the bound holds the data and a header");
		// at most one superblock of 256 bytes each
		sym_assert(b - x - 12 >= 4 * (x / 131072), "the bound holds the superblock headers");
		sym_assert(b <= x + x / 32 + 64, "the bound stays close to the input size");
		SYM_OBS(b, "bound");
		sym_cover("end");
	}
	return 0;
}
