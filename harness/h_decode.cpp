// decompression of arbitrary, corrupted and truncated frames
// chk: 0 nothing but memory safety and termination; 1 result, output determined; 2 must fail
#include "hcommon.h"
static size_t bpp, chk;
static int threads;
static void decode(const uint8_t* frame, size_t len, size_t cap)
{
	stenos_context* d = stenos_make_context();
	stenos_set_threads(d, threads);
	uint8_t* out = exact(cap);
	if (cap <= 1u << 24)
		sym_garbage(out, cap);
	size_t r = stenos_decompress_generic(d, frame, bpp, len, out, cap);
	SYM_OBS(r, "result");
	if (stenos_has_error(r))
		sym_cover("error");
	else
		sym_cover("success");
	if (chk == 1) {
		sym_assert(stenos_has_error(r) || r <= cap, "result is an error or at most the destination size");
		if (!stenos_has_error(r)) {
			stenos_info info;
			size_t g = stenos_get_info(frame, bpp, len, &info);
			sym_assert(!stenos_has_error(g), "get_info accepts a frame that decompresses");
			sym_assert(info.decompressed_size == r, "the result is the announced size");
			size_t k = (size_t)sym_concretize(r);
			sym_determined(out, k, "a successful decompression writes every byte of the output");
			sym_observe(out, k, "output");
		}
	}
	if (chk == 2)
		sym_assert(stenos_has_error(r), "an incomplete frame or a too small destination is an error");
	free(out);
	stenos_destroy_context(d);
}
int main()
{
	bpp = sym_param("bpp", 2);
	chk = sym_param("chk", 1);
	threads = (int)sym_param("threads", 1);
	unsigned mode = (unsigned)sym_param("mode", 0);
	env::dmodes = (unsigned)sym_param("dmodes", 1);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	size_t n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	if (mode == 0) { // nothing known about the frame
		size_t len = sym_param("len", 16), cap = sym_param("cap", n);
		uint8_t* f = exact(len);
		sym_bytes(f, len, "frame");
		if (sym_param("custom", 0) && len > 0)
			sym_assume(f[0] == 255);
		decode(f, len, cap);
		free(f);
		return 0;
	}
	if (mode == 1) { // valid frame header, one superblock with symbolic content
		size_t plen = sym_param("plen", 16), len = 12 + 4 + plen;
		uint8_t* f = exact(len);
		stenos_private_create_compression_header(n, sym_param("sb", n), f, 12);
		f[12] = (uint8_t)sym_param("code", 1);
		size_t cs = sym_param("csize", plen);
		f[13] = (uint8_t)cs; f[14] = (uint8_t)(cs >> 8); f[15] = (uint8_t)(cs >> 16);
		// a concrete prefix, given as up to 8 bytes of pfx, then symbolic bytes, then a concrete tail
		size_t npfx = sym_param("npfx", 0), nsym = sym_param("nsym", plen);
		uint64_t pfx = sym_param("pfx", 0);
		for (size_t i = 0; i < plen; ++i)
			f[16 + i] = i < npfx ? (uint8_t)(i < 8 ? pfx >> (8 * i) : 0) : (uint8_t)(i * 29 + 3);
		if (npfx < plen)
			sym_bytes(f + 16 + npfx, nsym < plen - npfx ? nsym : plen - npfx, "payload");
		decode(f, len, sym_param("cap", n));
		free(f);
		return 0;
	}
	if (mode == 5) { // sizes beyond 32 bits
		static const uint64_t sizes[] = { 0x80000005ull, 0x90000001ull, 0x80000000ull };
		static const uint64_t sbs[] = { 0x90000001ull, 0xffffffffull };
		size_t dn = (size_t)sizes[sym_fork("size", 0, 2)], sb = (size_t)sbs[sym_fork("superblock", 0, 1)];
		uint8_t* f = exact(12 + 4 + 24);
		stenos_private_create_compression_header(dn, sb, f, 12);
		f[12] = (uint8_t)sym_param("code", 1);
		f[13] = 24; f[14] = 0; f[15] = 0;
		sym_bytes(f + 16, 24, "payload");
		decode(f, 12 + 4 + 24, dn);
		free(f);
		return 0;
	}
	// a frame made by the compressor
	uint8_t* src = exact(n);
	background(src, n, bpp, (unsigned)sym_param("kind", 0));
	if (mode != 2)
		input(src, n, bpp);
	size_t shift = sym_param("shift", 255);
	size_t bound = frame_bound(n, bpp, shift);
	uint8_t* dst = exact(bound);
	stenos_context* c = stenos_make_context();
	stenos_set_level(c, (int)sym_param("level", 1));
	if (shift != 255)
		stenos_set_block_size(c, shift);
	size_t r = stenos_compress_generic(c, src, bpp, n, dst, bound);
	stenos_destroy_context(c);
	r = (size_t)sym_concretize(r);
	sym_assume(!stenos_has_error(r));
	if (mode == 2) { // overwrite some bytes
		uint8_t* f = exact(r);
		memcpy(f, dst, r);
		size_t pos = sym_param("pos", 8), k = sym_param("nsym", 3), stride = sym_param("stride", 1);
		for (size_t i = 0; i < k; ++i)
			if (pos + i * stride < r)
				sym_bytes(f + pos + i * stride, 1, "corrupt");
		decode(f, r, sym_param("cap", n));
		free(f);
	}
	else if (mode == 3) { // every truncation
		size_t lo = sym_param("lo", 0), hi = sym_param("hi", 1 << 20);
		if (hi > r - 1)
			hi = r - 1;
		if (lo <= hi) {
			size_t t = (size_t)sym_fork("length", lo, hi);
			uint8_t* f = exact(t);
			memcpy(f, dst, t);
			decode(f, t, n);
			free(f);
		}
	}
	else { // every too small destination
		size_t lo = sym_param("lo", 0), hi = n - 1;
		uint8_t* f = exact(r);
		memcpy(f, dst, r);
		decode(f, r, (size_t)(lo + sym_fork("capacity", 0, (hi - lo) / sym_param("step", 1)) * sym_param("step", 1)));
		free(f);
	}
	free(src); free(dst);
	return 0;
}
