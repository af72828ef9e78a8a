// shuffle/unshuffle and delta/delta_inv are inverse of each other
#include "sym.h"
#include <cstring>
#include <cstdlib>
#include "stenos/internal/shuffle.h"
#include "stenos/internal/delta.h"
static void one(size_t n, size_t bpp, unsigned which, size_t off)
{
	uint8_t* src = (uint8_t*)malloc(n + off) + off;
	uint8_t* mid = (uint8_t*)malloc(n + off) + off;
	uint8_t* dst = (uint8_t*)malloc(n + off) + off;
	sym_bytes(src, n, "src");
	if (which == 0) {
		stenos::shuffle(bpp, n, src, mid);
		stenos::unshuffle(bpp, n, mid, dst);
	}
	else {
		stenos::delta(src, mid, n);
		stenos::delta_inv(mid, dst, n);
	}
	sym_observe(mid, n, "transformed");
	// the same planes, whatever the instruction set: frames are exchanged between machines
	uint8_t bad = 0;
	if (which == 0) {
		size_t q = n / bpp;
		for (size_t i = 0; i < q; ++i)
			for (size_t j = 0; j < bpp; ++j)
				bad |= (uint8_t)(mid[j * q + i] ^ src[i * bpp + j]);
		for (size_t i = q * bpp; i < n; ++i)
			bad |= (uint8_t)(mid[i] ^ src[i]);
		sym_assert(bad == 0, "byte j of element i goes to plane j, place i");
	}
	else {
		// above 2048 bytes the first four quarters start anew
		size_t q = n > 2048 ? n / 4 : n;
		for (size_t i = 0; i < n; ++i)
			bad |= (uint8_t)(mid[i] ^ (uint8_t)(i % q == 0 && i / q < (n > 2048 ? 4 : 1) ? src[i] : src[i] - src[i - 1]));
		sym_assert(bad == 0, "differences of successive bytes");
	}
	sym_assert(sym_differs(src, dst, n) == 0, which == 0 ? "unshuffle(shuffle(x)) == x" : "delta_inv(delta(x)) == x");
	if (sym_param("inj", 0)) { // two inputs with the same transform are equal
		uint8_t* src2 = (uint8_t*)malloc(n);
		uint8_t* mid2 = (uint8_t*)malloc(n);
		sym_bytes(src2, n, "src2");
		if (which == 0)
			stenos::shuffle(bpp, n, src2, mid2);
		else
			stenos::delta(src2, mid2, n);
		if (sym_differs(mid, mid2, n) == 0)
			sym_assert(sym_differs(src, src2, n) == 0, "the transform loses nothing");
	}
}
int main()
{
	size_t n = sym_param("n", 64), bpp = sym_param("bpp", 4), last = sym_param("last", n), step = sym_param("step", 1);
	unsigned which = (unsigned)sym_param("which", 0);
	size_t off = sym_param("off", 0);
	for (; n <= last; n += step)
		one(n, bpp, which, off);
	sym_cover("end");
	return 0;
}
