#pragma once
#include "sym.h"
#include "env.h"
#include <cstring>
#include <cstdlib>
#include "stenos/stenos.h"

static uint32_t h_rnd = 12345;
static inline uint8_t lcg() { h_rnd = h_rnd * 1664525u + 1013904223u; return (uint8_t)(h_rnd >> 24); }
// concrete backgrounds; the symbolic bytes are laid over them
static inline void background(uint8_t* p, size_t n, size_t bpp, unsigned kind)
{
	h_rnd = 12345;
	switch (kind) {
		case 0: memset(p, 7, n); break;				     // constant
		case 1: for (size_t i = 0; i < n; ++i) p[i] = lcg(); break; // noise
		case 2:							     // slowly increasing elements
			for (size_t i = 0; i < n; ++i) { size_t e = i / bpp, b = i % bpp; p[i] = (uint8_t)(b == 0 ? e : b == 1 ? e >> 4 : 3); }
			break;
		case 3: for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(lcg() & 7); break; // small range noise
		case 4: for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)((i / bpp / 5) * 11); break; // runs
		case 5: for (size_t i = 0; i < n; ++i) p[i] = (i / bpp / 64) & 1 ? lcg() : (uint8_t)(i % bpp); break; // half noise
		case 6: for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)((i % (bpp * 16)) * 37); break; // period 16 elements
		case 7: // long repeats at a distance: LZ matches
			for (size_t i = 0; i < n; ++i) p[i] = i < n / 4 || i < 64 ? lcg() : p[i - (n / 4 > 64 ? n / 4 : 64) / bpp * bpp];
			break;
		case 8: // a different behaviour for every 16 elements
			for (size_t i = 0; i < n; ++i) {
				size_t e = i / bpp;
				switch ((e / 16) % 6) {
					case 0: p[i] = 9; break;
					case 1: p[i] = (uint8_t)(e * 3); break;
					case 2: p[i] = lcg(); break;
					case 3: p[i] = (uint8_t)(lcg() & 1); break;
					case 4: p[i] = (uint8_t)(100 + (lcg() & 31)); break;
					default: p[i] = (uint8_t)((e / 4) * 50); break;
				}
			}
			break;
		case 9: // every plane of the elements behaves differently
			for (size_t i = 0; i < n; ++i) {
				size_t e = i / bpp, b = i % bpp;
				switch (b % 4) {
					case 0: p[i] = (uint8_t)(lcg() & 15); break;
					case 1: p[i] = lcg(); break;
					case 2: p[i] = 200; break;
					default: p[i] = (uint8_t)(e * 7 / 3); break;
				}
			}
			break;
		case 10: { // in every block, words repeated at a given distance
			size_t w = bpp % 8 == 0 ? 8 : 4, d = sym_param("dist", 128) * w, blk = 256 * bpp;
			for (size_t i = 0; i < n; ++i) p[i] = i % blk < d ? lcg() : p[i - d];
			break;
		}
		case 11: // every element is one word repeated; in every block the first and the last element are the same, unlike the others
			for (size_t e = 0; e * bpp < n; ++e) {
				bool same = e % 256 == 0 || e % 256 == 255;
				uint8_t w[8];
				for (unsigned k = 0; k < 8; ++k) { uint8_t r = lcg(); w[k] = k == 0 ? (same ? 0x77 : 0x11) : same ? (uint8_t)k : k < 4 ? r : w[k - 4]; }
				for (size_t k = 0; k < bpp && e * bpp + k < n; ++k) p[e * bpp + k] = w[k % 8];
			}
			break;
		case 12: { // in every block, a constant part followed by small range noise
			size_t blk = 256 * bpp, d = sym_param("dist", 300);
			for (size_t i = 0; i < n; ++i) p[i] = i % blk < d ? 9 : (uint8_t)(lcg() & 31);
			break;
		}
		default: memset(p, 0, n); break;
	}
}
// the input of a configuration: background plus symbolic bytes given by nsym, pos, stride
static inline void input(uint8_t* p, size_t n, size_t bpp)
{
	unsigned kind = (unsigned)sym_param("kind", 0);
	size_t nsym = sym_param("nsym", 3), pos = sym_param("pos", 0), stride = sym_param("stride", 1);
	background(p, n, bpp, kind);
	if (nsym >= n)
		sym_bytes(p, n, "src");
	else
		for (size_t i = 0; i < nsym; ++i)
			if (pos + i * stride < n)
				sym_bytes(p + pos + i * stride, 1, "src");
}
static inline uint8_t* exact(size_t n) { return (uint8_t*)malloc(n); } // accesses outside [0,n) are reported
static inline size_t frame_bound(size_t n, size_t bpp, size_t shift) { return stenos_bound(n) + (shift != 255 ? 4 * (n / (bpp * 256 << shift) + 2) : 0); }
static uint64_t h_steps[4];
// clock: the first `clocks` reads advance by any of a few amounts around the limit
static inline void clock_around(uint64_t ns, unsigned clocks)
{
	h_steps[0] = 10;
	h_steps[1] = ns / 3;
	h_steps[2] = ns + 1;
	h_steps[3] = ns - 1;
	env::steps = h_steps;
	env::nsteps = (unsigned)sym_param("nsteps", 3);
	env::forks_left = clocks;
}
