// bit and byte order helpers, for every value
#include "hcommon.h"
#include "stenos/bits.hpp"
using namespace stenos;
static unsigned ones(uint64_t v)
{
	unsigned c = 0;
	for (unsigned i = 0; i < 64; ++i) c += (unsigned)(v >> i & 1);
	return c;
}
// e is the lowest (highest) set bit of v
static int lowest(uint64_t v, unsigned e) { return e < 64 && (v >> (e & 63) & 1) && (v & (((uint64_t)1 << (e & 63)) - 1)) == 0; }
static int highest(uint64_t v, unsigned e) { return e < 64 && v >> (e & 63) == 1; }
static uint64_t le(const uint8_t* p, unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; ++i) r |= (uint64_t)p[i] << (8 * i); return r; }
static uint64_t be(const uint8_t* p, unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; ++i) r = r << 8 | p[i]; return r; }
#define EQ(a, b, msg) sym_assert((uint64_t)(a) == (uint64_t)(b), msg)
int main()
{
	uint64_t v = sym_u64("v", 0, ~(uint64_t)0);
	uint8_t v8 = (uint8_t)v;
	uint16_t v16 = (uint16_t)v;
	uint32_t v32 = (uint32_t)v;
	switch (sym_fork("part", 0, 4)) {
		case 0:
			EQ(popcnt8(v8), ones(v8), "popcnt8");
			EQ(popcnt16(v16), ones(v16), "popcnt16");
			EQ(popcnt32(v32), ones(v32), "popcnt32");
			EQ(popcnt64(v), ones(v), "popcnt64");
			EQ(detail::popcount32(v32), ones(v32), "popcount32");
			EQ(detail::popcount64(v), detail::popcount32(v32) + detail::popcount32((uint32_t)(v >> 32)), "popcount64");
			break;
		case 1:
			sym_assume(v8 != 0); // so are all others
			sym_assert(lowest(v8, bit_scan_forward_8(v8)), "bit_scan_forward_8");
			sym_assert(highest(v8, bit_scan_reverse_8(v8)), "bit_scan_reverse_8");
			break;
		case 2:
			sym_assume(v32 != 0);
			sym_assert(lowest(v32, bit_scan_forward_32(v32)), "bit_scan_forward_32");
			sym_assert(highest(v32, bit_scan_reverse_32(v32)), "bit_scan_reverse_32");
			break;
		case 3:
			sym_assume(v != 0);
			sym_assert(lowest(v, bit_scan_forward_64(v)), "bit_scan_forward_64");
			sym_assert(highest(v, bit_scan_reverse_64(v)), "bit_scan_reverse_64");
			sym_assert(lowest(v, bit_scan_forward(v)), "bit_scan_forward");
			sym_assert(highest(v, bit_scan_reverse(v)), "bit_scan_reverse");
			break;
		default: {
			size_t off = sym_fork("off", 0, 7); // any alignment, nothing else is touched
			uint8_t* p = exact(8 + off);
			sym_bytes(p, 8 + off, "bytes");
			uint8_t* q = p + off;
			EQ(read_LE_16(q + 6), le(q + 6, 2), "read_LE_16");
			EQ(read_LE_32(q + 4), le(q + 4, 4), "read_LE_32");
			EQ(read_LE_64(q), le(q, 8), "read_LE_64");
			EQ(read_BE_16(q + 6), be(q + 6, 2), "read_BE_16");
			EQ(read_BE_32(q + 4), be(q + 4, 4), "read_BE_32");
			EQ(read_BE_64(q), be(q, 8), "read_BE_64");
			EQ(read_LE_size_t(q), le(q, 8), "read_LE_size_t");
			EQ(read_BE_size_t(q), be(q, 8), "read_BE_size_t");
			EQ(read_16(q + 6), le(q + 6, 2), "read_16");
			EQ(read_32(q + 4), le(q + 4, 4), "read_32");
			EQ(read_64(q), le(q, 8), "read_64");
			EQ(read_size_t(q), le(q, 8), "read_size_t");
			EQ(read_ptr_t(q), le(q, 8), "read_ptr_t");
			EQ(byte_swap_16(v16), ((v >> 8) & 0xFF) | ((v & 0xFF) << 8), "byte_swap_16");
			uint8_t b[8];
			memcpy(b, &v, 8);
			EQ(byte_swap_32(v32), be(b, 4), "byte_swap_32");
			EQ(byte_swap_64(v), be(b, 8), "byte_swap_64");
			uint8_t old[8];
			memcpy(old, q, 8);
			write_LE_16(q + 6, v16);
			EQ(le(q + 6, 2), v16, "write_LE_16");
			EQ(le(q, 6), le(old, 6), "bytes around");
			write_LE_32(q + 4, v32);
			EQ(le(q + 4, 4), v32, "write_LE_32");
			EQ(le(q, 4), le(old, 4), "bytes around");
			write_LE_64(q, v);
			EQ(le(q, 8), v, "write_LE_64");
			write_BE_64(q, v);
			EQ(be(q, 8), v, "write_BE_64");
			write_size_t(q, v);
			EQ(le(q, 8), v, "write_size_t");
			break;
		}
	}
	for (size_t a = sym_fork("align", 3, 8), i = 0; i < 3; ++i) { // aligned memory of any size
		size_t al = (size_t)1 << a, n = 1 + 100 * i;
		uint8_t* p = (uint8_t*)aligned_malloc(n, al);
		sym_assert(p && ((uintptr_t)p & (al - 1)) == 0, "aligned_malloc");
		memset(p, 1, n);
		aligned_free(p);
		p = (uint8_t*)detail::handmade_aligned_malloc(n, al);
		sym_assert(p && ((uintptr_t)p & (al - 1)) == 0, "handmade_aligned_malloc");
		memset(p, 1, n);
		detail::handmade_aligned_free(p);
	}
	sym_cover("end");
	return 0;
}
