// frame metadata: get_info on arbitrary headers and on frames of the compressor
#include "hcommon.h"
int main()
{
	unsigned mode = (unsigned)sym_param("mode", 0);
	if (mode == 0) { // arbitrary bytes, any length, any element size
		size_t len = sym_fork("length", 0, sym_param("len", 14));
		uint8_t* f = exact(len);
		sym_bytes(f, len, "frame");
		size_t bpp = sym_u64("bytesoftype", 0, ~0ull);
		stenos_info i;
		i.decompressed_size = i.superblock_size = 77;
		size_t g = stenos_get_info(f, bpp, len, &i);
		SYM_OBS(stenos_has_error(g), "error");
		if (stenos_has_error(g)) {
			// refused for a reason
			bool complete = len >= 8 && (f[0] <= 4 || (f[0] == 255 && len >= 12));
			bool goodType = bpp > 0 && bpp < 65535;
			sym_assert(!(complete && goodType), "a complete header with a valid element size is accepted");
			sym_cover("error");
			return 0;
		}
		sym_assert(g == (f[0] == 255 ? 12u : 8u), "the header size is returned");
		sym_assert(g <= len, "the header is inside the input");
		uint64_t want = 0;
		for (int k = 0; k < 7; ++k)
			want |= (uint64_t)f[1 + k] << (8 * k);
		sym_assert(i.decompressed_size == want, "the announced size is reported");
		if (f[0] == 255)
			sym_assert(i.superblock_size == ((uint32_t)f[8] | (uint32_t)f[9] << 8 | (uint32_t)f[10] << 16 | (uint32_t)f[11] << 24), "the announced superblock size is reported");
		else {
			sym_assert(f[0] <= 4, "unknown header kinds are refused");
			sym_assert(bpp > 0 && bpp < 65535, "invalid element sizes are refused");
			sym_assert(i.superblock_size > 0, "the superblock size is not null");
			if (sym_param("mul", 0))
				sym_assert(i.superblock_size % (bpp * 256) == 0, "a superblock is a whole number of blocks");
		}
		SYM_OBS(i.decompressed_size, "size");
		sym_cover("success");
		free(f);
	}
	else if (mode == 1) { // frames of the compressor: superblock structure
		size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
		size_t shift = sym_param("shift", 255);
		uint8_t* src = exact(n);
		input(src, n, bpp);
		env::zmodes = (unsigned)sym_param("zmodes", 2);
		size_t bound = frame_bound(n, bpp, shift);
		uint8_t* dst = exact(bound);
		stenos_context* c = stenos_make_context();
		stenos_set_level(c, (int)sym_param("level", 1));
		stenos_set_threads(c, (int)sym_param("threads", 1));
		if (shift != 255)
			stenos_set_block_size(c, shift);
		if (sym_param("ns", 0)) {
			env::fixed_step = 1000;
			stenos_set_max_nanoseconds(c, sym_param("ns", 0));
		}
		size_t r = stenos_compress_generic(c, src, bpp, n, dst, bound);
		sym_assert(!stenos_has_error(r), "compression succeeds");
		stenos_info i;
		size_t g = stenos_get_info(dst, bpp, r, &i);
		sym_assert(!stenos_has_error(g) && i.decompressed_size == n, "get_info reports the size");
		sym_assert(stenos_get_info(dst, bpp, g, &i) == g && i.decompressed_size == n, "the header alone is enough");
		sym_assert(i.superblock_size > 0 && i.superblock_size % (bpp * 256) == 0 && i.superblock_size < (1u << 24), "the superblock size is a whole number of blocks");
		if (shift != 255)
			sym_assert(i.superblock_size == bpp * 256 << shift, "the custom superblock size is used");
		// walk the superblocks
		size_t pos = g, blocks = 0;
		while (pos < r) {
			size_t s = stenos_private_block_size(dst + pos, r - pos);
			sym_assert(!stenos_has_error(s) && s >= 4 && pos + s <= r, "superblocks are inside the frame");
			sym_assert(s == stenos_private_block_csize(dst + pos), "both functions give the same size");
			sym_assert(s <= i.superblock_size + 4, "a superblock is never bigger than its content plus its header");
			// a superblock alone gives its part of the data
			size_t first = blocks * i.superblock_size, dn = n - first < i.superblock_size ? n - first : i.superblock_size;
			uint8_t* part = exact(dn);
			size_t k = (size_t)sym_concretize(s);
			uint8_t* sb = exact(k);
			memcpy(sb, dst + pos, k);
			stenos_context* d = stenos_make_context();
			sym_assert(stenos_private_decompress_block(d, sb, bpp, i.superblock_size, k, part, dn) == dn, "a superblock decompresses alone");
			sym_assert(sym_differs(part, src + first, dn) == 0, "to its part of the data");
			stenos_destroy_context(d);
			free(part);
			free(sb);
			pos += k;
			++blocks;
		}
		sym_assert(pos == r && blocks == (n + i.superblock_size - 1) / i.superblock_size, "one superblock for every part of the data");
		stenos_destroy_context(c);
		sym_cover("end");
	}
	else { // header written for a serialized vector
		uint64_t size = sym_u64("size", 0, (1ull << 56) - 1), sb = sym_u64("superblock", 1, (1u << 24) - 1);
		size_t cap = sym_fork("capacity", 0, 16);
		uint8_t* d = exact(cap);
		size_t r = stenos_private_create_compression_header(size, sb, d, cap);
		sym_assert(stenos_has_error(r) == (cap < 12), "an error exactly when the header does not fit");
		if (!stenos_has_error(r)) {
			stenos_info i;
			sym_assert(r == 12 && stenos_get_info(d, 4, r, &i) == 12, "get_info accepts the header");
			sym_assert(i.decompressed_size == size && i.superblock_size == sb, "get_info reports what was written");
		}
		sym_cover("end");
	}
	return 0;
}
