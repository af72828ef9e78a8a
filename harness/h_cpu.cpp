// frames made with one set of CPU features decompress with any other one
#include "hcommon.h"
#include "stenos/internal/simd.h"
static void cpu(unsigned k) // 0 none 1 sse2 2 sse4.1 3 avx2 without bmi2 4 everything
{
	stenos::CPUFeatures& f = const_cast<stenos::CPUFeatures&>(stenos::cpu_features());
	f.HAS_SSE = f.HAS_SSE2 = k >= 1;
	f.HAS_SSE3 = f.HAS_SSSE3 = f.HAS_SSE41 = f.HAS_SSE42 = k >= 2;
	f.HAS_AVX = f.HAS_AVX2 = f.HAS_BMI1 = k >= 3;
	f.HAS_BMI2 = k >= 4;
}
int main()
{
	size_t bpp = sym_param("bpp", 2), n = sym_param("n", 256) * bpp + sym_param("extra", 0);
	int level = (int)sym_param("level", 1);
	env::zmodes = (unsigned)sym_param("zmodes", 2);
	env::guess = (int)sym_param("guess", 0);
	uint8_t* src = exact(n);
	input(src, n, bpp);
	cpu((unsigned)sym_param("ccpu", 4));
	size_t bound = stenos_bound(n);
	uint8_t* dst = exact(bound);
	size_t r = stenos_compress(src, bpp, n, dst, bound, level);
	sym_assert(!stenos_has_error(r), "compression succeeds");
	r = (size_t)sym_concretize(r);
	SYM_OBS(r, "csize");
	sym_observe(dst, r, "frame");
	uint8_t* copy = exact(r);
	memcpy(copy, dst, r);
	uint64_t lo = sym_param("dlo", 0), hi = sym_param("dhi", 4);
	for (uint64_t k = lo; k <= hi; ++k) {
		cpu((unsigned)k);
		uint8_t* out = exact(n);
		sym_assert(stenos_decompress(copy, bpp, r, out, n) == n, "decompression succeeds with other CPU features");
		sym_assert(sym_differs(src, out, n) == 0, "decompressed data does not depend on the CPU features");
		free(out);
	}
	sym_cover("end");
	return 0;
}
