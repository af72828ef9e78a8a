// The LZ4 dry run only steers the choice of an encoding: every answer is possible.
#include "sym.h"
#include "env.h"
#include "stenos/internal/lz4dry.h"
namespace stenos
{
	size_t lz4_guess_size(const char*, size_t n, int) noexcept
	{
		switch (env::guess) {
			case 0: return n / 4;
			case 1: switch (sym_fork("lz4", 0, 2)) { case 0: return n / 8; case 1: return n - n / 8; default: return n + 8; }
			case 2: return n + 8;
			default: return sym_concretize(sym_u64("lz4", 1, n));
		}
	}
	double lz4_guess_ratio(const char* s, size_t n, int a) noexcept { return (double)n / (double)lz4_guess_size(s, n, a); }
}
