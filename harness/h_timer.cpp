// the timer measures the time since the last reset, for any clock values
#include "hcommon.h"
#include "stenos/timer.hpp"
namespace env { extern bool symclock; extern uint64_t last, maxs; }
int main()
{
	env::symclock = true;
	env::maxs = sym_param("maxs", 1ull << 34);
	stenos_timer* t = stenos_make_timer();
	sym_assert(t != nullptr, "timer");
	stenos_tick(t);
	uint64_t t0 = env::last;
	uint64_t e1 = stenos_tock(t), t1 = env::last;
	sym_assert(e1 == t1 - t0, "elapsed nanoseconds since the reset");
	uint64_t e2 = stenos_tock(t), t2 = env::last;
	sym_assert(e2 == t2 - t0, "reading does not reset");
	if (env::maxs < 100)
		sym_assert(e2 >= e1 && e2 - e1 == t2 - t1, "readings never go back");
	stenos_tick(t);
	uint64_t t3 = env::last;
	uint64_t e4 = stenos_tock(t), t4 = env::last;
	sym_assert(e4 == t4 - t3, "a reset starts again");
	stenos_destroy_timer(t);
	stenos_destroy_timer(nullptr);
	stenos::timer u;
	u.tick();
	uint64_t a = env::last, e = u.tock();
	sym_assert(e == env::last - a, "elapsed nanoseconds since the reset");
	sym_cover("end");
	return 0;
}
