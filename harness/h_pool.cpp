// thread pool: every schedule of its workers, of the threads that push and of the threads that wait
#include "sym.h"
#include "stenos/internal/tiny_pool.h"
#include <stdlib.h>
static uint32_t cell[12]; // written by the tasks, read after wait(): ordered by the pool, or a data race
int main()
{
	unsigned workers = (unsigned)sym_param("workers", 2), users = (unsigned)sym_param("users", 1), tasks = (unsigned)sym_param("tasks", 2), rounds = (unsigned)sym_param("rounds", 1);
	uint32_t x[12];
	for (unsigned i = 0; i < users * tasks; ++i)
		x[i] = (uint32_t)sym_u64("x", 1, sym_param("vals", 1) ? 0xFFFFFFFF : 1);
	unsigned fails = (unsigned)sym_param("fails", 0), sizes = (unsigned)sym_param("sizes", 0), optional = (unsigned)sym_param("optional", 0);
	sym_sched((int)sym_param("preempt", 2) + 1);
	{
		stenos::tiny_pool pool(workers);
		auto user = [&](unsigned u) {
			for (unsigned r = 0; r < rounds; ++r) {
				unsigned base = u * tasks;
				bool pushed[4] = { false };
				for (unsigned i = 0; i < tasks; ++i) {
					uint32_t *p = &cell[base + i], v = x[base + i];
					if (i < optional && (v & 1)) continue;
					if ((sizes >> (i + 4 * (r & 1)) & 1)) { // a task that captures more
						uint32_t w[3] = { v, v + 1, v + 2 };
						if (!(sizes & 256)) {
							pushed[i] = pool.push([p, w]() { if (w[1] == w[0] + 1 && w[2] == w[0] + 2) *p = *p * 3 + w[0]; });
							continue;
						}
						struct { uint32_t *a, *b, *c, *d; } q = { p, p, p, p };
						pushed[i] = pool.push([p, w, q]() { if (w[1] == w[0] + 1 && w[2] == w[0] + 2 && q.a == p && q.d == p) *p = *p * 3 + w[0]; });
						continue;
					}
					pushed[i] = pool.push([p, v]() { *p = *p * 3 + v; });
				}
				pool.wait();
				for (unsigned i = 0; i < tasks; ++i) {
					sym_assert(cell[base + i] == (pushed[i] ? x[base + i] : 0), "a task that was accepted has run exactly once when wait returns, a refused one has not run");
					cell[base + i] = 0;
				}
			}
		};
		std::thread t[2];
		for (unsigned u = 1; u < users; ++u)
			t[u - 1] = std::thread([&user, u]() { user(u); });
		if (fails) sym_alloc_fail((int)fails);
		user(0);
		for (unsigned u = 1; u < users; ++u)
			t[u - 1].join();
		sym_alloc_fail(0);
		if (sym_param("leave", 0)) { // tasks still queued when the pool ends
			uint32_t *p = &cell[0], v = x[0];
			pool.push([p, v]() { *p = *p * 3 + v; });
			pool.push([]() {});
		}
	}
	sym_assert(cell[0] == 0 || cell[0] == x[0], "no task runs twice");
	SYM_OBS(cell[0] == 0, "task run before the end");
	sym_cover("end");
	return 0;
}
