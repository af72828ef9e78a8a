#pragma once
#include <stddef.h>
#include <stdint.h>
namespace env
{
	extern unsigned zmodes, dmodes, zcalls, zerrors, nrec;
	extern uint64_t t, fixed_step, zbytes;
	extern const uint64_t* steps;
	extern unsigned nsteps, forks_left;
	extern int guess;
	void reset_zstd();
	void watch(uint64_t ns);
	bool expired();
	unsigned zcalls_expired();
}
