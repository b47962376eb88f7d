/* C34: random numbers.  N  n up to N,
 * TABLE  larger n, BIG  n symbolic up to BIG */
#define rand vs_rand
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <sys/types.h>
#include "util/util.c"

static unsigned vsCalls;
static int vsLast, vsFirst;
int vs_rand(void)
{
	/* a generator that repeats unusable numbers for ever is not looked at, but
	 * the largest and the smallest number must be usable or at least
	 * half of all numbers be */
	ASSUME(vsCalls < 2);
	vsLast = nd_u32() & RAND_MAX;
	if (!vsCalls++)
		vsFirst = vsLast;
	return vsLast;
}

int main(void)
{
#ifdef BIG
	uint32_t n = nd_range(1, BIG);
#else
#ifdef TABLE
	static const uint32_t ns[] = { 13, 100, 255, 256, 257, 1000, 32767, 65536, 1000000, 1u << 24,
		RAND_MAX / 3, RAND_MAX / 2, RAND_MAX / 2u + 1, RAND_MAX / 2u + 2, RAND_MAX - 1, RAND_MAX };
	uint32_t n = ns[nd_pick(0, sizeof ns / sizeof *ns - 1)];
#else
	uint32_t n = nd_pick(1, N);
#endif
#endif
	uint32_t r = UTIL_randInt(n);
	CHECK(r < n, "below the bound");
	/* a number is rejected only if it is beyond the largest multiple of n */
	if (vsCalls > 1) {
		CHECK((uint32_t)vsFirst > RAND_MAX - n, "at most n - 1 numbers are unusable");
		REACH("rejected");
	} else
		REACH("first");
#ifndef BIG
	/* every value is possible: from the generator result it stands for */
	vsCalls = 0;
	uint32_t want = nd_range(0, n - 1);
	uint32_t r2 = UTIL_randInt(n);
	ASSUME(vsCalls == 1 && (uint32_t)vsFirst == want);
	CHECK(r2 == want, "every value is possible");
	REACH("value");
#endif
	return 0;
}
