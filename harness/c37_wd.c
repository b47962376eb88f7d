/* C37: the hardware watchdog */
#define sleep vs_sleep
#include "nd.h"
#include "env.h"
#include <unistd.h>
#include "radarcape/watchdog.c"
#ifndef ROUNDS
#define ROUNDS 12
#endif

static bool vsOut, vsRun;
static unsigned vsSets, vsClears, vsSleeps;
struct Component GPIO_comp;
void GPIO_setDirection(uint_fast32_t gpio, enum GPIO_DIRECTION dir)
{
	CHECK(gpio == 60 && dir == GPIO_DIRECTION_OUT, "the watchdog pin becomes an output");
	vsOut = true;
}
void GPIO_set(uint_fast32_t gpio)
{
	CHECK(gpio == 60 && vsOut, "the watchdog pin is set");
	++vsSets;
}
void GPIO_clear(uint_fast32_t gpio)
{
	CHECK(gpio == 60, "the watchdog pin is cleared");
	if (vsRun)
		CHECK(vsOut, "the watchdog pin is an output");
	++vsClears;
}
uint_fast32_t GPIO_read(uint_fast32_t gpio)
{
	CHECK(gpio == 60, "only the watchdog pin is used");
	return nd_bool();
}
unsigned vs_sleep(unsigned s)
{
	CHECK(s > 0 && s <= 30, "at most 30 seconds without trigger");
	CHECK(vsSets && vsClears, "triggered in each period");
	OBS(vsSets);
	OBS(vsClears);
	vsSets = vsClears = 0;
	if (++vsSleeps == ROUNDS || nd_bool()) {
		REACH("triggered");
		DONE();
	}
	return nd_range(0, 30);
}

int main(void)
{
	CHECK(WD_comp.dependencies[0] == &GPIO_comp && !WD_comp.dependencies[1], "the pins are set up before");
	CHECK(WD_comp.onConstruct(NULL), "construction");
	CHECK(vsOut, "the watchdog pin becomes an output");
	vsSets = vsClears = 0;
	vsRun = true;
	WD_comp.main();
	CHECK(0, "the watchdog never stops being triggered");
	return 0;
}
