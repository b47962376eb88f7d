/* C37: the watchdog's program */
#define main vs_main
#define getopt_long vs_getopt
#include "nd.h"
#include <stdlib.h>
#include <stdio.h>
#include <getopt.h>
#include "env.h"
#define fprintf(...) 0
#include "radarcape/wd-main.c"
#undef main

static bool vsPins, vsPinsOk, vsDropped, vsReady, vsReadyOk;
static unsigned vsOpts;
static bool vsHelp;
int vs_getopt(int argc, char * const * argv, const char * s, const struct option * o, int * i)
{
	if (vsOpts++ || !vsHelp)
		return -1;
	return nd_bool() ? 'h' : '?';
}
static bool pins()
{
	CHECK(!vsDropped && !vsPins, "the pins are opened with privileges");
	vsPins = true;
	return true;
}
void UTIL_dropPrivileges()
{
	CHECK(vsPins, "the pins are opened with privileges");
	vsDropped = true;
}
static bool ready()
{
	CHECK(vsPins, "the pins are set up before");
	CHECK(!vsReady, "once");
	vsReady = true;
	return true;
}
static void run()
{
	CHECK(vsDropped, "the watchdog runs without privileges");
	CHECK(vsReady && vsPins, "the watchdog is set up");
	REACH("runs");
	DONE();
}
struct Component GPIO_comp = { .onConstruct = &pins };
struct Component WD_comp = { .onConstruct = &ready, .vs_main = &run };

int main(void)
{
	vsHelp = nd_bool();
	char * argv[] = { "openskyd-wd", NULL };
	int r = vs_main(1, argv);
	CHECK(vsHelp, "the watchdog runs for ever");
	CHECK(r == EXIT_FAILURE && !vsPins, "usage");
	REACH("usage");
	return 0;
}
