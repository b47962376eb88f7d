/* C26: the daemon needs a serial number */
#define main vs_main
#define getopt_long vs_getopt
#define optarg vs_optarg
#define gettimeofday vs_gettimeofday
#define srand vs_srand
#define setlinebuf vs_setlinebuf
#include "nd.h"
#include <stdlib.h>
#include <getopt.h>
#include <stdio.h>
#include <sys/time.h>
#include "env.h"
#include "core/tb.h"
#include "radarcape/main.c"
#undef main

struct Component FPGA_comp, WD_comp;
const struct Component TB_comp, RELAY_comp, RECV_comp, STAT_comp, SERIAL_comp;
struct Component TRIMBLE_comp;
char * vs_optarg;
static bool vsHave, vsInit, vsStart, vsStopped, vsInitOk, vsStartOk, vsCfgOk, vsChecked;

int vs_getopt(int argc, char * const * argv, const char * s, const struct option * o, int * i) { return -1; }
int vs_gettimeofday(struct timeval * t, void * z) { t->tv_sec = t->tv_usec = 0; return 0; }
void vs_srand(unsigned s) {}
void vs_setlinebuf(FILE * f) {}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) {}
void COMP_register(const struct Component * c) {}
void COMP_fixup() {}
void CFG_loadDefaults() {}
bool CFG_readFile(const char * f, bool a, bool b, bool c) { return nd_bool(); }
bool CFG_check() { vsChecked = true; return vsCfgOk; }
bool CFG_write(const char * f) { CHECK(0, "not asked for"); return true; }
void CFG_unregisterAll() {}
bool COMP_initAll()
{
	CHECK(vsHave && vsCfgOk && vsChecked, "components are constructed only with a valid configuration and a serial number");
	CHECK(!vsInit, "once");
	vsInit = true;
	return vsInitOk;
}
bool COMP_startAll()
{
	CHECK(vsInit && vsInitOk && !vsStart, "components are started once they are constructed");
	vsStart = true;
	return vsStartOk;
}
void COMP_stopAll() { vsStopped = true; }
void COMP_destructAll() { CHECK(vsStopped, "components are stopped before"); }
void COMP_unregisterAll() {}
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	/* the only failure of this function */
	return vsHave ? SERIAL_RETURN_SUCCESS : SERIAL_RETURN_FAIL_PERM;
}
void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn) {}
void UTIL_waitSigInt() { CHECK(vsStart && vsStartOk, "components run"); }

static void vsEmerg(void)
{
	CHECK(!vsCfgOk || !vsHave || !vsInitOk || !vsStartOk, "the program stops only if it cannot work");
	REACH("refused");
}
int main(void)
{
	env_onEmerg = vsEmerg;
	vsHave = nd_bool();
	vsInitOk = nd_bool();
	vsStartOk = nd_bool();
	vsCfgOk = nd_bool();
	char * argv[] = { "openskyd", NULL };
	int r = vs_main(1, argv);
	CHECK(r == EXIT_SUCCESS && vsStopped, "regular end");
	REACH("ran");
	return 0;
}
