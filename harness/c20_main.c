/* C20: the daemon's option to save the configuration */
#define main vs_main
#define getopt_long vs_getopt
#define optarg vs_optarg
#define gettimeofday vs_gettimeofday
#define srand vs_srand
#define setlinebuf vs_setlinebuf
#include "nd.h"
#include <stdlib.h>
#include <getopt.h>
#include <stdio.h>
#include <sys/time.h>
#include "env.h"
#include "core/tb.h"
#include "radarcape/main.c"
#undef main

struct Component FPGA_comp, WD_comp;
const struct Component TB_comp, RELAY_comp, RECV_comp, STAT_comp, SERIAL_comp;
struct Component TRIMBLE_comp;
char * vs_optarg;
static char vsPath[] = "/x/saved.conf";
static unsigned vsOpt, vsRead, vsDefaults, vsSaves, vsRegs;
static bool vsOk, vsConsistent;

int vs_getopt(int argc, char * const * argv, const char * s, const struct option * o, int * i)
{
	if (vsOpt++)
		return -1;
	for (; o->name; ++o)
		if (strcmp(o->name, "save") == 0) {
			CHECK(o->has_arg == required_argument, "--save takes the name of a file");
			vs_optarg = vsPath;
			return o->val;
		}
	CHECK(0, "there is an option --save");
	return -1;
}
int vs_gettimeofday(struct timeval * t, void * z) { t->tv_sec = t->tv_usec = 0; return 0; }
void vs_srand(unsigned s) {}
void vs_setlinebuf(FILE * f) {}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) {}
void COMP_register(const struct Component * c) { ++vsRegs; }
void COMP_fixup() {}
void CFG_loadDefaults() { CHECK(vsRegs && !vsRead, "defaults are loaded first"); ++vsDefaults; }
bool CFG_readFile(const char * f, bool a, bool b, bool c)
{
	CHECK(vsDefaults, "defaults are loaded before the file");
	++vsRead;
	return nd_bool();
}
bool CFG_check()
{
	CHECK(vsRead, "the configuration read is checked");
	return vsConsistent;
}
bool CFG_write(const char * f)
{
	CHECK(vsRead && vsDefaults, "the configuration read is saved");
	CHECK(strcmp(f, vsPath) == 0, "to the file asked for");
	CHECK(vsConsistent, "an inconsistent configuration is not saved");
	++vsSaves;
	return vsOk;
}
void CFG_unregisterAll() { CHECK(vsSaves, "saved before"); }
bool COMP_initAll() { CHECK(0, "saving does not start the daemon"); return true; }
bool COMP_startAll() { CHECK(0, "saving does not start the daemon"); return true; }
void COMP_stopAll() {}
void COMP_destructAll() {}
void COMP_unregisterAll() { CHECK(vsSaves, "saved before"); }
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { return SERIAL_RETURN_SUCCESS; }
void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn) {}
void UTIL_waitSigInt() {}

static void vsEmerg(void)
{
	CHECK(!vsConsistent, "the program stops only if the configuration is inconsistent");
	REACH("refused");
}
int main(void)
{
	env_onEmerg = vsEmerg;
	vsConsistent = nd_bool();
	vsOk = nd_bool();
	char * argv[] = { "openskyd", "--save", vsPath, NULL };
	int r = vs_main(3, argv);
	CHECK(vsSaves == 1, "saved once");
	CHECK((r == EXIT_SUCCESS) == vsOk, "the program reports whether the configuration could be saved");
	if (vsOk)
		REACH("saved");
	else
		REACH("failed");
	return 0;
}
