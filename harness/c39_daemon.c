/* C39: the daemon of the Radarcape from its start to its end */
#define main vs_main
#define getopt_long vs_getopt
#define optarg vs_optarg
#define gettimeofday vs_gettimeofday
#define srand vs_srand
#define setlinebuf vs_setlinebuf
#include "nd.h"
#include <stdlib.h>
#include <getopt.h>
#include <stdio.h>
#include <sys/time.h>
#include "env.h"
#include "core/tb.h"
#undef fprintf
#define fprintf(...) ((void)0)
#include "radarcape/main.c"
#undef main

struct Component FPGA_comp, WD_comp;
const struct Component TB_comp, RELAY_comp, RECV_comp, STAT_comp, SERIAL_comp;
struct Component TRIMBLE_comp;
char * vs_optarg;
enum { TB, RELAY, RECV, STAT, SERIAL, TRIMBLE, FPGA, WD, NCOMP };
static const struct Component * const vsAll[] = { &TB_comp, &RELAY_comp, &RECV_comp, &STAT_comp, &SERIAL_comp, &TRIMBLE_comp, &FPGA_comp, &WD_comp };
static bool vsReg[NCOMP], vsFixed, vsHave, vsInitOk, vsStartOk, vsCfgOk, vsReadOk;
static enum { BEGIN, DEFAULTS, READ, CHECKED, INIT, START, WAIT, STOP, DESTRUCT, UNREGISTER } vsAt;
static unsigned vsTypes, vsUnreg;
static enum OPENSKY_DEVICE_TYPE vsType;
static unsigned vsOpt;
#ifdef STANDALONE
extern bool FPGA_bbwhite;
bool FPGA_bbwhite;
#endif

static void vsGo(int from, int to, const char * what)
{
	CHECK(vsAt == from, what);
	vsAt = to;
}
int vs_getopt(int argc, char * const * argv, const char * s, const struct option * o, int * i)
{
	CHECK(argc == 1, "arguments are parsed");
	/* the colour of the board is an option of the daemon that owns it */
	if (vsOpt == 1) {
		vsOpt = 2;
		return 'b';
	}
	if (vsOpt == 3) {
		vsOpt = 4;
		return 'h';
	}
	return -1;
}
int vs_gettimeofday(struct timeval * t, void * z) { t->tv_sec = nd_u32(); t->tv_usec = 0; return 0; }
void vs_srand(unsigned s) {}
void vs_setlinebuf(FILE * f) {}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t)
{
	CHECK(vsAt < START, "the device type is known before anything is sent");
	++vsTypes;
	vsType = t;
}
void COMP_register(const struct Component * c)
{
	CHECK(vsAt == BEGIN && !vsFixed, "components are registered first");
	unsigned i;
	for (i = 0; i < NCOMP && vsAll[i] != c; ++i)
		;
	CHECK(i < NCOMP && !vsReg[i], "components are registered once");
	vsReg[i] = true;
}
void COMP_fixup() { CHECK(vsAt == BEGIN && !vsFixed, "components are ordered once"); vsFixed = true; }
void CFG_loadDefaults()
{
	CHECK(vsFixed, "the options of all components are known");
	vsGo(BEGIN, DEFAULTS, "defaults come first");
}
bool CFG_readFile(const char * f, bool a, bool b, bool c)
{
	CHECK(!strcmp(f, SYSCONFDIR "/openskyd.conf"), "the file of the system is read");
	vsGo(DEFAULTS, READ, "the file is read over the defaults");
	return vsReadOk;
}
bool CFG_check()
{
	vsGo(READ, CHECKED, "the whole configuration is checked");
	return vsCfgOk;
}
bool CFG_write(const char * f) { CHECK(0, "not asked for"); return true; }
void CFG_unregisterAll() { CHECK(vsAt >= DESTRUCT, "options are forgotten last"); ++vsUnreg; }
bool COMP_initAll()
{
	CHECK(vsCfgOk && vsHave, "components are constructed only with a valid configuration and a serial number");
	vsGo(CHECKED, INIT, "components are constructed once");
	return vsInitOk;
}
bool COMP_startAll()
{
	CHECK(vsInitOk, "components are started once they are constructed");
	CHECK(vsTypes >= 1, "the device type is set");
#if defined(INPUT_RADARCAPE_UART)
	CHECK(vsType == OPENSKY_DEVICE_TYPE_RADARCAPE, "device type");
#elif defined(INPUT_RADARCAPE_NETWORK)
	CHECK(vsType == OPENSKY_DEVICE_TYPE_RADARCAPE_NET, "device type");
#else
	CHECK(vsType == OPENSKY_DEVICE_TYPE_BOGUS, "device type");
#endif
	for (unsigned i = 0; i < FPGA; ++i)
		CHECK(vsReg[i], "every component of the daemon is there");
#ifdef STANDALONE
	CHECK(vsReg[FPGA] && vsReg[WD], "the hardware is taken care of");
	CHECK(FPGA_bbwhite == (vsOpt != 2), "colour of the board");
#else
	CHECK(!vsReg[FPGA] && !vsReg[WD], "the hardware belongs to another program");
#endif
	vsGo(INIT, START, "components are started once");
	return vsStartOk;
}
void UTIL_waitSigInt()
{
	CHECK(vsStartOk, "components run");
	vsGo(START, WAIT, "the daemon runs until it is interrupted");
}
void COMP_stopAll() { vsGo(WAIT, STOP, "components are stopped after the interrupt"); }
void COMP_destructAll() { vsGo(STOP, DESTRUCT, "components are stopped before they are destructed"); }
void COMP_unregisterAll() { vsGo(DESTRUCT, UNREGISTER, "components are forgotten last"); }
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { return vsHave ? SERIAL_RETURN_SUCCESS : SERIAL_RETURN_FAIL_PERM; }
static unsigned vsCmds;
void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn)
{
	CHECK(vsAt < START && fn, "commands are registered before they can arrive");
	++vsCmds;
}
#ifdef STANDALONE
void TB_reverseShell(const uint8_t * p) {}
void TB_restartDaemon(const uint8_t * p) {}
#endif

static void vsEmerg(void)
{
	CHECK(!vsCfgOk || !vsHave || !vsInitOk || !vsStartOk, "the program stops only if it cannot work");
	CHECK(vsAt != WAIT, "the program stops before it runs");
	REACH("refused");
}
int main(void)
{
	env_onEmerg = vsEmerg;
	vsHave = nd_bool();
	vsInitOk = nd_bool();
	vsStartOk = nd_bool();
	vsCfgOk = nd_bool();
	vsReadOk = nd_bool();
	char * argv[] = { "openskyd", NULL };
#ifdef STANDALONE
	vsOpt = nd_pick(0, 1);
#endif
	if (nd_pick(0, 3) == 0)
		vsOpt = 3;
	int r = vs_main(1, argv);
	if (vsOpt == 4) {
		CHECK(vsAt == BEGIN, "asking for help starts nothing");
		REACH("help");
		return 0;
	}
	CHECK(vsCfgOk && vsHave && vsInitOk && vsStartOk, "the daemon runs only if it can work");
	CHECK(r == EXIT_SUCCESS && vsAt == UNREGISTER && vsUnreg, "the daemon ends in order");
	REACH("ran");
	return 0;
}
