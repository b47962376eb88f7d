/* C14: the commands the daemon registers and what they run */
#define main vs_main
#define getopt_long vs_getopt
#define optarg vs_optarg
#define gettimeofday vs_gettimeofday
#define srand vs_srand
#define setlinebuf vs_setlinebuf
#include "nd.h"
#include <stdlib.h>
#include <getopt.h>
#include <stdio.h>
#include <sys/time.h>
void vs_exit(int c) __attribute__((noreturn));
#define STANDALONE 1
#include "env.h"
#include "core/tb.h"
#include "radarcape/main.c"
#undef main

bool FPGA_bbwhite;
struct Component FPGA_comp, WD_comp;
const struct Component TB_comp, RELAY_comp, RECV_comp, STAT_comp, SERIAL_comp;
struct Component TRIMBLE_comp;
char * vs_optarg;
static char vsName[] = "/usr/bin/openskyd-x";
static bool vsBlack;
static uint8_t vsPl[6];
static TB_ProcessorFn vsFn[TB_PACKET_TYPE_N];
static size_t vsPlLen[TB_PACKET_TYPE_N];

/* everything of the daemon's start that is not under test */
static unsigned vsOpt;
int vs_getopt(int argc, char * const * argv, const char * s, const struct option * o, int * i)
{
	if (vsBlack && !vsOpt++) {
		for (; o->name; ++o)
			if (strcmp(o->name, "black") == 0)
				return o->val;
		CHECK(0, "there is an option --black");
	}
	return -1;
}
int vs_gettimeofday(struct timeval * t, void * z) { t->tv_sec = t->tv_usec = 0; return 0; }
void vs_srand(unsigned s) {}
void vs_setlinebuf(FILE * f) {}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) {}
void COMP_register(const struct Component * c) {}
void COMP_fixup() {}
void CFG_loadDefaults() {}
bool CFG_readFile(const char * f, bool a, bool b, bool c) { return true; }
bool CFG_check() { return true; }
bool CFG_write(const char * f) { return true; }
void CFG_unregisterAll() {}
bool COMP_initAll() { return true; }
bool COMP_startAll() { return true; }
void COMP_stopAll() {}
void COMP_destructAll() {}
void COMP_unregisterAll() {}
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { return SERIAL_RETURN_SUCCESS; }
void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn)
{
	CHECK(type < TB_PACKET_TYPE_N && !vsFn[type], "every command is registered once");
	vsFn[type] = fn;
	vsPlLen[type] = len;
}

/* processes */
static unsigned vsRuns;
static bool vsChild;
static unsigned vsCmd;
static bool vsIs(char * const a[], const char * const e[])
{
	unsigned i;
	for (i = 0; e[i]; ++i)
		if (!a[i] || strcmp(a[i], e[i]))
			return false;
	return !a[i];
}
void PROC_execRaw(char * const argv[])
{
	CHECK(vsCmd == TB_PACKET_TYPE_RESTART, "only the restart command replaces the daemon");
	static const char * const e[] = { vsName, NULL }, * const b[] = { vsName, "--black", NULL };
	CHECK(vsIs(argv, vsBlack ? b : e), "the daemon is replaced by itself with the same mode");
	++vsRuns;
	REACH("restart");
	if (nd_bool())
		DONE();
}
static unsigned vsNum(const char ** s)
{
	unsigned v = 0, d = 0;
	const char * st = *s;
	while (symx_and(**s >= '0', **s <= '9')) {
		v = v * 10 + (*(*s)++ - '0');
		++d;
	}
	CHECK(d >= 1 && d <= 5, "number");
	CHECK(d == 1 || *st != '0', "number without leading zero");
	return v;
}
void PROC_forkAndExec(char * const argv[])
{
	++vsRuns;
	CHECK(!vsChild, "started by the daemon itself");
	if (vsCmd == TB_PACKET_TYPE_REBOOT) {
		static const char * const e[] = { WITH_SYSTEMD "/systemctl", "reboot", NULL };
		CHECK(vsIs(argv, e), "reboot");
		REACH("reboot");
		return;
	}
	CHECK(vsCmd == TB_PACKET_TYPE_REVERSE_SHELL, "programs run in the background");
	char * addr = argv[0] && argv[1] && argv[2] && argv[3] ? argv[4] : NULL;
	CHECK(addr != NULL, "address argument");
	const char * const e[] = { "/usr/bin/rcc", "-t", ":22", "-r", addr, "-n", NULL };
	CHECK(vsIs(argv, e), "reverse shell program");
	const char * s = addr;
	for (unsigned i = 0; i < 4; ++i) {
		CHECK(vsNum(&s) == vsPl[i], "the reverse shell goes to the address of the packet");
		CHECK(*s == (i < 3 ? '.' : ':'), "address format");
		++s;
	}
	CHECK(vsNum(&s) == (vsPl[4] << 8 | vsPl[5]), "the reverse shell goes to the port of the packet");
	CHECK(!*s, "end of address");
	REACH("shell");
}
bool PROC_fork()
{
	CHECK(vsCmd == TB_PACKET_TYPE_UPGRADE_DAEMON && !vsChild, "only the upgrade goes on in a process of its own");
	++vsRuns;
	return vsChild = nd_bool();
}
static unsigned vsStep;
static bool vsUpgraded;
bool PROC_execAndReturn(char * const argv[])
{
	CHECK(vsChild, "the daemon does not wait for the upgrade");
	static const char * const e[] = { "/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc", NULL };
	static const char * const r[] = { WITH_SYSTEMD "/systemctl", "daemon-reload", NULL };
	CHECK(vsIs(argv, vsStep == 0 ? e : r) && vsStep < 2, "programs of the upgrade");
	CHECK(vsStep == 0 || vsUpgraded, "the daemon is left alone if the upgrade failed");
	bool rc = nd_bool();
	if (vsStep++ == 0)
		vsUpgraded = rc;
	return rc;
}
void PROC_execAndFinalize(char * const argv[])
{
	static const char * const e[] = { WITH_SYSTEMD "/systemctl", "restart", "openskyd", NULL };
	CHECK(vsChild && vsUpgraded && vsStep == 2, "the daemon is restarted after a successful upgrade");
	CHECK(vsIs(argv, e), "restart of the upgraded daemon");
	REACH("upgrade");
	DONE();
}
void vs_exit(int c)
{
	CHECK(vsChild && vsStep, "only the upgrade process ends");
	CHECK(!vsUpgraded, "after a failed upgrade");
	REACH("upgrade failed");
	DONE();
}

void UTIL_waitSigInt()
{
	static const unsigned len[] = { [TB_PACKET_TYPE_REVERSE_SHELL] = 6, [TB_PACKET_TYPE_FILTER] = 0, 0 };
	vsCmd = nd_pick(0, TB_PACKET_TYPE_UPGRADE_DAEMON);
	CHECK(vsFn[vsCmd] != NULL, "the daemon accepts the command");
	CHECK(vsPlLen[vsCmd] == (vsCmd == TB_PACKET_TYPE_REVERSE_SHELL ? 6 : 0), "payload length of the command");
	CHECK(!vsFn[4] && !vsFn[5], "no other command");
	uint8_t * pl = malloc(vsPlLen[vsCmd]);
	for (unsigned i = 0; i < vsPlLen[vsCmd]; ++i)
		pl[i] = vsPl[i] = nd_u8();
	vsFn[vsCmd](pl);
	CHECK(!vsChild, "the upgrade process never returns to the daemon's work");
	CHECK(vsRuns == 1, "the command is run once");
	free(pl);
	REACH("returned");
	DONE();
}

int main(void)
{
	vsBlack = nd_bool();
	char * argv[] = { vsName, vsBlack ? (char *)"--black" : NULL, NULL };
	vs_main(vsBlack ? 2 : 1, argv);
	return 0;
}
