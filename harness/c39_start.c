/* C39: the feeder from its start to its end, with its real options.
 * DIRS  the directories it needs      FILES  contents of the configuration
 * RUN   construction and start        NAME   user names of any length */
#define main vs_main
#define setlinebuf vs_setlinebuf
#define gettimeofday vs_gettimeofday
#define srand vs_srand
#define stat vs_stat
#define mkdir vs_mkdir
#include "nd.h"
#include <stdlib.h>
#include <stdio.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <dirent.h>
#include "env.h"
#include "dump1090/dump1090.c"
#undef main
#include "cfg.h"
#include "radarcape/rc-input.h"

static const char vsVar[] = LOCALSTATEDIR, vsVarD[] = LOCALSTATEDIR "/conf.d", vsEtcD[] = SYSCONFDIR "/conf.d";

/* what happens, in this order */
static enum { BEGIN, DEFAULTS, READ_VAR, READ_ETC, INIT, START, WAIT, STOP, DESTRUCT, UNREGISTER } vsAt;
static bool vsInitOk = true, vsStartOk = true, vsRefuse;
static unsigned vsTypes, vsNames, vsUnreg;
static enum OPENSKY_DEVICE_TYPE vsType;
static char vsName[OPENSKY_MAX_USERNAME + 2];

/* ---- directories ---- */
static enum { OKAY, OTHER, ABSENT, ABSENT_FAIL, NOACCESS, NOTADIR, IOERR } vsDir[2];
static unsigned vsMade[2], vsSeen[2];
static int vsWhich(const char * p)
{
	if (!strcmp(p, vsVarD))
		return 1;
	CHECK(!strcmp(p, vsVar), "the directories of the feeder are looked at");
	return 0;
}
int vs_stat(const char * p, struct stat * st)
{
	int w = vsWhich(p);
	vsSeen[w] = 1;
	if (w)
		CHECK(vsSeen[0] && (vsDir[0] == OKAY || vsMade[0]), "the outer directory comes first");
	memset(st, 0, sizeof *st);
	switch (vsDir[w]) {
	case OKAY: st->st_mode = S_IFDIR | 0755; return 0;
	case OTHER: {
		static const mode_t t[] = { S_IFREG, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK };
		st->st_mode = t[nd_pick(0, 4)] | 0755;
		return 0;
	}
	case ABSENT:
	case ABSENT_FAIL: errno = ENOENT; return -1;
	case NOACCESS: errno = EACCES; return -1;
	case NOTADIR: errno = ENOTDIR; return -1;
	default: errno = EIO; return -1;
	}
}
int vs_mkdir(const char * p, mode_t m)
{
	int w = vsWhich(p);
	CHECK(vsSeen[w] && (vsDir[w] == ABSENT || vsDir[w] == ABSENT_FAIL) && !vsMade[w], "a directory is created if it is missing");
	CHECK((m & 0700) == 0700 && !(m & 022), "only its owner can change a created directory");
	if (vsDir[w] == ABSENT_FAIL) {
		errno = EACCES;
		return -1;
	}
	vsMade[w] = 1;
	REACH("created");
	return 0;
}

/* ---- configuration ---- */
static const char * const vsTexts[] = {
	NULL, /* the directory cannot be read */
	"", /* no file */
	"[IDENT]\nUsername = bob\n",
	"[Device]\nType = hptoa\n",
	"[DEVICE]\ntype = OpenSky\n",
	"[Device]\nType = hptoax\n",
	"[Network]\nHost =\n",
	"[Network]\nHost = h\nPort = 7\n",
	"[Network]\nPort = 0\n",
	"[Input]\nHost =\n",
	"[INPUT]\nPort = 30006\nHost = g\n",
	"[INPUT]\nPort = 0\n",
	"[FILTER]\nSyncFilter = true\n",
	"[FILTER]\nSyncFilter = false\nCRC = false\nModeSExtSquitterOnly = false\n",
	"[IDENT]\nUsername = al\n[x]\ny = z\n[INPUT\n",
};
#define TEXTS (sizeof vsTexts / sizeof *vsTexts)
static unsigned vsText[2];
#ifdef NAME
static char vsNameText[64];
#endif
/* expected values */
static const char * vsHost = "collector.opensky-network.org", * vsInHost = "localhost";
static unsigned vsPort = 10004, vsInPort = 30005;
static bool vsSync = false, vsCrc = true, vsExt = true;
static bool vsHptoa;
static char vsUser[OPENSKY_MAX_USERNAME + 2];

static void vsApply(unsigned t)
{
	switch (t) {
	case 2: strcpy(vsUser, "bob"); break;
	case 3: case 4: vsHptoa = true; break;
	case 5: vsHptoa = false; break;
	case 6: vsHost = "collector.opensky-network.org"; break;
	case 7: vsHost = "h"; vsPort = 7; break;
	case 8: vsPort = 0; break;
	case 9: vsInHost = "localhost"; break;
	case 10: vsInPort = 30006; vsInHost = "g"; break;
	case 11: vsInPort = 0; break;
	case 12: vsSync = true; break;
	case 13: vsSync = vsCrc = vsExt = false; break;
	case 14: strcpy(vsUser, "al"); break;
	}
}
int vs_scandir(const char * path, struct dirent *** list, int (*filter)(const struct dirent *),
	int (*cmp)(const struct dirent **, const struct dirent **))
{
	CHECK(vsAt == DEFAULTS || vsAt == READ_VAR, "the configuration is read once, after its defaults were set");
	int w = vsAt == READ_VAR;
	CHECK(!strcmp(path, w ? vsEtcD : vsVarD), "the files of the feeder come first, then those of the administrator");
	for (int i = 0; i < 2; ++i)
		CHECK(vsDir[i] == OKAY || (vsDir[i] == ABSENT && vsMade[i]), "the directories can be used");
	++vsAt;
	if (!vsTexts[vsText[w]]) {
		errno = ENOENT;
		return -1;
	}
	struct dirent ** l = malloc(sizeof *l);
	*list = l;
#ifndef NAME
	if (!vsTexts[vsText[w]][0])
		return 0;
#endif
	struct dirent * d = malloc(sizeof *d);
	d->d_type = DT_REG;
	strcpy(d->d_name, "10-x.conf");
	l[0] = d;
	if (filter && !filter(d)) {
		CHECK(0, "the file is accepted");
		return 0;
	}
	return 1;
}
struct MMAP { int dummy; };
static struct MMAP vsM;
static const char * vsMap;
struct MMAP * MMAP_open(const char * prefix, const char * file)
{
	CHECK(vsAt == READ_VAR || vsAt == READ_ETC, "files are read from the directories");
	int w = vsAt == READ_ETC;
	const char * d = w ? vsEtcD : vsVarD;
	CHECK(!strncmp(file, d, strlen(d)) && !strcmp(file + strlen(d), "/10-x.conf"), "the files of the directory are read");
	vsMap = vsTexts[vsText[w]];
#ifdef NAME
	vsMap = vsNameText;
#endif
	vsApply(vsText[w]);
	return &vsM;
}
void MMAP_close(struct MMAP * m) {}
const void * MMAP_getPtr(const struct MMAP * m) { return vsMap; }
size_t MMAP_getSize(const struct MMAP * m) { return strlen(vsMap); }

/* ---- other parts ---- */
const struct Component TB_comp, RELAY_comp, RECV_comp, STAT_comp, SERIAL_comp, GPS_comp;
extern const struct Component NET_comp, FILTER_comp;
static unsigned vsRegs;
static bool vsFixed;
int vs_gettimeofday(struct timeval * t, void * z)
{
	t->tv_sec = nd_range(0, 0x7fffffff);
	t->tv_usec = nd_range(0, 999999);
	return 0;
}
void vs_srand(unsigned s) {}
void vs_setlinebuf(FILE * f) {}
void COMP_register(const struct Component * c)
{
	CHECK(vsAt == BEGIN && !vsFixed, "components are registered first");
	if (c == &TB_comp) vsRegs |= 1;
	if (c == &RELAY_comp) vsRegs |= 2;
	if (c == &RECV_comp) vsRegs |= 4;
	if (c == &SERIAL_comp) vsRegs |= 8;
	if (c == &GPS_comp) vsRegs |= 16;
	if (c->config)
		CFG_registerSection(c->config);
}
void COMP_fixup()
{
	CHECK(vsRegs == 31, "all parts of the feeder are registered");
	vsFixed = true;
	CFG_registerSection(NET_comp.config);
	CFG_registerSection(FILTER_comp.config);
	RC_INPUT_register();
	vsAt = DEFAULTS;
}
static bool vsIs(const char * a, const char * b) { return !strcmp(a, b); }
static bool vsConsistent(void) { return vsHost[0] && vsPort && vsInHost[0] && vsInPort; }
static unsigned vsConnects;
sock_t NETC_connect(const char * c, const char * h, uint16_t p)
{
	CHECK(vsIs(h, vsInHost) && p == vsInPort, "host and port of the receiver");
	++vsConnects;
	return 5;
}
static void vsConfig(void)
{
	CHECK(vsIs(vs_opt(NET_comp.config, "Host")->var, vsHost), "host of the network");
	CHECK(*(uint_fast16_t *)vs_opt(NET_comp.config, "Port")->var == vsPort, "port of the network");
	CHECK(cfgGetBool(FILTER_comp.config, "SyncFilter") == vsSync, "filter of unsynchronised frames");
	CHECK(cfgGetBool(FILTER_comp.config, "CRC") == vsCrc, "check of frames");
	CHECK(cfgGetBool(FILTER_comp.config, "ModeSExtSquitterOnly") == vsExt, "filter of frames");
	CHECK(FILTER_getConfiguration()->sync == vsSync && FILTER_getConfiguration()->extSquitter == vsExt, "configuration of the filter");
	unsigned n = vsConnects;
	RC_INPUT_init();
	RC_INPUT_connect();
	CHECK(vsConnects == n + 1, "receiver");
}
bool COMP_initAll()
{
	CHECK(vsAt == READ_ETC, "components are constructed once, with the configuration");
	CHECK(vsConsistent(), "the feeder runs only with a consistent configuration");
	vsConfig();
	vsAt = INIT;
	return vsInitOk;
}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t)
{
	CHECK(vsAt < START && vsAt > READ_VAR, "the device type is known when the feeder starts");
	++vsTypes;
	vsType = t;
}
void LOGIN_setUsername(const char * n)
{
	CHECK(vsAt < START && vsAt > READ_VAR, "the user name is known when the feeder starts");
	CHECK(strlen(n) <= OPENSKY_MAX_USERNAME, "user name fits");
	++vsNames;
	strcpy(vsName, n);
}
bool COMP_startAll()
{
	CHECK(vsAt == INIT && vsInitOk, "components are started once they are constructed");
	CHECK(vsTypes && vsType == (vsHptoa ? OPENSKY_DEVICE_TYPE_FEEDER_HPTOA : OPENSKY_DEVICE_TYPE_FEEDER), "configured device type");
	CHECK(vsNames && vsIs(vsName, vsUser), "configured user name");
	REACH("start");
	vsAt = START;
	return vsStartOk;
}
void UTIL_waitSigInt()
{
	CHECK(vsAt == START && vsStartOk, "the feeder runs until it is told to stop");
	vsAt = WAIT;
}
void COMP_stopAll()
{
	CHECK(vsAt == WAIT, "the feeder runs until it is told to stop");
	vsAt = STOP;
}
void COMP_destructAll()
{
	CHECK(vsAt == STOP, "components are destructed after they were stopped");
	vsAt = DESTRUCT;
}
void COMP_unregisterAll()
{
	CHECK(vsAt == DESTRUCT, "components are forgotten after they were destructed");
	vsAt = UNREGISTER;
}
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return 0; }
void INPUT_reconfigure() { CHECK(vsAt < INIT, "no reconfiguration"); }
void TB_register(uint32_t t, size_t l, TB_ProcessorFn f) {}

static void vsEmerg(void)
{
	bool dir = false;
	for (int i = 0; i < 2; ++i)
		if (vsDir[i] != OKAY && vsDir[i] != ABSENT)
			dir = true;
	if (dir) {
		REACH("directory");
		CHECK(vsAt <= DEFAULTS, "a directory that cannot be used is reported at once");
	} else if (!vsConsistent()) {
		REACH("inconsistent");
		CHECK(vsAt == READ_ETC, "the configuration is checked after reading");
	} else
		CHECK(!vsInitOk || !vsStartOk, "the feeder stops only if it cannot work");
	REACH("refused");
}

int main(void)
{
	env_onEmerg = vsEmerg;
#ifdef DIRS
	vsDir[0] = nd_pick(OKAY, IOERR);
	vsDir[1] = nd_pick(OKAY, IOERR);
	ASSUME(vsDir[0] != ABSENT || vsDir[1] == ABSENT || vsDir[1] == ABSENT_FAIL);
	vsText[0] = vsText[1] = nd_pick(0, 1);
#endif
#ifdef FILES
	vsText[0] = nd_pick(0, TEXTS - 1);
	vsText[1] = nd_pick(0, TEXTS - 1);
#endif
#ifdef RUN
	vsInitOk = nd_bool();
	vsStartOk = nd_bool();
	vsText[0] = 1;
	vsText[1] = 2;
#endif
#ifdef NAME
	strcpy(vsNameText, "[IDENT]\nUsername=");
	unsigned l = nd_pick(0, OPENSKY_MAX_USERNAME), n = strlen(vsNameText);
	for (unsigned i = 0; i < l; ++i)
		vsNameText[n + i] = vsUser[i] = nd_range('a', 'z');
	vsNameText[n + l] = '\n';
	vsText[0] = 1;
	vsText[1] = 0;
#endif
	char * argv[] = { "openskyd-dump1090", NULL };
	int r = vs_main(1, argv);
	CHECK(r == EXIT_SUCCESS && vsAt == UNREGISTER, "regular end");
	REACH("ran");
	return 0;
}
