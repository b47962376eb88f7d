/* C30: programming the FPGA */
#define open vs_open
#define close vs_close
#define mmap vs_mmap
#define munmap vs_munmap
#define usleep vs_usleep
#include "nd.h"
#include "env.h"
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <limits.h>
#define FWDIR "/fw"
#define stat(n, b) vs_stat(n, b)
#define fstat(n, b) vs_fstat(n, b)
struct stat;
int vs_stat(const char *, struct stat *);
int vs_fstat(int, struct stat *);
#include "radarcape/fpga.c"
#include "cfg.h"
static char * vsName;
#undef stat
#undef fstat
#ifndef SIZE
#define SIZE 2
#endif

struct Component GPIO_comp;
void CFG_registerSection(const struct CFG_Section * s) {}
static char vsWant[PATH_MAX + 16];
static uint8_t vsImage[SIZE ? SIZE : 1];
static unsigned vsSize;
static bool vsOpen, vsMapped, vsMapFailed, vsOpenFailed, vsStatFailed;
static uint64_t vsTime;
/* the pins of the board */
static const struct { unsigned confd, dclk, nstat, data0, nconf; } vsBoards[2] = {
	{ 45, 47, 46, 44, 61 }, { 38, 39, 34, 44, 37 } }, * vsB;
/* the device */
static int vsClk = -1, vsData = -1, vsConf = -1;
static unsigned vsBits, vsAttempts, vsReads, vsDoneReads, vsStatReads;
static bool vsError, vsReady, vsDone, vsWrong, vsLow, vsHurry, vsStubborn;
static bool vsDir[128], vsIsOut[128];
static uint64_t vsLowAt;
static unsigned vsReadyAfter, vsDoneAfter, vsErrorAt;

#ifdef PATHS
static bool vsAbs, vsExists;
#endif
int vs_stat(const char * n, struct stat * st)
{
	memset(st, 0, sizeof *st);
#ifdef PATHS
	CHECK(!strcmp(n, vsName), "env: the configured name is looked at");
	errno = ENOENT;
	return vsExists ? 0 : -1;
#endif
	return nd_bool() ? 0 : -1;
}
int vs_open(const char * n, int flags, ...)
{
	CHECK(!vsOpen && (flags & O_ACCMODE) == O_RDONLY, "the image is opened for reading");
#ifdef PATHS
	if (vsAbs && !strcmp(n, vsName)) {
		if (!vsExists) {
			errno = ENOENT;
			return -1;
		}
		REACH("absolute");
	} else {
		CHECK(!(vsAbs && vsExists), "an image that exists is opened by its own name");
		CHECK(!strncmp(n, "/fw/", 4) && !strcmp(n + 4, vsName), "the configured image is opened");
		REACH("relative");
	}
	DONE();
#endif
	if (nd_bool()) {
		vsOpenFailed = true;
		return -1;
	}
	vsOpen = true;
	return nd_pick(0, 1) * 6;
}
int vs_fstat(int fd, struct stat * st)
{
	CHECK(vsOpen, "file is open");
	memset(st, 0, sizeof *st);
	if (nd_bool()) {
		vsStatFailed = true;
		return -1;
	}
	st->st_size = vsSize;
	st->st_mode = S_IFREG | 0644;
	return 0;
}
int vs_close(int fd)
{
	CHECK(vsOpen, "the image is closed once");
	vsOpen = false;
	return 0;
}
void * vs_mmap(void * a, size_t l, int prot, int flags, int fd, off_t off)
{
	CHECK(vsOpen && !a && l == vsSize && (prot & PROT_READ) && !off && !vsMapped, "the image is mapped");
	if (!l || nd_bool()) {
		vsMapFailed = true;
		return MAP_FAILED;
	}
	vsMapped = true;
	return vsImage;
}
int vs_munmap(void * p, size_t l)
{
	CHECK(vsMapped && p == vsImage && l == vsSize, "the image is unmapped once");
	vsMapped = false;
	return 0;
}
int vs_usleep(useconds_t us)
{
	vsTime += us;
	CHECK(vsTime <= 1000000, "programming does not hang");
	vsHurry = false;
	return 0;
}
/* choices of the device, per attempt: it is ready after some waiting or never,
 * shows an error after some byte or none, and is configured after some waiting or never */
static void vsAttempt(void)
{
	static const uint8_t w[] = { 0, 4, 255 };
#ifdef FREEIMAGE
	vsReadyAfter = 1;
	vsDoneAfter = 0;
	vsErrorAt = vsAttempts ? 0 : nd_pick(0, vsSize);
#else
	vsReadyAfter = w[nd_pick(0, 2)];
	vsDoneAfter = w[nd_pick(0, 2)];
	vsErrorAt = nd_pick(0, vsSize);
#endif
	/* a device that sets its done line in spite of an error */
	vsStubborn = vsErrorAt && nd_bool();
	vsReads = vsDoneReads = vsStatReads = vsBits = 0;
	vsReady = vsDone = vsError = vsWrong = false;
	++vsAttempts;
	CHECK(vsAttempts <= 3, "three attempts");
}
void GPIO_setDirection(uint_fast32_t pin, enum GPIO_DIRECTION dir)
{
	CHECK(pin == vsB->confd || pin == vsB->dclk || pin == vsB->nstat || pin == vsB->data0 || pin == vsB->nconf, "pins of the board");
	vsDir[pin] = true;
	vsIsOut[pin] = dir == GPIO_DIRECTION_OUT;
}
static void vsWrite(unsigned pin, int v)
{
	CHECK(vsDir[pin] && vsIsOut[pin], "pin is an output");
	if (pin == vsB->nconf) {
		if (!v && vsConf) {
			vsLowAt = vsTime;
			vsLow = true;
		}
		if (v && vsConf == 0) {
			CHECK(vsTime - vsLowAt >= 1000, "the reset is long enough");
			CHECK(vsClk == 0, "the clock is low after the reset");
			vsAttempt();
		}
		vsConf = v;
	} else if (pin == vsB->dclk) {
		if (v && vsClk == 0) {
			CHECK(vsConf == 1 && vsReady, "data are clocked in after the handshake");
			CHECK(vsBits < 8 * vsSize, "each bit is sent once");
			CHECK(vsData == (vsImage[vsBits >> 3] >> (vsBits & 7) & 1), "the image is sent, least significant bit first");
			++vsBits;
			if (vsErrorAt && vsBits >= 8 * vsErrorAt)
				vsError = true;
		}
		vsClk = v;
	} else if (pin == vsB->data0)
		vsData = v;
	else
		CHECK(0, "only outputs are written");
}
void GPIO_set(uint_fast32_t pin) { vsWrite(pin, 1); }
void GPIO_clear(uint_fast32_t pin) { vsWrite(pin, 0); }
uint_fast32_t GPIO_read(uint_fast32_t pin)
{
	CHECK(vsDir[pin] && !vsIsOut[pin], "pin is an input");
	if (pin == vsB->nstat) {
		if (vsConf != 1)
			return 0;
		if (!vsReady) {
			if (vsReadyAfter == 255 || vsReads++ < vsReadyAfter)
				return 0;
			return vsReady = true;
		}
		return !vsError;
	}
	CHECK(pin == vsB->confd, "only inputs are read");
	if (vsBits != 8 * vsSize || (vsError && !vsStubborn) || vsDoneAfter == 255 || vsDoneReads++ < vsDoneAfter)
		return 0;
	return vsDone = true;
}

int main(void)
{
	FPGA_bbwhite = nd_pick(0, 1);
	vsB = &vsBoards[FPGA_bbwhite];
	cfgBool(FPGA_comp.config, "Configure", true);
	vsName = vs_opt(FPGA_comp.config, "File")->var;
#ifdef PATHS
	static const uint16_t l[] = { 1, 12, 200, PATH_MAX - 6, PATH_MAX - 5, PATH_MAX - 4, PATH_MAX - 3, PATH_MAX - 2, PATH_MAX - 1 };
	unsigned len = l[nd_pick(0, sizeof l / sizeof *l - 1)];
	memset(vsName, 'x', len);
	vsAbs = nd_bool();
	if (vsAbs)
		vsName[0] = '/';
	vsExists = vsAbs && nd_bool();
	vsSize = 1;
#else
	memcpy(vsName, "img", 4);
	vsSize = SIZE ? nd_pick(0, SIZE) : 0;
	static const uint8_t some[] = { 0x01, 0x80, 0xa6 };
	for (unsigned i = 0; i < vsSize; ++i)
#ifdef FREEIMAGE
		vsImage[i] = nd_u8();
#else
		vsImage[i] = some[(i + vsSize) % 3];
#endif
#endif
	CHECK(FPGA_comp.config->check(FPGA_comp.config), "configuration is accepted");
	CHECK(FPGA_comp.dependencies[0] == &GPIO_comp, "the pins are set up before");
	CHECK(FPGA_comp.onConstruct(NULL), "construction");
	CHECK(vsDir[vsB->confd] && vsDir[vsB->dclk] && vsDir[vsB->nstat] && vsDir[vsB->data0] && vsDir[vsB->nconf], "all pins are set up");
	CHECK(!vsIsOut[vsB->confd] && vsIsOut[vsB->dclk] && !vsIsOut[vsB->nstat] && vsIsOut[vsB->data0] && vsIsOut[vsB->nconf], "directions of the pins");
	bool r = FPGA_comp.onStart();
	CHECK(!vsOpen, "the image is closed");
	CHECK(!vsMapped, "the image is unmapped");
	if (r) {
		CHECK(vsAttempts && vsReady && !vsError && vsBits == 8 * vsSize && vsDone, "success only if the device is configured");
		REACH("configured");
	} else {
#ifdef PATHS
		CHECK(len + 4 >= PATH_MAX && !(vsAbs && vsExists), "only an image whose path is too long cannot be used");
		REACH("too long");
#else
		CHECK(vsOpenFailed || vsStatFailed || vsMapFailed || vsAttempts == 3, "fails after three attempts");
		CHECK(vsReadyAfter > 4 || vsDoneAfter > 4 || vsErrorAt || !vsAttempts, "a working device is configured");
#endif
		REACH("failed");
	}
	OBS(r);
	OBS(vsAttempts);
	return 0;
}
