/* C26: a configuration that is saved does not invent a serial number */
#include "savefile_macros.h"
#define socket vs_socket
#define close vs_close
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#undef putc
#define putc vs_fputc
#undef ioctl
int vs_ioctl(int fd, unsigned long req, ...);
#define ioctl vs_ioctl
#undef fscanf
#define fscanf vs_fscanf
int vs_fscanf(FILE * f, const char * fmt, ...) { return 0; }
#include "util/cfgfile.c"
#define PFX vsPFX
#include "util/serial_eth.c"
#undef PFX
static FILE * vsOther(const char * n) { return NULL; }
#define SAVE_OTHER vsOther
#include "savefile.h"

static uint8_t vsMac[6];
static bool vsWorks = true;
int vs_socket(int d, int t, int p) { return 12; }
int vs_close(int fd) { return 0; }
int vs_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	if (!vsWorks)
		return -1;
	r->ifr_hwaddr.sa_family = ARPHRD_ETHER;
	memcpy(r->ifr_hwaddr.sa_data, vsMac, 6);
	return 0;
}
static uint32_t vsFromMac(void)
{
	return (vsMac[2] & 0x7f) << 24 | vsMac[3] << 16 | vsMac[4] << 8 | vsMac[5];
}

int main(void)
{
	static const uint8_t macs[][6] = { { 2, 0, 0, 0, 0, 0 }, { 0, 0x1b, 0xc5, 0x0a, 0xb0, 0xfe }, { 255, 255, 255, 255, 255, 255 } };
	memcpy(vsMac, macs[nd_pick(0, 2)], 6);
	CFG_registerSection(SERIAL_comp.config);
	CFG_loadDefaults();
	static const struct { const char * text; uint32_t v; bool given; } t[] = {
		{ "", 0, false }, { "[DEVICE]\nserial =\n", 0, false }, { "[DEVICE]\nSerial = 7", 7, true },
		{ "[device]\nserial = 0\n", 0, true }, { "[DEVICE]\nserial = 2147483647\n", 2147483647, true },
		{ "[DEVICE]\nserial = x\n", 0, false } };
	unsigned k = nd_pick(0, sizeof t / sizeof *t - 1);
	strcpy(vsFile, t[k].text);
	vsSize = strlen(t[k].text);
	CHECK(CFG_readFile("in.conf", true, true, true), "the configuration is loaded");
	vsWorks = nd_bool();
	uint32_t serial = 1;
	bool ask = nd_bool();
	if (ask) {
		bool ok = SERIAL_ETH_getSerial(&serial) == SERIAL_RETURN_SUCCESS;
		CHECK(ok == (t[k].given || vsWorks), "a number is available if given or from the address");
		if (ok)
			CHECK(serial == (t[k].given ? t[k].v : vsFromMac()), "the number given or of the address");
	}
	/* saved, and loaded again by a later start */
	bool known = t[k].given;
	vsSize = 0;
	CHECK(CFG_write("out.conf"), "the configuration is saved");
	CFG_loadDefaults();
	CHECK(CFG_readFile("out.conf", true, true, false), "the saved configuration is loaded");
	if (!ask || !vsWorks || known)
		vsWorks = nd_bool();
	bool ok = SERIAL_ETH_getSerial(&serial) == SERIAL_RETURN_SUCCESS;
	CHECK(ok == (known || vsWorks), "a number is available if given or from the address");
	if (ok) {
		CHECK(serial == (known ? t[k].v : vsFromMac()), "saving does not change the number");
		REACH("number");
	} else
		REACH("none");
	if (known)
		REACH("given");
	return 0;
}
