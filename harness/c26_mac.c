/* C26: serial number from the network address.  TEXT  the address file */
#define socket vs_socket
#define ioctl vs_ioctl
#define close vs_close
#define fopen vs_fopen
#define fclose vs_fclose
#define fscanf vs_fscanf
#define fgets vs_fgets
#define getenv vs_getenv
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#undef getenv
#undef ioctl
int vs_ioctl(int fd, unsigned long req, ...);
#define ioctl vs_ioctl
#undef fscanf
int vs_fscanf(FILE * f, const char * fmt, ...);
#define fscanf vs_fscanf
#include "util/serial_eth.c"

#define FD 12
static unsigned vsSocks, vsCloses, vsOpens, vsFcloses, vsUses;
static uint8_t vsMac[6], vsFileMac[6];
static bool vsSockWorks, vsFileWorks;
static char vsText[40];
static unsigned vsPos, vsLen;
static FILE * const vsF = (FILE *)vsText;

int vs_socket(int d, int t, int p)
{
	++vsUses;
	if (nd_bool())
		return -1;
	++vsSocks;
	return FD;
}
int vs_close(int fd)
{
	CHECK(fd == FD && vsSocks == vsCloses + 1, "the socket is closed once");
	++vsCloses;
	return 0;
}
int vs_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	CHECK(fd == FD && vsSocks == vsCloses + 1, "the socket is open");
	CHECK(req == SIOCGIFHWADDR, "the hardware address is requested");
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	CHECK(strcmp(r->ifr_name, "eth0") == 0, "of the configured interface");
	if (nd_bool()) {
		/* nothing useful is left there */
		r->ifr_hwaddr.sa_family = nd_bool() ? ARPHRD_ETHER : 0;
		return -1;
	}
	/* the interface may be something else */
	uint16_t family = nd_u16();
	r->ifr_hwaddr.sa_family = family;
	for (unsigned i = 0; i < 6; ++i)
		r->ifr_hwaddr.sa_data[i] = vsMac[i] = nd_u8();
	vsSockWorks = family == ARPHRD_ETHER;
	return 0;
}
FILE * vs_fopen(const char * n, const char * m)
{
	++vsUses;
	CHECK(strcmp(n, "/sys/class/net/eth0/address") == 0 && m[0] == 'r', "the address file is read");
	if (nd_bool())
		return NULL;
	++vsOpens;
#ifdef TEXT
	/* kernel format with free digits, perhaps damaged or cut */
	static const char hex[] = "0123456789abcdef";
	vsFileWorks = true;
	unsigned cut = nd_pick(0, 17), bad = nd_pick(0, 17);
	ASSUME(cut == 17 || bad == 17);
	for (unsigned i = 0; i < 17; ++i) {
		if (i % 3 == 2)
			vsText[vsLen++] = ':';
		else {
			uint8_t v = nd_range(0, 15);
			vsText[vsLen++] = hex[v];
			vsFileMac[i / 3] = vsFileMac[i / 3] << 4 | v;
		}
		if (i == bad) {
			vsText[vsLen - 1] = 'g';
			/* a single digit is a number, too */
			if (i % 3 != 1)
				vsFileWorks = false;
			else if (i != 16)
				vsFileWorks = false;
			else
				vsFileMac[5] >>= 4;
		}
		if (i == cut) {
			if (i < 15)
				vsFileWorks = false;
			else if (i == 15)
				vsFileMac[5] &= 0xf;
			break;
		}
	}
	vsText[vsLen++] = '\n';
#else
	static const char text[] = "00:1b:c5:0a:b0:fe\n";
	static const uint8_t mac[] = { 0x00, 0x1b, 0xc5, 0x0a, 0xb0, 0xfe };
	strcpy(vsText, text);
	memcpy(vsFileMac, mac, 6);
	vsLen = sizeof text - 1;
	vsFileWorks = true;
#endif
	return vsF;
}
int vs_fclose(FILE * f)
{
	CHECK(f == vsF && vsOpens == vsFcloses + 1, "the file is closed once");
	++vsFcloses;
	return 0;
}
static int vsHex(int c)
{
	int d = symx_and(c >= '0', c <= '9'), a = symx_and((c | 32) >= 'a', (c | 32) <= 'f');
	return d * (c - '0') + a * ((c | 32) - 'a' + 10) - !symx_or(d, a);
}
/* the conversions of a hexadecimal byte, spaces and other characters */
int vs_fscanf(FILE * f, const char * fmt, ...)
{
	int n = 0;
	va_list ap;
	CHECK(f == vsF && vsOpens == vsFcloses + 1, "the file is open");
	va_start(ap, fmt);
	for (; *fmt; ++fmt) {
		if (*fmt == ' ') {
			while (vsPos < vsLen && (vsText[vsPos] == ' ' || vsText[vsPos] == '\n'))
				++vsPos;
			continue;
		}
		if (*fmt != '%') {
			if (vsPos == vsLen || vsText[vsPos] != *fmt)
				break;
			++vsPos;
			continue;
		}
		++fmt;
		unsigned width = 99;
		if (*fmt >= '1' && *fmt <= '9')
			width = *fmt++ - '0';
		CHECK(fmt[0] == 'h' && fmt[1] == 'h' && fmt[2] == 'x', "env: conversion of scanf");
		fmt += 2;
		while (vsPos < vsLen && (vsText[vsPos] == ' ' || vsText[vsPos] == '\n'))
			++vsPos;
		unsigned v = 0, d = 0;
		/* prefix 0x */
		if (width > 2 && vsPos + 1 < vsLen && vsText[vsPos] == '0' && vsText[vsPos + 1] == 'x') {
			vsPos += 2;
			width -= 2;
			if (vsPos == vsLen || vsHex(vsText[vsPos]) < 0)
				break;
		}
		for (; width && vsPos < vsLen && vsHex(vsText[vsPos]) >= 0; ++vsPos, ++d, --width)
			v = v << 4 | vsHex(vsText[vsPos]);
		if (!d)
			break;
		*va_arg(ap, uint8_t *) = v;
		++n;
	}
	va_end(ap);
	return n ? n : vsLen ? 0 : EOF;
}

static uint32_t vsNumber(const uint8_t * mac)
{
	return ((uint32_t)mac[2] << 24 | mac[3] << 16 | mac[4] << 8 | mac[5]) & 0x7fffffff;
}

int main(void)
{
	const struct CFG_Option * o = &SERIAL_comp.config->options[0];
	bool cfg = nd_bool();
	uint32_t want = 0, got = 0xdeadbeef;
	if (cfg) {
		want = *(uint32_t *)o->var = nd_u32();
		*o->given = true;
	}
	bool first = nd_bool();
	enum SERIAL_RETURN r = SERIAL_ETH_getSerial(first ? NULL : &got);
	CHECK(vsSocks == vsCloses, "no socket stays open");
	CHECK(vsOpens == vsFcloses, "no file stays open");
	if (cfg) {
		CHECK(r == SERIAL_RETURN_SUCCESS && !vsUses, "a configured serial number is used");
		REACH("configured");
	} else if (vsSockWorks || vsFileWorks) {
		want = vsNumber(vsSockWorks ? vsMac : vsFileMac);
		CHECK(r == SERIAL_RETURN_SUCCESS, "a serial number is available");
		if (vsSockWorks)
			REACH("socket");
		else
			REACH("file");
	} else {
		CHECK(r == SERIAL_RETURN_FAIL_PERM, "without an address there is no serial number");
		CHECK(got == 0xdeadbeef, "no number is made up");
		REACH("none");
		DONE();
	}
	CHECK(first || got == want, "last 31 bits of the address");
	OBS(got);
	/* once more */
	unsigned uses = vsUses;
	got = ~want;
	CHECK(SERIAL_ETH_getSerial(&got) == SERIAL_RETURN_SUCCESS && got == want, "the number does not change");
	CHECK(uses == vsUses, "the number is not determined again");
	return 0;
}
