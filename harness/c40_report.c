/* C40: the periodic report of the statistics, with the real report and any
 * numbers counted.  What is printed is collected line by line: a number becomes
 * a mark in the line, its value is kept beside it.
 * REPORTS reports   RATES concrete numbers, rates and percentages are compared */
#define printf vs_printf
#define vprintf vs_vprintf
#define putchar vs_putchar
#define puts vs_puts
#define fputs vs_fputs
#define fputc vs_fputc
#define fprintf vs_fprintf
#define vfprintf vs_vfprintf
#define fflush vs_fflush
#define time vs_time
#define sleep vs_sleep
#define ctime_r vs_ctime_r
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef putchar
#undef fputc
#undef putc
#define putchar vs_putchar
#define fputc vs_fputc
#define putc vs_fputc
int vs_putchar(int);
int vs_fputc(int, FILE *);
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "util/statistics.c"
#ifndef REPORTS
#define REPORTS 1
#endif

/* ---- what was counted ---- */
static struct BUFFER_Statistics vsBuf;
static struct NET_Statistics vsNet;
static struct FILTER_Statistics vsFil, vsLastFil;
static uint64_t vsTotal, vsModeS, vsLastTotal;
static time_t vsNow, vsStart, vsLast;
static uint64_t vsSecs, vsDelta;
static uint32_t vsInterval;
static unsigned vsReports;
static bool vsRunning;
#ifndef RATES
static unsigned vsAny;
#endif

void BUFFER_getStatistics(struct BUFFER_Statistics * s) { *s = vsBuf; }
void NET_getStatistics(struct NET_Statistics * s) { *s = vsNet; }
void FILTER_getStatistics(struct FILTER_Statistics * s) { *s = vsFil; }
time_t vs_time(time_t * t)
{
	if (t)
		*t = vsNow;
	return vsNow;
}
char * vs_ctime_r(const time_t * t, char * b)
{
	CHECK(*t == vsStart, "the start of the program is reported");
	return strcpy(b, "STARTED\n");
}

/* ---- expected lines ---- */
enum { NOPCT, OFTOTAL, OFMODES, OFPOOL, OFSECS };
static struct {
	const char * label;
	uint64_t value, last;
	int pct;
	bool rate, since; /* with a rate over the whole time, since the last report */
	unsigned seen;
} vsE[80];
static unsigned vsNE;
static char vsTypes[32][10];
static void vsExpect(const char * l, uint64_t v, uint64_t last, int pct, bool rate, bool since)
{
	vsE[vsNE].label = l;
	vsE[vsNE].value = v;
	vsE[vsNE].last = last;
	vsE[vsNE].pct = pct;
	vsE[vsNE].rate = rate;
	vsE[vsNE].since = since;
	vsE[vsNE].seen = 0;
	++vsNE;
}
static unsigned vsFirstOther;
static void vsExpectAll(void)
{
	vsNE = 0;
	/* longer labels that contain shorter ones first */
	vsExpect("frames received", vsTotal, vsLastTotal, NOPCT, true, true);
	vsExpect("Mode-A/C", vsFil.framesByType[0], vsLastFil.framesByType[0], OFTOTAL, true, true);
	vsExpect("Mode-S Short", vsFil.framesByType[1], vsLastFil.framesByType[1], OFTOTAL, true, true);
	vsExpect("Mode-S Long", vsFil.framesByType[2], vsLastFil.framesByType[2], OFTOTAL, true, true);
	vsExpect("status", vsFil.framesByType[3], vsLastFil.framesByType[3], OFTOTAL, true, true);
	vsExpect("unknown", vsFil.unknown, vsLastFil.unknown, OFTOTAL, true, true);
	vsExpect("Mode-S filtered", vsFil.modeSfiltered, vsLastFil.modeSfiltered, OFTOTAL, true, true);
	vsExpect("filtered", vsFil.filtered, vsLastFil.filtered, OFTOTAL, true, true);
	vsExpect("unsynchronized", vsFil.unsynchronized, 0, NOPCT, false, false);
	vsExpect("queued messages (current)", vsBuf.queueSize, 0, NOPCT, false, false);
	vsExpect("queued messages (max)", vsBuf.maxQueueSize, 0, NOPCT, false, false);
	vsExpect("discarded messages (current)", vsBuf.discardedCur, 0, NOPCT, false, false);
	vsExpect("discarded messages (overall)", vsBuf.discardedAll, 0, NOPCT, false, false);
	vsExpect("discarded messages (in worst", vsBuf.discardedMax, 0, NOPCT, false, false);
	vsExpect("messages in pool", vsBuf.poolSize, 0, OFPOOL, false, false);
	vsExpect("uncollected dynamic pools", vsBuf.uncollectedPools, 0, NOPCT, false, false);
	vsExpect("dynamic pools (current)", vsBuf.dynPools, 0, NOPCT, false, false);
	vsExpect("dynamic pools (overall)", vsBuf.dynPoolsAll, 0, NOPCT, false, false);
	vsExpect("dynamic pools (max)", vsBuf.dynPoolsMax, 0, NOPCT, false, false);
	vsExpect("flushes", vsBuf.flushes, 0, NOPCT, false, false);
	vsExpect("Garbage Collector runs", vsBuf.GCruns, 0, NOPCT, false, false);
	vsExpect("seconds online", vsNet.onlineSecs, 0, OFSECS, false, false);
	vsExpect("disconnections", vsNet.disconnects, 0, NOPCT, false, false);
	vsExpect("connection attempts", vsNet.connectionAttempts, 0, NOPCT, false, false);
	vsExpect("bytes sent", vsNet.bytesSent, 0, NOPCT, true, false);
	vsExpect("bytes received", vsNet.bytesReceived, 0, NOPCT, true, false);
	vsFirstOther = vsNE;
	for (unsigned i = 0; i < 32; ++i)
		vsExpect(vsTypes[i], vsFil.modeSByType[i], vsLastFil.modeSByType[i], OFMODES, true, true);
}

/* ---- output ---- */
static char vsLine[300];
static unsigned vsLen;
static uint64_t vsInt[12];
static double vsDbl[12];
static unsigned vsNI, vsND;
static bool vsOnline, vsOffline, vsOverload, vsStarted, vsSince;

#ifdef RATES
static void vsNear(double have, double want, const char * what)
{
	double d = have - want, m = want;
	if (d < 0)
		d = -d;
	if (m < 0)
		m = -m;
	CHECK(d <= m * 1e-9, what);
}
#endif
static void vsEnd(void)
{
	char * l = vsLine;
	l[vsLen] = 0;
	if (strstr(l, "currently online"))
		vsOnline = true;
	else if (strstr(l, "currently offline"))
		vsOffline = true;
	else if (strstr(l, "currently in overload"))
		vsOverload = true;
	else if (strstr(l, "started on STARTED"))
		vsStarted = true;
	else if (strstr(l, "running since")) {
		vsSince = true;
		CHECK(vsNI == 4, "days, hours, minutes and seconds are reported");
		CHECK(symx_and(symx_and(vsInt[1] < 24, vsInt[2] < 60), vsInt[3] < 60), "hours, minutes and seconds are in their range");
		CHECK(vsInt[0] * 86400 + vsInt[1] * 3600 + vsInt[2] * 60 + vsInt[3] == vsSecs, "the time since the start is reported");
	} else if (vsNI) {
		unsigned i;
		char * at = NULL;
		for (i = 0; i < vsNE; ++i)
			if ((at = strstr(l, vsE[i].label)))
				break;
		/* other numbers are no concern of the property */
		if (i < vsNE) {
			++vsE[i].seen;
			CHECK(vsInt[0] == vsE[i].value, "each number reported is what was counted");
#ifdef RATES
			unsigned k = 0, r = 0;
			for (char * c = l; *c; ++c)
				if (*c == '\2') {
					double d = vsDbl[k++];
					if (c[1] == '%') {
						static const char m[] = "a percentage is the share of the whole";
						switch (vsE[i].pct) {
						case OFTOTAL: vsNear(d, vsTotal ? 100. * vsE[i].value / vsTotal : 0, m); break;
						case OFMODES: vsNear(d, 100. * vsE[i].value / vsModeS, m); break;
						case OFPOOL: vsNear(d, 100. * vsBuf.queueSize / (vsBuf.queueSize + vsBuf.poolSize), m); break;
						case OFSECS: vsNear(d, 100. * vsNet.onlineSecs / vsSecs, m); break;
						}
						REACH("percentage");
					} else {
						if (r++)
							vsNear(d, (double)(vsE[i].value - vsE[i].last) / vsDelta, "the second rate is the one since the last report");
						else
							vsNear(d, (double)vsE[i].value / vsSecs, "the first rate is the one since the start");
						REACH("rate");
					}
				}
			CHECK(r == vsE[i].rate + (vsE[i].since && vsDelta), "rates are reported");
#endif
		}
	}
	vsLen = vsNI = vsND = 0;
}
static void vsPut(char c)
{
	CHECK(vs_cancelDisabled, "a report is not cut by a cancellation");
	CHECK(vsRunning, "reports are written by the loop only");
	if (c == '\n') {
		vsEnd();
		return;
	}
	CHECK(vsLen + 1 < sizeof vsLine, "length of a line");
	vsLine[vsLen++] = c;
}
int vs_vprintf(const char * f, va_list ap)
{
	for (; *f; ++f) {
		if (*f != '%') {
			vsPut(*f);
			continue;
		}
		++f;
		while (*f == '0' || *f == '-' || *f == ' ' || *f == '+' || *f == '#')
			++f;
		while ((*f >= '0' && *f <= '9') || *f == '.')
			++f;
		int l = 0;
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') {
			l |= *f == 'l' || *f == 'z' || *f == 'j';
			++f;
		}
		switch (*f) {
		case '%': vsPut('%'); break;
		case 's':
			for (const char * s = va_arg(ap, const char *); *s; ++s)
				vsPut(*s);
			break;
		case 'c': vsPut(va_arg(ap, int)); break;
		case 'd': case 'i': case 'u': {
			uint64_t v = l ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
			CHECK(vsNI < 12, "numbers of a line");
			/* "type N": part of the label */
			if (vsLen >= 5 && !strncmp(vsLine + vsLen - 5, "type ", 5)) {
				CHECK(v < 32, "type of a frame");
				vsPut('0' + v / 10);
				vsPut('0' + v % 10);
				vsPut(' ');
				break;
			}
			vsPut('\1');
			vsInt[vsNI++] = v;
			break;
		}
		case 'f': case 'F': case 'g': case 'e':
			CHECK(vsND < 12, "numbers of a line");
			vsPut('\2');
			vsDbl[vsND++] = va_arg(ap, double);
			break;
		default:
			CHECK(0, "env: conversion");
		}
	}
	return 1;
}
int vs_printf(const char * f, ...)
{
	va_list ap;
	va_start(ap, f);
	vs_vprintf(f, ap);
	va_end(ap);
	return 1;
}
int vs_vfprintf(FILE * o, const char * f, va_list ap)
{
	CHECK(o == stdout, "output stream");
	return vs_vprintf(f, ap);
}
int vs_fprintf(FILE * o, const char * f, ...)
{
	va_list ap;
	CHECK(o == stdout, "output stream");
	va_start(ap, f);
	vs_vprintf(f, ap);
	va_end(ap);
	return 1;
}
int vs_putchar(int c) { vsPut(c); return c; }
int vs_fputc(int c, FILE * o) { CHECK(o == stdout, "output stream"); vsPut(c); return c; }
int vs_fputs(const char * s, FILE * o)
{
	CHECK(o == stdout, "output stream");
	for (; *s; ++s)
		vsPut(*s);
	return 0;
}
int vs_puts(const char * s)
{
	for (; *s; ++s)
		vsPut(*s);
	vsPut('\n');
	return 0;
}
int vs_fflush(FILE * o) { return 0; }

/** numbers that were counted until now; never less than before */
static uint64_t vsNum(uint64_t before)
{
#ifdef RATES
	static const uint64_t all[] = { 0, 1, 7, 1000003 };
	static unsigned n;
	return before + all[n++ * 7 / 3 % 4] * vsReports;
#else
	uint64_t v = nd_u64();
	ASSUME(v >= before && v < (uint64_t)1 << 60);
	return v;
#endif
}
static void vsCount(void)
{
	vsLastFil = vsFil;
	vsLastTotal = vsTotal;
	vsTotal = 0;
	for (unsigned i = 0; i < 4; ++i)
		vsTotal += vsFil.framesByType[i] = vsNum(vsFil.framesByType[i]);
	vsTotal += vsFil.unknown = vsNum(vsFil.unknown);
	vsModeS = vsFil.framesByType[1] + vsFil.framesByType[2];
	vsFil.filtered = vsNum(vsFil.filtered);
	vsFil.modeSfiltered = vsNum(vsFil.modeSfiltered);
	vsFil.unsynchronized = vsNum(vsFil.unsynchronized);
#ifdef RATES
	unsigned any = nd_pick(0, 1) * 17;
#else
	unsigned any = vsAny;
#endif
	for (unsigned i = 0; i < 32; ++i)
		if (i % 9 == 4)
			vsFil.modeSByType[i] += 3 + i + any;
	vsFil.modeSByType[any] = vsNum(vsFil.modeSByType[any]);
#ifdef RATES
	vsFil.framesByType[1] += 100;
	vsTotal += 100;
	vsModeS += 100;
#endif
	uint64_t * const b[] = { &vsBuf.queueSize, &vsBuf.maxQueueSize, &vsBuf.discardedCur, &vsBuf.discardedAll, &vsBuf.discardedMax,
		&vsBuf.poolSize, &vsBuf.dynPools, &vsBuf.dynPoolsAll, &vsBuf.dynPoolsMax, &vsBuf.uncollectedPools, &vsBuf.flushes, &vsBuf.GCruns,
		&vsNet.onlineSecs, &vsNet.disconnects, &vsNet.connectionAttempts, &vsNet.bytesSent, &vsNet.bytesReceived };
	for (unsigned i = 0; i < sizeof b / sizeof *b; ++i)
		*b[i] = vsNum(0);
#ifdef RATES
	vsBuf.poolSize += 5;
#endif
	vsNet.isOnline = nd_bool();
}

static void vsReported(void)
{
	CHECK(vsLen == 0, "a report ends with a whole line");
	CHECK(vsStarted && vsSince, "start and running time are reported");
	CHECK(vsNet.isOnline ? vsOnline && !vsOffline : vsOffline && !vsOnline, "the state of the connection is reported");
	if (vsBuf.discardedCur)
		CHECK(vsOverload, "an overload is reported");
	else
		CHECK(!vsOverload, "an overload is reported only then");
	for (unsigned i = 0; i < vsNE; ++i) {
		if (i < vsFirstOther)
			CHECK(vsE[i].seen == 1, "every counter is reported once");
		else if (vsE[i].value)
			CHECK(vsE[i].seen == 1, "every type of frames that was counted is reported once");
		else
			CHECK(vsE[i].seen <= 1, "no type is reported twice");
	}
	REACH("reported");
}
unsigned vs_sleep(unsigned s)
{
	CHECK(vsRunning, "env: waiting");
	CHECK(!vs_cancelDisabled, "the loop can be cancelled while waiting");
	CHECK(s == vsInterval, "reports are written in the configured interval");
	if (vsReports)
		vsReported();
	if (vsReports++ == REPORTS)
		DONE();
	vsLast = vsNow;
	/* the clock may be stopped */
#ifdef RATES
	vsNow += nd_pick(0, 1) ? 60 : 0;
	if (vsNow == vsStart)
		vsNow += 3;
#else
	static const uint32_t dt[] = { 0, 1, 59, 60, 3599, 3600, 3661, 86399, 86400, 90061, 31536000, 2000000000 };
	/* either the type or the time varies */
	unsigned pick = nd_pick(0, 32 + sizeof dt / sizeof *dt - 1);
	vsAny = pick < 32 ? pick : 4;
	vsNow += pick < 32 ? 3723 : dt[pick - 32];
#endif
	vsSecs = vsNow - vsStart;
	vsDelta = vsNow - vsLast;
	vsCount();
	vsExpectAll();
	vsOnline = vsOffline = vsOverload = vsStarted = vsSince = false;
	return 0;
}

int main(void)
{
	for (unsigned i = 0; i < 32; ++i)
		snprintf(vsTypes[i], sizeof vsTypes[i], "type %02u ", i);
	vsInterval = nd_range(1, 1000000);
	cfgInt(STAT_comp.config, "Interval", vsInterval);
	vsNow = vsStart = 1500000000;
	CHECK(STAT_comp.onConstruct(NULL), "construction");
	/* the other components start */
	vsNow += nd_pick(0, 1) * 5;
	vsRunning = true;
	STAT_comp.main();
	CHECK(0, "the loop never ends");
	return 0;
}
