/* C35: logging */
#define ENV_NO_LOG
static int vsLocks;
#define ENV_BEFORE_LOCK(m) (++vsLocks)
#define ENV_AFTER_UNLOCK(m) (--vsLocks)
#define printf vs_printf
#define vprintf vs_vprintf
#define putchar vs_putchar
#define puts vs_puts
#define fputs vs_fputs
#define fputc vs_fputc
#define putc vs_fputc
#define fprintf vs_fprintf
#define vfprintf vs_vfprintf
#define fwrite vs_fwrite
#define fflush vs_fflush
#define abort vs_abort
#define strerror vs_strerror
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef putc
#undef fputc
#undef putchar
#define putchar vs_putchar
#define fputc vs_fputc
#define putc vs_fputc
#define strerror_r vs_strerror_r
#ifdef STRERROR_R_CHAR_P
char * vs_strerror_r(int, char *, size_t);
#else
int vs_strerror_r(int, char *, size_t);
#endif
int vs_putchar(int);
int vs_fputc(int, FILE *);
#include "nd.h"
#include "env.h"
#include "util/log_stdio.c"
#ifndef STEPS
#define STEPS 2
#endif

static char vsOut[3000], vsExp[3000];
static size_t vsLen;
static bool vsBusy, vsFlushed;
static enum LOG_LEVEL vsLevel;
static bool vsOldState;

static void vsHolds(void)
{
	CHECK(vsBusy && vsLocks, "writes with the lock");
	CHECK(vs_cancelDisabled, "cannot be cancelled while writing");
	vsFlushed = false;
}
static void vsAppend(const char * s, size_t n)
{
	vsHolds();
	CHECK(vsLen + n < sizeof vsOut, "length of the message");
	memcpy(vsOut + vsLen, s, n);
	vsLen += n;
	vsOut[vsLen] = 0;
}
int vs_vprintf(const char * f, va_list ap)
{
	vsHolds();
	int n = vsnprintf(vsOut + vsLen, sizeof vsOut - vsLen, f, ap);
	CHECK(n >= 0 && n < (int)(sizeof vsOut - vsLen), "length of the message");
	vsLen += n;
	return n;
}
int vs_printf(const char * f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vs_vprintf(f, ap);
	va_end(ap);
	return r;
}
int vs_vfprintf(FILE * o, const char * f, va_list ap)
{
	CHECK(o == stdout, "output stream");
	return vs_vprintf(f, ap);
}
int vs_fprintf(FILE * o, const char * f, ...)
{
	va_list ap;
	CHECK(o == stdout, "output stream");
	va_start(ap, f);
	int r = vs_vprintf(f, ap);
	va_end(ap);
	return r;
}
int vs_putchar(int c)
{
	char b = c;
	vsAppend(&b, 1);
	return c;
}
int vs_fputc(int c, FILE * o) { CHECK(o == stdout, "output stream"); return vs_putchar(c); }
int vs_fputs(const char * s, FILE * o) { CHECK(o == stdout, "output stream"); vsAppend(s, strlen(s)); return 0; }
size_t vs_fwrite(const void * s, size_t n, size_t m, FILE * o) { CHECK(o == stdout, "output stream"); vsAppend(s, n * m); return m; }
int vs_puts(const char * s)
{
	vsAppend(s, strlen(s));
	vsAppend("\n", 1);
	return 0;
}
int vs_fflush(FILE * o)
{
	CHECK(!o || o == stdout, "output stream");
	if (!vs_cancelDisabled)
		CHECK(0, "cannot be cancelled while flushing");
	vsFlushed = true;
	return 0;
}
char * vs_strerror(int e) { return e == 5 ? "five" : "other"; }
#ifdef STRERROR_R_CHAR_P
static bool vsNoText;
char * vs_strerror_r(int e, char * b, size_t l)
{
	CHECK(vsLocks || l, "buffer");
	b[0] = b[l - 1] = 0;
	vsNoText = false;
	if (nd_bool())
		return vs_strerror(e);
	return strcpy(b, vs_strerror(e));
}
#else
static bool vsNoText;
int vs_strerror_r(int e, char * b, size_t l)
{
	b[0] = b[l - 1] = 0;
	vsNoText = nd_bool();
	if (vsNoText)
		return 22;
	strcpy(b, vs_strerror(e));
	return 0;
}
#endif
static bool vsHasErr;
static int vsErr;
static void vsComplete(void)
{
#ifndef STRERROR_R_CHAR_P
	if (vsHasErr) {
		/* the text of the error, if the system knows it */
		char e[60];
		if (vsNoText)
			snprintf(e, sizeof e, ": Unknown Error (%d)\n", vsErr);
		else
			snprintf(e, sizeof e, ": %s (%d)\n", vs_strerror(vsErr), vsErr);
		strcat(vsExp, e);
		vsHasErr = false;
	}
#endif
	CHECK(!vsLocks, "the lock is released");
	CHECK(!strcmp(vsOut, vsExp), "one complete message is written");
}
void vs_abort(void)
{
	CHECK(vsBusy && vsLevel == LOG_LEVEL_EMERG, "only an emergency ends the program");
	vsComplete();
	CHECK(vsFlushed, "the message is flushed before the program ends");
	REACH("ended");
	DONE();
	for (;;) ;
}

#ifdef FEW
#define nd_pick_(a, b) (b)
#else
#define nd_pick_ nd_pick
#endif
int main(void)
{
	static const char * const names[] = { "INFO", "DEBUG", "WARN", "ERROR", "EMERG" };
	static const int errs[] = { 5, 0, -2147483647 };
	for (unsigned s = 0; s < STEPS; ++s) {
		vsLevel = nd_pick(0, 4);
		const char * pfx = nd_pick_(0, 1) ? "PFX" : NULL;
		unsigned kind = nd_pick(0, 4);
		int err = errs[nd_pick_(0, 2)];
		bool old = nd_pick(0, 1);
		char msg[24] = "m%s";
		/* any text that is not a number and needs no formatting */
		for (unsigned i = 3; i < 4; ++i)
			msg[i] = 'a' + nd_pick_(0, 1) * 2;
		if (!nd_pick_(0, 1))
			msg[3] = 0;
		char text[700], whole[900];
		memset(text, 'x', sizeof text);
		text[nd_pick_(0, 1) ? 1 : 600] = 0;
		vsLen = 0;
		vsOut[0] = 0;
		vsFlushed = false;
		vs_cancelDisabled = old;
		vsBusy = true;
		snprintf(vsExp, sizeof vsExp, "[%s] ", names[vsLevel]);
		if (pfx)
			strcat(vsExp, "[PFX] ");
		errno = vsErr = err;
		vsHasErr = kind > 1;
		vsNoText = false;
		switch (kind) {
		case 0:
			snprintf(whole, sizeof whole, msg, text);
			strcat(vsExp, whole);
			strcat(vsExp, "\n");
			LOG_logf(vsLevel, pfx, msg, text);
			break;
		case 1:
			/* not a format */
			strcat(vsExp, msg);
			strcat(vsExp, "\n");
			LOG_log(vsLevel, pfx, msg);
			break;
		default:
			snprintf(whole, sizeof whole, msg, text);
			strcat(vsExp, whole);
			/* may be unknown to the system: decided by the stub below */
#ifdef STRERROR_R_CHAR_P
			snprintf(whole, sizeof whole, ": %s (%d)\n", vs_strerror(err), err);
			strcat(vsExp, whole);
#endif
			if (kind == 2)
				LOG_errno(vsLevel, pfx, msg, text);
			else if (kind == 3) {
				errno = 99;
				LOG_errno2(vsLevel, err, pfx, msg, text);
			} else
				LOG_errnet(vsLevel, pfx, msg, text);
			break;
		}
		CHECK(vsLevel != LOG_LEVEL_EMERG, "an emergency ends the program");
		vsComplete();
		CHECK(!!vs_cancelDisabled == old, "the cancellation state is restored");
		vsBusy = false;
		OBS(vsLen);
		if (nd_pick(0, 1)) {
			vsFlushed = false;
			LOG_flush();
			CHECK(vsFlushed && !!vs_cancelDisabled == old, "flushing");
		}
		REACH("written");
	}
	return 0;
}
