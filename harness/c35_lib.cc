/* C35: log of the libraries (C++ streams, see shim/cxx) */
#define ENV_NO_LOG
static int vsLocks;
#define ENV_BEFORE_LOCK(m) (++vsLocks)
#define ENV_AFTER_UNLOCK(m) (--vsLocks)
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ostream>
#define abort vs_abort
#define strerror vs_strerror
#define strerror_r vs_strerror_r
extern "C" {
[[noreturn]] void vs_abort(void);
char * vs_strerror(int);
char * vs_strerror_r(int, char *, size_t);
}
#include "nd.h"
extern "C" {
#include "env.h"
}
#ifdef GPLIB
#include "gplib/log_lib.cc"
#else
#include "radarcape/lib/log_lib.cc"
#endif
#ifndef STEPS
#define STEPS 1
#endif
namespace std {
inline namespace vs {
ostream cout(0), cerr(1), clog(2);
}
}
static char vsOut[2600], vsExp[2600];
static size_t vsLen;
static bool vsBusy, vsFlushing, vsFlushed[8];
static enum LOG_LEVEL vsLevel;
/** streams for messages and errors */
static std::ostream * vsMsg = &std::cout, * vsErr = &std::cerr;

static bool vsIsErr(void) { return vsLevel == LOG_LEVEL_ERROR || vsLevel == LOG_LEVEL_EMERG; }
extern "C" void vs_streamWrite(std::ostream * o, const char * s, size_t n)
{
	CHECK(vsBusy, "written by log calls only");
	CHECK(vsLocks, "writes with the lock");
	CHECK(vs_cancelDisabled, "cannot be cancelled while writing");
	CHECK(o == (vsIsErr() ? vsErr : vsMsg), "errors go to the stream for errors, everything else to the one for messages");
	CHECK(vsLen + n < sizeof vsOut, "length of the message");
	memcpy(vsOut + vsLen, s, n);
	vsLen += n;
	vsOut[vsLen] = 0;
	vsFlushed[o->vsId()] = false;
}
extern "C" void vs_streamFlush(std::ostream * o)
{
	CHECK(vs_cancelDisabled, "cannot be cancelled while flushing");
	CHECK(o == vsErr || o == vsMsg, "output stream");
	vsFlushed[o->vsId()] = true;
}
static char vsText5[] = "five", vsTextO[] = "other";
char * vs_strerror(int e) { return e == 5 ? vsText5 : vsTextO; }
char * vs_strerror_r(int e, char * b, size_t l)
{
	b[0] = b[l - 1] = 0;
	if (nd_bool())
		return vs_strerror(e);
	return strcpy(b, vs_strerror(e));
}
static void vsComplete(void)
{
	CHECK(!vsLocks, "the lock is released");
	CHECK(!strcmp(vsOut, vsExp), "one complete message is written");
	CHECK(vsFlushed[(vsIsErr() ? vsErr : vsMsg)->vsId()], "the message is not held back");
}
void vs_abort(void)
{
	CHECK(vsBusy && vsLevel == LOG_LEVEL_EMERG, "only an emergency ends the program");
	vsComplete();
	CHECK(vsFlushed[vsMsg->vsId()], "everything is flushed before the program ends");
	REACH("ended");
	DONE();
	for (;;) ;
}

int main(void)
{
	static const char * const names[] = { "INFO", "DEBUG", "WARN", "ERROR", "EMERG" };
	static const int errs[] = { 5, 0, -2147483647 };
	static std::ostream own(3), ownErr(4);
	for (unsigned i = 0; i < sizeof vsFlushed; ++i)
		vsFlushed[i] = false;
	for (unsigned s = 0; s < STEPS; ++s) {
		switch (nd_pick(0, 2)) {
		case 0:
			break;
		case 1:
			OpenSky::setLogStreams(own, ownErr);
			vsMsg = &own;
			vsErr = &ownErr;
			break;
		default:
			OpenSky::setLogStreams(own, own);
			vsMsg = vsErr = &own;
		}
		vsLevel = (enum LOG_LEVEL)nd_pick(0, 4);
		const char * pfx = nd_pick(0, 1) ? "PFX" : NULL;
		unsigned kind = nd_pick(0, 4);
		int err = errs[nd_pick(0, 2)];
		bool old = nd_pick(0, 1);
		char text[2100], e[60];
		memset(text, 'x', sizeof text);
		/* the longest message is 2047 characters */
		switch (nd_pick(0, 2)) {
		case 0: text[0] = 0; break;
		case 1: text[1] = 0; break;
		default: text[2044] = 0;
		}
		vsLen = 0;
		vsOut[0] = 0;
		vsFlushed[vsMsg->vsId()] = vsFlushed[vsErr->vsId()] = false;
		vs_cancelDisabled = old;
		vsBusy = true;
		snprintf(vsExp, sizeof vsExp, "[%s] ", names[vsLevel]);
		if (pfx)
			strcat(vsExp, "[PFX] ");
		errno = err;
		if (kind == 1)
			strcat(vsExp, "m%sc\n");
		else {
			strcat(vsExp, "m");
			strcat(vsExp, text);
			strcat(vsExp, "c\n");
		}
		if (kind > 1) {
			snprintf(e, sizeof e, ":%s (%d)\n", vs_strerror(err), err);
			vsExp[strlen(vsExp) - 1] = 0;
			strcat(vsExp, e);
		}
		switch (kind) {
		case 0: LOG_logf(vsLevel, pfx, "m%sc", text); break;
		case 1: LOG_log(vsLevel, pfx, "m%sc"); break;
		case 2: LOG_errno(vsLevel, pfx, "m%sc", text); break;
		case 3:
			errno = 99;
			LOG_errno2(vsLevel, err, pfx, "m%sc", text);
			break;
		default: LOG_errnet(vsLevel, pfx, "m%sc", text);
		}
		CHECK(vsLevel != LOG_LEVEL_EMERG, "an emergency ends the program");
		vsComplete();
		CHECK(!!vs_cancelDisabled == old, "the cancellation state is restored");
		vsBusy = false;
		OBS(vsLen);
		if (nd_pick(0, 1)) {
			vsFlushed[vsMsg->vsId()] = vsFlushed[vsErr->vsId()] = false;
			LOG_flush();
			CHECK(vsFlushed[vsMsg->vsId()] && vsFlushed[vsErr->vsId()] && !!vs_cancelDisabled == old, "flushing");
		}
		REACH("written");
	}
	return 0;
}
