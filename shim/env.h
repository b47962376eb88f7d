/* Default environment for harnesses: logging, clean-up stack, mutexes, clock.
 * Everything here is a stated assumption of the checks (see DESIGN.md).
 *   ENV_NO_PTHREAD   harness brings its own pthread stubs
 *   ENV_NO_LOG       harness brings its own LOG_* functions
 */
#ifndef VERIF_ENV_H
#define VERIF_ENV_H
#include "nd.h"
#include <stdarg.h>
#include <stdbool.h>
#ifdef PREEMPT
#include "preempt.h"
#endif
#include <errno.h>
#include <string.h>
#include <pthread.h>
#include <time.h>
#include "util/log.h"

#ifdef VERIF_SOLVER
#define vs_noinstr
#endif

#ifndef ENV_NO_LOG
/** number of EMERG log calls that ended a path (the real function aborts the
 * process on EMERG) */
static unsigned env_emerg;
static void (*env_onEmerg)(void);
/** harnesses where stopping is expected for some inputs set this */
static bool env_mayStop;
static void env_log(enum LOG_LEVEL level)
{
	if (level == LOG_LEVEL_EMERG) {
		++env_emerg;
		if (env_onEmerg)
			env_onEmerg();
		else
			CHECK(env_mayStop, "the program is not stopped without need");
		DONE();
	}
}
void LOG_logf(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{ env_log(level); }
void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str)
{ env_log(level); }
void LOG_flush() {}
void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{ env_log(level); }
void LOG_errno2(enum LOG_LEVEL level, int err, const char * prefix,
	const char * fmt, ...)
{ env_log(level); }
void LOG_errnet(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{ env_log(level); }
#endif

#ifndef ENV_NO_PTHREAD
#define VS_MAXCLEAN 8
static void (*vs_cfn[VS_MAXCLEAN])(void *);
static void * vs_carg[VS_MAXCLEAN];
static unsigned vs_cn;
static int vs_cancelDisabled;

void vs_cleanup_push(void (*fn)(void *), void * arg)
{
	CHECK(vs_cn < VS_MAXCLEAN, "env: clean-up stack depth");
	vs_cfn[vs_cn] = fn;
	vs_carg[vs_cn] = arg;
	++vs_cn;
}
void vs_cleanup_pop(int run)
{
	CHECK(vs_cn > 0, "env: clean-up stack balanced");
	--vs_cn;
	if (run)
		vs_cfn[vs_cn](vs_carg[vs_cn]);
}
/** run all clean-up handlers, as thread cancellation does */
static inline void vs_cancel_unwind(void)
{
	while (vs_cn) {
		--vs_cn;
		vs_cfn[vs_cn](vs_carg[vs_cn]);
	}
}

#ifndef ENV_BEFORE_LOCK
#define ENV_BEFORE_LOCK(m) do { } while (0)
#endif
#ifndef ENV_AFTER_UNLOCK
#define ENV_AFTER_UNLOCK(m) do { } while (0)
#endif
/* lock state lives in the mutex itself */
#define VS_HELD(m) ((m)->__data.__lock)
int vs_mutex_lock(pthread_mutex_t * m)
{
	ENV_BEFORE_LOCK(m);
#ifdef PREEMPT
	if (preemptNested)
		ASSUME(!VS_HELD(m));
#endif
	CHECK(!VS_HELD(m), "mutex is not locked twice by one thread");
	VS_HELD(m) = 1;
	return 0;
}
int vs_mutex_unlock(pthread_mutex_t * m)
{
	CHECK(VS_HELD(m), "mutex is held when it is unlocked");
	VS_HELD(m) = 0;
	ENV_AFTER_UNLOCK(m);
	return 0;
}
int vs_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
	VS_HELD(m) = 0;
	return 0;
}
int vs_cond_signal(pthread_cond_t * c) { return 0; }
int vs_cond_broadcast(pthread_cond_t * c) { return 0; }
int vs_setcancelstate(int s, int * old)
{
	if (old)
		*old = vs_cancelDisabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
	vs_cancelDisabled = s == PTHREAD_CANCEL_DISABLE;
	return 0;
}
#endif

#endif
