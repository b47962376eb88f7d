/* C06: producer, consumer and collector as threads that really wait for each
 * other.  NP  frames stored   STAT/DYN/INC  pools   SW  preemptions, at any
 * memory access and mutex call (specs: preempt) or only at mutex calls
 * GC  the collector runs once */
#define clock_gettime vs_clock
#define sleep vs_sleep
#define ENV_NO_PTHREAD
#define PREEMPT_OWN
#include "nd.h"
#define NOTSAN __attribute__((no_sanitize("thread")))
NOTSAN static void preemptPoint(void);
#include "preempt.h"
#include <stdlib.h>
#include "env.h"
#include "cfg.h"
#include <assert.h>
#include "heap.h"
#include "core/buffer.c"
#include "heap_end.h"

enum { TP, TC, TX, NT };
enum { ST_RUN, ST_IDLE, ST_LOCK, ST_WAIT };
static struct { int st; pthread_mutex_t * m; pthread_cond_t * c; int co; } th[NT];
static int vsCur = -1;
static unsigned vsSw, vsSpurious;
static bool vsArmed;
#define HELD(m) ((m)->__data.__lock)

/* reference */
static struct OPENSKY_RawFrame content[NP + 1];
static unsigned got, last, again;

NOTSAN static bool vsRunnable(int t)
{
	return th[t].st == ST_RUN || (th[t].st == ST_LOCK && !HELD(th[t].m));
}
NOTSAN static void vsSwitch(int t)
{
	if (t == vsCur)
		return;
	vsCur = t;
	symx_co_switch(th[t].co);
}
NOTSAN static void check(const struct OPENSKY_RawFrame * f, unsigned id)
{
	CHECK(symx_and(f->rawLen == content[id].rawLen, symx_and(f->raw[1] == content[id].raw[1],
		f->raw[sizeof f->raw - 1] == content[id].raw[sizeof f->raw - 1])),
		"a frame is delivered with the content it was stored with");
}
NOTSAN static void vsQuiet(void)
{
	struct BUFFER_Statistics s;
	vsArmed = false;
	CHECK(th[TP].st == ST_IDLE, "storing never waits");
	CHECK(th[TX].st == ST_IDLE, "collecting never waits");
	vsCur = TC;
	for (int t = 0; t < NT; ++t)
		if (th[t].st == ST_WAIT)
			HELD(th[t].m) = 0;
	BUFFER_getStatistics(&s);
	if (th[TC].st != ST_IDLE) {
		CHECK(s.queueSize == 0, "the consumer waits only if nothing is stored");
		REACH("waiting");
	}
	CHECK(got - again + s.queueSize + s.discardedAll == NP, "no frame is lost or duplicated");
	if (s.discardedAll)
		REACH("dropped");
	if (again)
		REACH("put back");
	while (s.queueSize-- > 0) {
		const struct OPENSKY_RawFrame * f = BUF_getFrame();
		unsigned id = f->raw[0];
		CHECK(id > last && id <= NP, "frames are delivered in order");
		check(f, id);
		last = id;
		BUF_releaseFrame(f);
	}
	REACH("end");
	DONE();
}
/* choose who goes on if this thread cannot, or need not */
NOTSAN static void vsBlock(void)
{
	int me = vsCur, lastT = -1;
	for (int t = 0; t < NT; ++t)
		if (t != me && vsRunnable(t))
			lastT = t;
	if (lastT < 0) {
		if (!vsRunnable(me))
			vsQuiet();
		return;
	}
	if (vsRunnable(me) && nd_bool())
		return;
	for (int t = 0; t < lastT; ++t)
		if (t != me && vsRunnable(t) && nd_bool()) {
			vsSwitch(t);
			return;
		}
	vsSwitch(lastT);
}
NOTSAN static void preemptPoint(void)
{
	if (!vsArmed || vsSw >= SW)
		return;
	vsArmed = false;
	for (int t = 0; t < NT; ++t)
		if (t != vsCur && vsRunnable(t) && nd_bool()) {
			++vsSw;
			vsArmed = true;
			vsSwitch(t);
			return;
		}
	vsArmed = true;
}
static void (*clean[4])(void *);
static void * cleanArg[4];
static unsigned cleans;
NOTSAN void vs_cleanup_push(void (*fn)(void *), void * arg)
{
	CHECK(vsCur == TC, "env: only the consumer has clean-up handlers");
	CHECK(cleans < 4, "env: clean-up stack depth");
	clean[cleans] = fn;
	cleanArg[cleans++] = arg;
}
NOTSAN void vs_cleanup_pop(int run)
{
	--cleans;
	if (run)
		clean[cleans](cleanArg[cleans]);
}
NOTSAN int vs_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
	HELD(m) = 0;
	return 0;
}
NOTSAN int vs_mutex_lock(pthread_mutex_t * m)
{
	preemptPoint();
	while (HELD(m)) {
		CHECK(HELD(m) != vsCur + 2, "no mutex is locked twice by one thread");
		th[vsCur].st = ST_LOCK;
		th[vsCur].m = m;
		vsBlock();
		th[vsCur].st = ST_RUN;
	}
	HELD(m) = vsCur + 2;
	return 0;
}
NOTSAN int vs_mutex_unlock(pthread_mutex_t * m)
{
	CHECK(HELD(m) == vsCur + 2, "a mutex is unlocked by its owner");
	HELD(m) = 0;
	preemptPoint();
	return 0;
}
NOTSAN int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(HELD(m) == vsCur + 2, "the mutex is held when waiting");
	CHECK(vsCur == TC, "only the consumer waits");
	HELD(m) = 0;
	th[vsCur].m = m;
	th[vsCur].c = c;
	/* a wait may end for no reason */
	th[vsCur].st = vsSpurious < 1 && nd_bool() ? ST_LOCK : ST_WAIT;
	vsSpurious += th[vsCur].st == ST_LOCK;
	do
		vsBlock();
	while (HELD(m));
	th[vsCur].st = ST_RUN;
	HELD(m) = vsCur + 2;
	return 0;
}
NOTSAN int vs_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	/* the time-out is far away */
	return vs_cond_wait(c, m);
}
NOTSAN int vs_cond_broadcast(pthread_cond_t * c)
{
	for (int t = 0; t < NT; ++t)
		if (th[t].st == ST_WAIT && th[t].c == c)
			th[t].st = ST_LOCK;
	return 0;
}
NOTSAN int vs_cond_signal(pthread_cond_t * c)
{
	/* there is one waiting thread at most */
	return vs_cond_broadcast(c);
}
NOTSAN int vs_setcancelstate(int s, int * old)
{
	if (old)
		*old = PTHREAD_CANCEL_ENABLE;
	return 0;
}
NOTSAN unsigned vs_sleep(unsigned s) { return 0; }
NOTSAN int vs_clock(clockid_t c, struct timespec * ts)
{
	ts->tv_sec = 1000;
	ts->tv_nsec = 0;
	return 0;
}

NOTSAN static void finish(void)
{
	th[vsCur].st = ST_IDLE;
	for (;;)
		vsBlock();
}
NOTSAN static void producer(void * a)
{
	for (unsigned id = 1; id <= NP; ++id) {
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		CHECK(f != NULL, "storing always succeeds");
		*f = content[id];
		BUF_commitFrame(f);
	}
	finish();
}
NOTSAN static void consumer(void * a)
{
	bool timed = nd_bool(), back = false;
	uint64_t dropped = 0;
	while (got < NP + again) {
		const struct OPENSKY_RawFrame * f = timed ? BUF_getFrameTimeout(500) : BUF_getFrame();
		CHECK(f != NULL, "a wait returns only with a frame or at the time-out");
		struct BUFFER_Statistics st;
		unsigned id = f->raw[0];
		++got;
		CHECK(id > last && id <= NP, "frames are delivered in order");
		if (back) {
			/* unless it was the oldest when one had to be dropped */
			BUFFER_getStatistics(&st);
			CHECK(id == last + 1 || st.discardedAll != dropped, "a frame put back is the next one delivered");
		}
		check(f, id);
		last = id;
		back = !again && nd_bool();
		preemptPoint();
		check(f, id);
		if (back) {
			++again;
			last = id - 1;
			BUFFER_getStatistics(&st);
			dropped = st.discardedAll;
			BUF_putFrame(f);
		} else
			BUF_releaseFrame(f);
	}
	finish();
}
NOTSAN static void collector(void * a)
{
#ifdef GC
	BUF_runGC();
#endif
	finish();
}

int main(void)
{
	const struct CFG_Section * s = BUF_comp.config;
	cfgInt(s, "StaticBacklog", STAT);
	cfgInt(s, "DynamicBacklog", DYN);
	cfgInt(s, "DynamicIncrements", INC);
	cfgBool(s, "History", INC > 0);
	cfgBool(s, "GC", INC > 0);
	cfgInt(s, "GCInterval", 120);
	cfgInt(s, "GCLevel", 1);
	s->fix(s);
	BUF_comp.onReset();
	CHECK(BUF_comp.onConstruct(), "construction succeeds");
	for (unsigned i = 1; i <= NP; ++i) {
		memset(&content[i], i, sizeof content[i]);
		content[i].rawLen = nd_u8();
		content[i].raw[1] = nd_u8();
		content[i].raw[sizeof content[i].raw - 1] = nd_u8();
	}
	th[TP].co = symx_co_create(producer, NULL);
	th[TC].co = symx_co_create(consumer, NULL);
	th[TX].co = symx_co_create(collector, NULL);
#ifndef GC
	th[TX].st = ST_IDLE;
#endif
	vsArmed = true;
	unsigned first = nd_pick(0, 1);
	vsSwitch(first ? TC : TP);
	return 0;
}
