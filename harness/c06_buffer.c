/* C06 (P=6) and C07 (P=7): frame buffer under arbitrary operation histories.
 * STAT/DYN/INC/HIST  configuration      K   symbolic operations after the prefix
 * PRE  string of operations executed first (p produce, n new, c commit,
 *      a abort, g get with time-out, w get, r release, u put back, f flush,
 *      e flush unless history, x collect)
 * OPS  the operations to choose from
 * MFAIL allocations may fail           GCLOOP run the collector's own thread
 * ANYCFG any configuration              DEADLINE any current time, a set of time-outs
 * P=40 the counters of the statistics (C40) are compared after every operation
 * PREEMPT after the prefix: an operation of one thread is interrupted at any
 *      memory access by an operation of another thread */
#define clock_gettime vs_clock
#define sleep vs_sleep
#include "nd.h"
#include <stdlib.h>
#include "env.h"
#include "cfg.h"
#include <assert.h>
#include "heap.h"
#include "core/buffer.c"
#include "heap_end.h"

#if P == 40
#define CHECK6(c, m) ASSUME(c)
#define CHECK7(c, m) ASSUME(c)
#elif P == 6
#define CHECK6(c, m) CHECK(c, m)
#define CHECK7(c, m) ASSUME(c)
#else
#define CHECK6(c, m) ASSUME(c)
#define CHECK7(c, m) CHECK(c, m)
#endif

#ifndef PRE
#define PRE ""
#endif
#ifndef OPS
#define OPS "pgwruxfenca"
#endif
#ifdef ANYCFG
static unsigned vSTAT, vDYN, vINC, vHIST;
#undef STAT
#undef DYN
#undef INC
#undef HIST
#define STAT vSTAT
#define DYN vDYN
#define INC vINC
#define HIST vHIST
#define QMAX 12
#else
#define QMAX (TOTAL + 2)
#endif
#define TOTAL (STAT + DYN * INC)

static struct timespec now;
static uint32_t ms;
int vs_clock(clockid_t c, struct timespec * ts)
{
	CHECK(c == CLOCK_REALTIME, "env: clock of the condition variable");
	*ts = now;
	return 0;
}

/* reference */
static unsigned q[QMAX], qn;      /* ids of stored, undelivered frames */
static unsigned next = 1, dropped, waits;
static bool timedOut;
static struct OPENSKY_RawFrame * prod;
static unsigned prodId;
static const struct OPENSKY_RawFrame * cons;
static unsigned consId;

static struct OPENSKY_RawFrame content[64];
static void fill(struct OPENSKY_RawFrame * f, unsigned id)
{
	struct OPENSKY_RawFrame * c = &content[id];
	memset(c, id, sizeof *c);
	c->rawLen = nd_u8();
	c->raw[0] = nd_u8();
	c->raw[sizeof c->raw - 1] = nd_u8();
	*f = *c;
}
static void checkFrame(const struct OPENSKY_RawFrame * f, unsigned id)
{
	struct OPENSKY_RawFrame * c = &content[id];
	int ok = f->rawLen == c->rawLen;
	for (unsigned i = 0; i < sizeof f->raw; ++i)
		ok = symx_and(ok, f->raw[i] == c->raw[i]);
	CHECK6(ok, "a frame is delivered in order with the content it was stored with");
}
static void qpop(void)
{
	for (unsigned i = 0; i + 1 < QMAX; ++i)
		q[i] = q[i + 1];
	--qn;
}
static void checkStats(void)
{
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	CHECK6(s.queueSize == qn, "the queue holds exactly the stored frames");
	CHECK7(s.dynPools <= (HIST ? INC : 0), "dynamic capacity is bounded");
	CHECK7(s.queueSize + s.poolSize + !!prod + !!cons <= STAT + DYN * s.dynPools,
		"no element is counted twice");
	CHECK6(s.discardedAll == dropped, "drops are counted");
}
static bool useful(char op)
{
	switch (op) {
	case 'n': return !prod;
	case 'p': return !prod;
	case 'c': case 'a': return prod;
	case 'g': return !cons;
	case 'w': return !cons && qn == 0;
	case 'r': case 'u': return cons;
	case 'e': return HIST;
	default: return true;
	}
}
static void op2(char o);
#if P == 40
/** counters: what happened */
static struct BUFFER_Statistics m;
static bool mIn;
static void op(char o)
{
	struct BUFFER_Statistics s0, s;
	bool taken = (o == 'n' || o == 'p');
	unsigned before = dropped;
	if (mIn) {
		/* while waiting inside of another operation */
		DONE();
	}
	BUFFER_getStatistics(&s0);
	mIn = true;
	op2(o);
	mIn = false;
	memset(&s, 0xff, sizeof s);
	BUFFER_getStatistics(&s);
	if (taken && dropped != before) {
		++m.discardedAll;
		++m.discardedCur;
		if (m.discardedCur > m.discardedMax)
			m.discardedMax = m.discardedCur;
		REACH("discarded");
	} else if (taken) {
		m.discardedCur = 0;
		if (s.dynPools > s0.dynPools) {
			++m.dynPoolsAll;
			REACH("grown");
		} else if (!s0.poolSize) {
			++m.uncollectedPools;
			REACH("uncollected");
		}
	}
	if (qn > m.maxQueueSize)
		m.maxQueueSize = qn;
	if (s.dynPools > m.dynPoolsMax)
		m.dynPoolsMax = s.dynPools;
	m.flushes += o == 'f' || (o == 'e' && !HIST);
	m.GCruns += o == 'x';
	CHECK(s.queueSize == qn, "stored frames are reported");
	CHECK(s.maxQueueSize == m.maxQueueSize, "the largest number of stored frames is reported");
	CHECK(s.discardedAll == m.discardedAll, "all dropped frames are counted");
	CHECK(s.discardedCur == m.discardedCur, "frames dropped in the current overload are counted");
	CHECK(s.discardedMax == m.discardedMax, "frames dropped in the worst overload are counted");
	CHECK(s.dynPoolsAll == m.dynPoolsAll, "all dynamic pools are counted");
	CHECK(s.dynPoolsMax == m.dynPoolsMax, "the largest number of dynamic pools is reported");
	CHECK(s.uncollectedPools == m.uncollectedPools, "uncollected pools are counted");
	CHECK(s.flushes == m.flushes, "flushes are counted");
	CHECK(s.GCruns == m.GCruns, "collector runs are counted");
	if (!m.GCruns)
		CHECK(s.poolSize + s.queueSize + !!prod + !!cons == STAT + DYN * s.dynPools, "free elements are reported");
}
#else
#define op(o) op2(o)
#endif
static void op2(char o)
{
	switch (o) {
	case 'n':
	case 'p': {
		unsigned held = !!cons;
		heapFailed = false;
		prod = BUF_newFrame();
		CHECK7(prod != NULL, "storing always succeeds");
		CHECK7(prod != cons, "an element is not filled while it is sent");
		struct BUFFER_Statistics s;
		BUFFER_getStatistics(&s);
		if (s.queueSize < qn) {
			CHECK6(s.queueSize + 1 == qn, "at most one frame is dropped");
			CHECK6(qn + held == STAT + DYN * s.dynPools,
				"a frame is dropped only if every element is in use");
			CHECK6(s.dynPools == (HIST ? INC : 0) || heapFailed,
				"a frame is dropped only if no more elements are allowed");
			++dropped;
			qpop();
		}
		CHECK6(s.queueSize == qn, "the queue holds exactly the stored frames");
		prodId = next++;
		fill(prod, prodId);
		if (o == 'n')
			break;
	}
	/* fall through */
	case 'c':
		BUF_commitFrame(prod);
		prod = NULL;
		q[qn++] = prodId;
		break;
	case 'a':
		BUF_abortFrame(prod);
		prod = NULL;
		break;
	case 'g':
	case 'w':
		timedOut = false;
		cons = o == 'g' ? BUF_getFrameTimeout(500) : BUF_getFrame();
		if (!qn) {
			CHECK6(!cons, "nothing is delivered if nothing is stored");
			CHECK6(o == 'g', "an unlimited wait returns only with a frame");
		} else if (!timedOut || cons) {
			CHECK6(cons != NULL, "a stored frame is delivered");
			checkFrame(cons, q[0]);
			CHECK7(cons != prod, "an element is not sent while it is filled");
			consId = q[0];
			qpop();
		}
		break;
	case 'r':
		checkFrame(cons, consId);
		BUF_releaseFrame(cons);
		cons = NULL;
		break;
	case 'u': {
		checkFrame(cons, consId);
		BUF_putFrame(cons);
		cons = NULL;
		for (unsigned i = QMAX - 1; i > 0; --i)
			q[i] = q[i - 1];
		q[0] = consId;
		++qn;
		break;
	}
	case 'f':
		BUF_flush();
		qn = 0;
		break;
	case 'e':
		BUF_flushUnlessHistoryEnabled();
		if (!HIST)
			qn = 0;
		break;
	case 'x':
		BUF_runGC();
		break;
	}
}

/* while the consumer waits, other threads can act, it can be cancelled, wake up
 * for no reason or (timed wait) time out */
static int waiting(pthread_mutex_t * m, bool timed)
{
	CHECK7(VS_HELD(m), "a wait holds the mutex");
	CHECK6(!qn, "the consumer waits only if nothing is stored");
	if (++waits > 2)
		DONE();
	switch (nd_pick(timed ? 0 : 1, 3)) {
	case 0:
		if (nd_bool() && !prod) {
			/* stored between the time-out and taking the mutex again */
			VS_HELD(m) = 0;
			op('p');
			VS_HELD(m) = 1;
			timedOut = true; /* legal: delivered now, or by the next call */
			REACH("late");
		}
		return ETIMEDOUT;
	case 1:
		return 0;
	case 2:
		VS_HELD(m) = 0;
		if (prod)
			op('c');
		else
			op('p');
		VS_HELD(m) = 1;
		return 0;
	default:
		vs_cancel_unwind();
		CHECK7(!VS_HELD(m), "the mutex is free after cancellation");
		REACH("cancelled");
		DONE();
	}
}
int vs_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
#ifdef DEADLINE
	uint32_t ns = (uint32_t)now.tv_nsec + ms % 1000 * 1000000;
	if (ns >= 1000000000)
		CHECK6(symx_and(ts->tv_nsec == ns - 1000000000, ts->tv_sec == now.tv_sec + ms / 1000 + 1), "the deadline is the time-out after now");
	else
		CHECK6(symx_and(ts->tv_nsec == ns, ts->tv_sec == now.tv_sec + ms / 1000), "the deadline is the time-out after now");
	REACH("end");
	DONE();
#endif
	CHECK6(ts->tv_sec == now.tv_sec + (now.tv_nsec >= 500000000), "deadline");
	return waiting(m, true);
}
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	return waiting(m, false);
}

static void step(void)
{
	static const char all[] = OPS;
	char o = all[nd_pick(0, sizeof all - 2)];
	ASSUME(useful(o));
	op(o);
}

/** the component stops, and starts again with nothing left from before */
static void ending(void)
{
	BUF_comp.onDestruct();
	CHECK7(heapLive == 0, "all memory is released");
#if P == 7
	if (BUF_comp.onConstruct()) {
		struct BUFFER_Statistics s;
		prod = NULL;
		cons = NULL;
		qn = 0;
		BUFFER_getStatistics(&s);
		CHECK(s.queueSize == 0 && s.dynPools == 0 && s.poolSize == STAT, "a new start begins with empty buffers");
		op('p');
		op('p');
		op('g');
		op('r');
		op('g');
		op('r');
		BUF_comp.onDestruct();
		CHECK(heapLive == 0, "all memory is released after a new start");
		REACH("started again");
	}
#endif
	DONE();
}
static void drain(void)
{
	/* whatever happened: everything stored comes out, and every element that
	 * was ever there can be used again */
	checkStats();
#if P == 7
	if ((prod || cons) && nd_bool()) {
		/* the threads were cancelled with elements in their hands */
		REACH("cut off");
		ending();
	}
#endif
	if (prod)
		op('a');
	if (cons)
		op('r');
	heapFailOn = false;
	struct BUFFER_Statistics s0, s;
	BUFFER_getStatistics(&s0);
	unsigned n = STAT + DYN * s0.dynPools;
	for (unsigned i = 0; i < TOTAL; ++i)
		if (qn < n)
			op('p');
	BUFFER_getStatistics(&s);
	CHECK7(s.queueSize == n && s.dynPools == s0.dynPools, "all elements are usable at the same time");
	for (unsigned i = 0; i < TOTAL; ++i)
		if (qn) {
			op('g');
			op('r');
		}
	ending();
}

unsigned int vs_sleep(unsigned int sec)
{
#ifdef GCLOOP
	static unsigned nsleep;
	static unsigned runs, want;
	struct BUFFER_Statistics s;
	CHECK7(sec == 120, "the collector runs in the configured interval");
	BUFFER_getStatistics(&s);
	if (nsleep) {
		CHECK7(s.GCruns == runs + want, "the collector runs exactly below its threshold");
		if (want)
			REACH("collected");
	}
	if (nsleep++ == GCLOOP) {
		REACH("end");
		drain();
	}
	for (unsigned k = 0; k < K; ++k)
		step();
	BUFFER_getStatistics(&s);
	runs = s.GCruns;
	want = s.queueSize < s.dynPools * DYN / cfgGetInt(BUF_comp.config, "GCLevel");
#endif
	return 0;
}

#ifdef PREEMPT
/* operations of the producer (p), consumer (g r u e) and collector (x) thread */
static char opA, opB;
static bool producerFirst, delivered;
static void raw(char o)
{
	switch (o) {
	case 'p':
		prod = BUF_newFrame();
		fill(prod, prodId);
		BUF_commitFrame(prod);
		break;
	case 'g': cons = BUF_getFrameTimeout(500); break;
	case 'r': BUF_releaseFrame(cons); break;
	case 'u': BUF_putFrame(cons); break;
	case 'e': BUF_flushUnlessHistoryEnabled(); break;
	case 'f': BUF_flush(); break;
	case 'x': BUF_runGC(); break;
	case 's': { struct BUFFER_Statistics s; BUFFER_getStatistics(&s); } break;
	case 'y': BUF_comp.onReset(); break;
	}
}
static void runA(void) { raw(opA); }
static void runB(void) { raw(opB); }
static int thread(char o) { return o == 'p' ? 0 : o == 'x' ? 1 : o == 's' || o == 'y' ? 2 : 3; }
/** the frames delivered by draining are stored ones, in order, without
 * duplicates, and nothing is lost except by a drop or flush */
static void preempted(void)
{
	static const char ops[] = "pgrufxsy";
	struct BUFFER_Statistics s;
	unsigned id = 0, n = 0, before = qn, id0 = consId;
	bool held = cons;
	opA = ops[nd_pick(0, sizeof ops - 2)];
	opB = ops[nd_pick(0, sizeof ops - 2)];
	ASSUME(thread(opA) != thread(opB));
	ASSUME(useful(opA) && useful(opB));
	if (opA == 'g' || opB == 'g')
		ASSUME(qn > 0);
	prodId = next++;
	preemptRun(runA, runB);
	BUFFER_getStatistics(&s);
	if (preemptDone)
		REACH("preempted");
	unsigned got = 0;
	if (opA == 'g' || opB == 'g') {
		CHECK6(cons != NULL, "a stored frame is delivered");
		got = 1;
	}
	if (opA == 'r' || opB == 'r' || opA == 'u' || opB == 'u')
		cons = NULL;
	/* what may come now: a tail of the stored frames, then the new one */
	bool flush = opA == 'f' || opB == 'f', put = opA == 'u' || opB == 'u', store = opA == 'p' || opB == 'p';
	unsigned exp = before + store + put - got;
	if (opA != 'y' && opB != 'y') {
		CHECK6(s.queueSize + s.discardedAll - dropped == exp || flush, "no frame is lost or duplicated");
		CHECK6(s.discardedAll - dropped <= store, "at most one frame is dropped per stored one");
	}
	if (flush)
		CHECK6(s.queueSize <= store, "flushing removes all frames stored before");
	unsigned last = 0;
	for (unsigned i = s.queueSize + 2; i; --i) {
		const struct OPENSKY_RawFrame * f = cons;
		cons = NULL;
		if (!f) {
			BUFFER_getStatistics(&s);
			if (!s.queueSize)
				break;
			f = BUF_getFrameTimeout(500);
		}
		CHECK6(f != NULL, "a stored frame is delivered");
		unsigned k;
		for (k = last + 1; k < next; ++k)
			if (content[k].raw[1] == f->raw[1])
				break;
		CHECK6(k < next, "frames are delivered in order, without duplicates");
		checkFrame(f, k);
		last = k;
		BUF_releaseFrame(f);
	}
	qn = 0;
	prod = NULL;
	cons = NULL;
	BUFFER_getStatistics(&s);
	dropped = s.discardedAll;
	REACH("end");
	drain();
}
#endif

int main(void)
{
	static const char pre[] = PRE;
	const struct CFG_Section * s = BUF_comp.config;
#ifdef ANYCFG
	STAT = nd_pick(0, 3);
	DYN = nd_pick(0, 2);
	INC = nd_pick(0, 2);
	HIST = nd_bool();
#endif
	cfgInt(s, "StaticBacklog", STAT);
	cfgInt(s, "DynamicBacklog", DYN);
	cfgInt(s, "DynamicIncrements", INC);
	cfgBool(s, "History", HIST);
	cfgBool(s, "GC", HIST);
	cfgInt(s, "GCInterval", 120);
#ifdef ANYCFG
	cfgBool(s, "GC", nd_bool());
	cfgInt(s, "GCLevel", nd_pick(0, 2));
#else
	cfgInt(s, "GCLevel", nd_pick(1, 2));
#endif
	s->fix(s);
#ifdef ANYCFG
	STAT = cfgGetInt(s, "StaticBacklog");
	DYN = cfgGetInt(s, "DynamicBacklog");
	INC = cfgGetInt(s, "DynamicIncrements");
	CHECK7(STAT >= 2, "there is always one element to fill and one to send");
	if (*BUF_comp.start)
		CHECK7(HIST, "the collector runs only with history");
#endif
	now.tv_sec = 5;
	now.tv_nsec = nd_bool() ? 0 : 600000000;
	BUF_comp.onReset();
#ifdef MFAIL
	heapFailOn = true;
#endif
	if (!BUF_comp.onConstruct()) {
		CHECK7(heapFailed, "construction fails only without memory");
		CHECK7(heapLive == 0, "nothing stays allocated after a failed construction");
		DONE();
	}
	for (unsigned i = 0; i + 1 < sizeof pre; ++i)
		op(pre[i]);
#ifdef DEADLINE
	now.tv_nsec = nd_range(0, 999999999);
	now.tv_sec = nd_u32();
	static const uint32_t all[] = { 0, 1, 2, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 59999, 60000, 65535, 3600000, 2147483647, 4294967295u };
	ms = all[nd_pick(0, sizeof all / sizeof *all - 1)];
	BUF_getFrameTimeout(ms);
#endif
#ifdef PREEMPT
	preempted();
#endif
#ifdef GCLOOP
#ifdef ANYCFG
	if (!*BUF_comp.start)
		DONE();
#endif
	BUF_comp.main();
#else
	for (unsigned k = 0; k < K; ++k)
		step();
	if (dropped)
		REACH("dropped");
	REACH("end");
	drain();
#endif
	return 0;
}
