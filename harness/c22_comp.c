/* C22: order of components */
#include "nd.h"
#include "env.h"
#define clock_gettime(c, t) vs_clock(t)
static int vs_clock(struct timespec * t)
{
	t->tv_sec = 100;
	t->tv_nsec = 1;
	return 0;
}
#include "heap.h"
#include "heap_end.h"
#include "util/component.h"
#include "util/log.h"
#include "util/list.h"
#include "util/util.h"
#include <assert.h>
#define malloc vs_malloc
#define free vs_free
#include "util/component.c"
#undef malloc
#undef free
#ifndef N
#define N 3
#endif
#ifndef BUDGET
#define BUDGET 3
#endif

/* a component with room for its dependencies */
struct VsComp {
	union {
		struct Component c;
		char room[sizeof(struct Component) + 5 * sizeof(void *)];
	};
};
static struct VsComp vsC[N];
static bool vsEnabled[N], vsStartFlag[N];
static unsigned vsDep[N]; /* bit masks */
/* what happened */
enum { NEW, MADE, RUNS } static vsState[N];
static bool vsThread[N], vsCancelled[N], vsStuck[N];
static unsigned vsRegCount[N], vsOnReg[N];
static bool vsMayFail, vsExpectFail, vsNoCycle = true, vsExpectDisabled;
static int vsFailedAt = -1;
static unsigned vsBudget;
static unsigned vsTick, vsTriedAt[N], vsLastStop; /* attempts to stop */
static bool vsAgain[N];
static unsigned vsSeq, vsMadeAt[N], vsRunAt[N];
/* kinds of components */
enum { THREAD, OWN, STARTONLY, PASSIVE } static vsKind[N];
static bool vsUp, vsDown;

void CFG_registerSection(const struct CFG_Section * s) {}

static bool vsHasMake(unsigned i) { return vsC[i].c.onConstruct; }
static bool vsIsEnabled(unsigned i) { return !vsC[i].c.enabled || vsEnabled[i]; }
static bool vsIsWanted(unsigned i) { return !vsC[i].c.start || vsStartFlag[i]; }

static bool vsMake(unsigned i)
{
	CHECK(vsState[i] == NEW && vsFailedAt < 0 && vsUp, "constructed once");
	CHECK(vsIsEnabled(i), "disabled components are not constructed");
	for (unsigned d = 0; d < N; ++d)
		if (vsDep[i] >> d & 1)
			CHECK(vsState[d] == MADE, "constructed after what it depends on");
	if (vsMayFail && nd_bool()) {
		vsFailedAt = i;
		return false;
	}
	vsState[i] = MADE;
	vsMadeAt[i] = ++vsSeq;
	return true;
}
static void vsUnmake(unsigned i)
{
	CHECK(vsState[i] == MADE && (vsDown || vsFailedAt >= 0), "destructed once, when stopped");
	for (unsigned j = 0; j < N; ++j)
		CHECK(j == i || vsState[j] == NEW || vsMadeAt[j] < vsMadeAt[i], "destructed in reverse order");
	vsState[i] = NEW;
}
static void vsStarting(unsigned i)
{
	CHECK(vsState[i] == MADE && vsFailedAt < 0 && vsUp, "started once, when constructed");
	CHECK(vsIsWanted(i), "only wanted components are started");
	for (unsigned d = 0; d < N; ++d)
		if ((vsDep[i] >> d & 1) && vsIsWanted(d) && vsKind[d] != PASSIVE)
			CHECK(vsState[d] == RUNS, "started after what it depends on");
}
static bool vsStarted(unsigned i)
{
	if (vsMayFail && nd_bool()) {
		vsFailedAt = i;
		return false;
	}
	vsState[i] = RUNS;
	vsRunAt[i] = ++vsSeq;
	return true;
}
static void vsStopping(unsigned i, bool again)
{
	CHECK(vsState[i] == RUNS && (vsDown || vsFailedAt >= 0), "stopped once, while running");
	CHECK(vsStuck[i] == again, "told whether stopping failed before");
	for (unsigned j = 0; j < N; ++j)
		CHECK(j == i || vsState[j] != RUNS || vsStuck[j] || vsRunAt[j] < vsRunAt[i], "stopped in reverse order");
}
static bool vsStopped(unsigned i)
{
	if (vsBudget && nd_bool()) {
		--vsBudget;
		vsAgain[i] = vsStuck[i];
		vsStuck[i] = true;
		vsTriedAt[i] = ++vsTick;
		return false;
	}
	vsState[i] = MADE;
	vsStuck[i] = false;
	vsLastStop = ++vsTick;
	return true;
}

#define F(i) \
static void reg##i(void) { ++vsOnReg[i]; } \
static bool make##i(void) { return vsMake(i); } \
static void unmake##i(const struct Component * c) { vsUnmake(i); } \
static void main##i(void) { CHECK(0, "thread functions are run by threads"); } \
static bool start##i(void) { vsStarting(i); return vsStarted(i); } \
static bool stop##i(bool again) { vsStopping(i, again); return vsStopped(i); }
F(0) F(1) F(2) F(3)
#define R(f) { f##0, f##1, f##2, f##3 }
static void (*const vsReg[])(void) = R(reg);
static bool (*const vsMk[])(void) = R(make);
static void (*const vsUn[])(const struct Component *) = R(unmake);
static void (*const vsMain[])(void) = R(main);
static bool (*const vsSt[])(void) = R(start);
static bool (*const vsSp[])(bool) = R(stop);

int vs_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
	unsigned i;
	for (i = 0; i < N && (void (*)(void))fn != vsMain[i]; ++i)
		;
	CHECK(i < N && !a, "a thread runs the main loop of a component");
	vsStarting(i);
	CHECK(!vsThread[i], "one thread per component");
	if (!vsStarted(i))
		return EAGAIN;
	*t = 1000 + i;
	vsThread[i] = true;
	vsCancelled[i] = false;
	return 0;
}
int vs_setname(pthread_t t, const char * n) { return 0; }
int vs_cancel(pthread_t t)
{
	unsigned i = t - 1000;
	CHECK(i < N && vsThread[i] && !vsCancelled[i], "a thread is cancelled once");
	vsCancelled[i] = true;
	return 0;
}
static int vsJoin(pthread_t t, bool timed)
{
	unsigned i = t - 1000;
	CHECK(i < N && vsThread[i] && vsCancelled[i], "a thread is joined once, after it was cancelled");
	vsStopping(i, vsStuck[i]);
	if (timed) {
		if (!vsStopped(i))
			return ETIMEDOUT;
	} else {
		vsState[i] = MADE;
		vsStuck[i] = false;
		vsLastStop = ++vsTick;
	}
	vsThread[i] = false;
	return 0;
}
int vs_timedjoin(pthread_t t, void ** r, const struct timespec * ts)
{
	CHECK(ts->tv_sec > 100 && ts->tv_sec < 110, "time-out for joining");
	return vsJoin(t, true);
}
int vs_join(pthread_t t, void ** r) { return vsJoin(t, false); }

/** a component that refuses to stop is tried again while there is progress */
static bool vsAnyStuck(void)
{
	bool stuck = false;
	for (unsigned i = 0; i < N; ++i)
		if (vsStuck[i]) {
			stuck = true;
			CHECK(vsAgain[i], "a component that could not be stopped is tried again");
			CHECK(vsTriedAt[i] > vsLastStop, "a component that could not be stopped is tried again while there is progress");
		}
	return stuck;
}
static void vsEmerg(void)
{
	CHECK(!vsNoCycle || vsExpectDisabled, "stops only if components cannot be ordered");
	REACH("refused");
}

int main(void)
{
	static char name[N][800];
	env_onEmerg = vsEmerg;
#ifdef ORDER
	/* at most one component is not to be started */
	unsigned passive = nd_pick(0, N);
#endif
	for (unsigned i = 0; i < N; ++i) {
		struct Component * c = &vsC[i].c;
		name[i][0] = 'a' + i;
#ifdef LONGNAMES
		memset(name[i], 'a' + i, LONGNAMES);
#endif
		c->description = name[i];
		c->onRegister = vsReg[i];
		c->onConstruct = vsMk[i];
		c->onDestruct = (void (*)())vsUn[i];
#ifdef ORDER
		vsDep[i] = nd_pick(0, (1u << N) - 1);
		vsKind[i] = OWN;
		if (nd_pick(0, 1)) {
			vsEnabled[i] = nd_pick(0, 1);
			c->enabled = &vsEnabled[i];
		}
		if (i == passive)
			c->start = &vsStartFlag[i];
#else
		vsDep[i] = i ? 1u << (i - 1) : 0;
		vsKind[i] = nd_pick(0, 3);
		if (nd_pick(0, 1)) {
			vsStartFlag[i] = nd_pick(0, 1);
			c->start = &vsStartFlag[i];
		}
#endif
		switch (vsKind[i]) {
		case THREAD: c->main = vsMain[i]; break;
		case OWN: c->onStart = vsSt[i]; c->onStop = vsSp[i]; break;
		case STARTONLY: c->main = vsMain[i]; c->onStart = vsSt[i]; c->onStop = vsSp[i]; break;
		case PASSIVE: break;
		}
	}
	for (unsigned i = 0; i < N; ++i) {
		struct Component * c = &vsC[i].c;
		const struct Component ** d = (const struct Component **)c->dependencies;
		for (unsigned j = 0; j < N; ++j)
			if (vsDep[i] >> j & 1)
				*d++ = &vsC[j].c;
		*d = NULL;
	}
	/* register */
	unsigned regd = 0;
#ifdef ORDER
	unsigned cnt = nd_pick(1, N);
	for (unsigned k = 0; k < cnt; ++k) {
		unsigned i = nd_pick(0, N - 1);
		ASSUME(!(regd >> i & 1));
		regd |= 1u << i;
		COMP_register(&vsC[i].c);
	}
	/* what it depends on comes with it */
	for (unsigned r = 0; r < N; ++r)
		for (unsigned i = 0; i < N; ++i)
			if (regd >> i & 1)
				regd |= vsDep[i];
	/* can they be ordered? */
	unsigned done = 0;
	for (unsigned r = 0; r < N; ++r)
		for (unsigned i = 0; i < N; ++i)
			if ((regd >> i & 1) && !(vsDep[i] & ~done))
				done |= 1u << i;
	vsNoCycle = done == regd;
	COMP_fixup();
	CHECK(vsNoCycle, "a cycle is refused");
	for (unsigned i = 0; i < N; ++i)
		if ((regd >> i & 1) && vsIsEnabled(i))
			for (unsigned d = 0; d < N; ++d)
				if ((vsDep[i] >> d & 1) && !vsIsEnabled(d))
					vsExpectDisabled = true;
#else
	for (unsigned i = 0; i < N; ++i) {
		unsigned j = (i + 1) % N;
		COMP_register(&vsC[j].c);
		regd |= 1u << j;
	}
	COMP_fixup();
	vsMayFail = true;
	vsBudget = BUDGET;
#endif
	for (unsigned i = 0; i < N; ++i)
		CHECK(vsOnReg[i] == (regd >> i & 1), "registered once");
	CHECK(heapLive == (unsigned)__builtin_popcount(regd), "components");
#ifndef ROUNDS
#define ROUNDS 1
#endif
	for (unsigned round = 0; round < ROUNDS; ++round) {
		vsUp = true;
		vsDown = false;
		vsFailedAt = -1;
		bool r = COMP_initAll();
		CHECK(!vsExpectDisabled, "a disabled component which is needed is refused");
		CHECK(r == (vsFailedAt < 0), "success exactly if all components were constructed");
		for (unsigned i = 0; i < N; ++i)
			CHECK(vsState[i] == ((regd >> i & 1) && vsIsEnabled(i) && r ? MADE : NEW), "all or nothing is constructed");
		if (!r) {
			REACH("construction failed");
			break;
		}
		for (int again = 0; again < STARTS; ++again) {
			vsDown = false;
			r = COMP_startAll();
			CHECK(r == (vsFailedAt < 0), "success exactly if all components were started");
			if (!r) {
				bool stuck = vsAnyStuck();
				for (unsigned i = 0; i < N; ++i)
					CHECK(vsState[i] != RUNS || vsStuck[i], "what was started is stopped if a start fails");
				REACH("start failed");
				if (stuck)
					return 0;
				vsFailedAt = -1;
				break;
			}
			for (unsigned i = 0; i < N; ++i)
				CHECK(vsState[i] == (!(regd >> i & 1) || !vsIsEnabled(i) ? NEW : vsIsWanted(i) && vsKind[i] != PASSIVE ? RUNS : MADE), "all wanted components run");
			vsDown = true;
			COMP_stopAll();
			bool stuck = vsAnyStuck();
			for (unsigned i = 0; i < N; ++i) {
				CHECK(vsState[i] != RUNS || vsStuck[i], "everything is stopped");
				OBS(vsState[i]);
			}
			if (stuck) {
				REACH("stuck");
				return 0;
			}
			REACH("stopped");
		}
		vsDown = true;
		COMP_destructAll();
		for (unsigned i = 0; i < N; ++i) {
			CHECK(vsState[i] == NEW, "everything is destructed");
			CHECK(!vsThread[i], "no thread is left");
		}
		COMP_destructAll();
	}
	COMP_unregisterAll();
	CHECK(heapLive == 0, "nothing stays allocated");
	REACH("done");
	return 0;
}
