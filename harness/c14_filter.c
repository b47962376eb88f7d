/* C14: the filter command, all payloads, from every filter setting */
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/filter.c"
#define PFX PFX_tb
#define mainloop mainloop_tb
#include "core/tb.c"

const struct Component NET_comp;
static bool mSync, mExt, mState;
static unsigned vsReconf, vsReconfExp, vsRound;
static bool vsReconfValue;
void INPUT_reconfigure()
{
	++vsReconf;
	vsReconfValue = FILTER_getConfiguration()->extSquitter;
}
static bool vsIsSync(void)
{
	struct FILTER_Statistics a, b;
	FILTER_getStatistics(&a);
	FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 17 * 8);
	FILTER_getStatistics(&b);
	return a.unsynchronized == b.unsynchronized;
}
static void vsCompare(void)
{
	CHECK(FILTER_getConfiguration()->sync == mSync, "synchronisation filter is changed only as requested");
	CHECK(FILTER_getConfiguration()->extSquitter == mExt, "extended squitter filter is changed only as requested");
	CHECK(vsIsSync() == mState, "the synchronisation state is reset only as requested");
	CHECK(vsReconf == vsReconfExp, "the receiver is reconfigured when the extended squitter filter is set");
	CHECK(!vsReconf || vsReconfValue == mExt, "with the new value");
	CHECK(FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 4 * 8) == ((mState || !mSync) && !mExt), "filter applied to other frames");
	CHECK(FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 17 * 8) == (mState || !mSync), "filter applied to extended squitters");
}
void NET_waitConnected() {}
ssize_t NET_receive(uint8_t * p, size_t n)
{
	if (vsRound)
		vsCompare();
	if (vsRound++ == ROUNDS) {
		REACH("end");
		DONE();
	}
	uint8_t mask = nd_u8(), cfg = nd_u8();
	p[0] = 0;
	p[1] = TB_PACKET_TYPE_FILTER;
	p[2] = 0;
	p[3] = 6;
	p[4] = mask;
	p[5] = cfg;
	if (mask & 1) {
		mSync = cfg & 1;
		REACH("sync");
	}
	if (mask & 2) {
		mExt = cfg & 2;
		++vsReconfExp;
		REACH("squitter");
	}
	if (mask & 128) {
		mState = false;
		REACH("reset");
	}
	return 6;
}

int main(void)
{
	mExt = nd_bool();
	mSync = nd_bool();
	mState = nd_bool();
	cfgBool(FILTER_comp.config, "ModeSExtSquitterOnly", mExt);
	cfgBool(FILTER_comp.config, "SyncFilter", mSync);
	FILTER_comp.onReset();
	CHECK(FILTER_comp.onConstruct(NULL), "the filter can be constructed");
	FILTER_setSynchronized(mState);
	TB_comp.main();
	return 0;
}
