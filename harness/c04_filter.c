/* C04: filter decision and statistics under arbitrary histories.  K operations */
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/filter.c"

static unsigned vsReconf;
static bool vsReconfValue;
void INPUT_reconfigure()
{
	++vsReconf;
	vsReconfValue = FILTER_getConfiguration()->extSquitter;
}

static bool mSync, mExt, mState;
static struct FILTER_Statistics mStats;

static void vsCompare(void)
{
	struct FILTER_Statistics s;
	FILTER_getStatistics(&s);
	for (unsigned i = 0; i < 4; ++i)
		CHECK(s.framesByType[i] == mStats.framesByType[i], "frames are counted by type");
	for (unsigned i = 0; i < 32; ++i)
		CHECK(s.modeSByType[i] == mStats.modeSByType[i], "mode-S frames are counted by format");
	CHECK(s.filtered == mStats.filtered, "filtered frames are counted");
	CHECK(s.modeSfiltered == mStats.modeSfiltered, "frames filtered by format are counted");
	CHECK(s.unsynchronized == mStats.unsynchronized, "unsynchronised frames are counted");
}

static bool vsModel(uint8_t type, uint8_t first)
{
	++mStats.framesByType[type - '1'];
	if (!mState)
		++mStats.unsynchronized;
	if (!mState && mSync) {
		++mStats.filtered;
		return false;
	}
	if (type != '2' && type != '3') {
		++mStats.filtered;
		return false;
	}
	unsigned fmt = first / 8;
	++mStats.modeSByType[fmt];
	if (mExt && fmt != 17 && fmt != 18) {
		++mStats.filtered;
		++mStats.modeSfiltered;
		return false;
	}
	return true;
}

/** first payload byte: any value, or (in longer histories) of some formats */
static uint8_t vsByte(void)
{
#ifdef ANYB
	return nd_pick(0, 31) * 8 + nd_pick(0, 1) * 7;
#else
	static const uint8_t all[] = { 0, 16, 17, 18, 19, 31 };
	return all[nd_pick(0, sizeof all - 1)] * 8 + 5;
#endif
}

int main(void)
{
	mExt = nd_bool();
	mSync = nd_bool();
	bool crc = nd_bool();
	cfgBool(FILTER_comp.config, "ModeSExtSquitterOnly", mExt);
	cfgBool(FILTER_comp.config, "SyncFilter", mSync);
	cfgBool(FILTER_comp.config, "CRC", crc);
	FILTER_comp.onReset();
	CHECK(FILTER_comp.onConstruct(NULL), "the filter can be constructed");
	for (unsigned k = 0; k < K; ++k) {
		switch (nd_pick(0, 6)) {
		case 0: case 1: {
			uint8_t t = '1' + nd_pick(0, 3), b = vsByte();
			bool r = FILTER_filter(t, b), e = vsModel(t, b);
			CHECK(r == e, "a frame passes exactly if the filter allows it");
			if (r)
				REACH("pass");
			else
				REACH("stop");
			break;
		}
		case 2: {
			bool v = nd_bool();
			FILTER_setSynchronized(v);
			mState = v;
			break;
		}
		case 3:
			FILTER_reset();
			mState = false;
			break;
		case 4: {
			bool v = nd_bool();
			FILTER_setSynchronizedFilter(v);
			mSync = v;
			break;
		}
		case 5: {
			bool v = nd_bool();
			unsigned n = vsReconf;
			FILTER_setModeSExtSquitter(v);
			mExt = v;
			CHECK(vsReconf == n + 1, "the receiver is reconfigured once");
			CHECK(vsReconfValue == v, "the receiver is reconfigured with the new value");
			break;
		}
		default:
			FILTER_comp.onReset();
			memset(&mStats, 0, sizeof mStats);
		}
		CHECK(FILTER_getConfiguration()->sync == mSync, "synchronisation filter setting");
		CHECK(FILTER_getConfiguration()->extSquitter == mExt, "extended squitter setting");
		CHECK(FILTER_getConfiguration()->crc == crc, "CRC setting");
	}
	vsCompare();
	REACH("end");
	return 0;
}
