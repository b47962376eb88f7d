/* C08: receive loop with the real filter; input and buffer are models.
 * K  number of input results (frames, failures), then cancellation */
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/filter.c"
#include "core/recv.c"

void INPUT_reconfigure() {}

static bool vsConn, mSync, mExt, mState;
static unsigned vsN, vsHeld, vsNew;
/* two elements used in turn, so that a stale pointer is noticed */
static struct OPENSKY_RawFrame vsEl[2];
static struct { bool inUse, filled, wanted; uint8_t id; } vsSt[2];
static unsigned vsCommits, vsWanted, vsCancelAt;

static void vsEnd(void)
{
	/* cancellation: clean-up handlers run, innermost first */
	vs_cancel_unwind();
	CHECK(!vsConn, "cancellation disconnects the input");
	CHECK(vsHeld == 0, "cancellation returns the element in use");
	CHECK(vsCommits == vsWanted, "every allowed frame was stored");
	REACH("end");
	DONE();
}
static void vsPoint(void)
{
	CHECK(vsCommits == vsWanted, "every allowed frame is stored before the next one is read");
	if (vsN >= K || nd_bool()) {
		if (vsN < K)
			REACH("early");
		vsEnd();
	}
	++vsN;
}

void INPUT_connect()
{
	CHECK(!vsConn, "connect only when disconnected or after failure");
	CHECK(vsHeld == 0, "no element is in use while connecting");
	/* cancelled while connecting: no connection was made, disconnect is harmless */
	vsPoint();
	vsConn = true;
	mState = false;
}
void INPUT_disconnect() { vsConn = false; }

struct OPENSKY_RawFrame * BUF_newFrame()
{
	CHECK(vsHeld == 0, "only one element is used at a time");
	++vsHeld;
	unsigned i = vsNew++ % 2;
	vsSt[i].inUse = true;
	vsSt[i].filled = false;
	vsEl[i].rawLen = 0;
	return &vsEl[i];
}
static unsigned vsIndex(struct OPENSKY_RawFrame * f)
{
	CHECK(f == &vsEl[0] || f == &vsEl[1], "the element is one of the buffer");
	unsigned i = f != &vsEl[0];
	CHECK(vsSt[i].inUse, "the element is in use");
	return i;
}
void BUF_commitFrame(struct OPENSKY_RawFrame * f)
{
	unsigned i = vsIndex(f);
	CHECK(vsSt[i].filled && vsSt[i].wanted, "only frames allowed by the filter are stored");
	CHECK(f->rawLen == 3 && f->raw[0] == vsSt[i].id && f->raw[2] == (uint8_t)~vsSt[i].id, "the frame is stored unchanged");
	vsSt[i].inUse = false;
	--vsHeld;
	++vsCommits;
	REACH("stored");
}
void BUF_abortFrame(struct OPENSKY_RawFrame * f)
{
	unsigned i = vsIndex(f);
	CHECK(!(vsSt[i].filled && vsSt[i].wanted), "no allowed frame is discarded");
	vsSt[i].inUse = false;
	--vsHeld;
	REACH("aborted");
}

bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * decoded)
{
	CHECK(vsConn, "frames are read from a connected input only");
	unsigned i = vsIndex(raw);
	vsPoint();
	vsSt[i].filled = false;
	if (nd_bool()) {
		vsConn = false; /* the inputs close themselves upon failure */
		REACH("failed");
		return false;
	}
	uint8_t type = '1' + nd_pick(0, 3);
	decoded->frameType = type;
	decoded->mlat = nd_u64();
	decoded->siglevel = nd_u8();
	decoded->payloadLen = type == '1' ? 2 : type == '2' ? 7 : 14;
	uint8_t first = nd_u8();
	decoded->payload[0] = first;
	for (unsigned k = 1; k < 14; ++k)
		decoded->payload[k] = 0;
	if (type == '4' && decoded->mlat)
		mState = true;
	bool ok = mState || !mSync;
	if (type != '2' && type != '3')
		ok = false;
	if (ok && mExt && first / 8 != 17 && first / 8 != 18)
		ok = false;
	vsSt[i].filled = true;
	vsSt[i].wanted = ok;
	vsSt[i].id = nd_u8();
	vsWanted += ok;
	raw->rawLen = 3;
	raw->raw[0] = vsSt[i].id;
	raw->raw[1] = type;
	raw->raw[2] = ~vsSt[i].id;
	if (!ok)
		REACH("filtered");
	return true;
}

const struct Component BUF_comp, INPUT_comp;

int main(void)
{
	mExt = nd_bool();
	mSync = nd_bool();
	cfgBool(FILTER_comp.config, "ModeSExtSquitterOnly", mExt);
	cfgBool(FILTER_comp.config, "SyncFilter", mSync);
	FILTER_comp.onConstruct(NULL);
	FILTER_setSynchronized(nd_bool());
	RECV_comp.main();
	CHECK(0, "the receive loop never ends");
	return 0;
}
