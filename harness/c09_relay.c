/* C09: relay loop.  K  events until cancellation */
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/relay.c"

enum { VS_WAIT, VS_LOGIN, VS_FLUSH, VS_RUN } vsState;
static unsigned vsN, vsNext, vsSent, vsFlushed;
static bool vsHist, vsOut;          /* a fetched frame is outstanding */
static enum { VS_NEW, VS_SENT, VS_FAILED } vsFate;
static struct OPENSKY_RawFrame vsFrame;
static uint8_t vsCopy[46];
static uint32_t vsTimeout;
static bool vsBack;                  /* the frame put back is the next one */

static void vsPoint(void)
{
	if (vsN >= K || nd_bool()) {
		bool in = vsOut;
		vs_cancel_unwind();
		CHECK(!vsOut, "cancellation puts the frame in use back");
		if (in)
			REACH("cancelled with frame");
		REACH("end");
		DONE();
	}
	++vsN;
}
void NET_waitConnected()
{
	CHECK(vsState == VS_WAIT, "waits for a connection after a failure only");
	CHECK(!vsOut, "no frame is held while waiting for a connection");
	vsPoint();
	vsState = VS_LOGIN;
}
bool LOGIN_login()
{
	CHECK(vsState == VS_LOGIN, "login comes first on a new connection");
	vsPoint();
	bool r = nd_bool();
	vsState = r ? VS_FLUSH : VS_WAIT;
	if (!r)
		REACH("login failed");
	return r;
}
void BUF_flushUnlessHistoryEnabled()
{
	CHECK(vsState == VS_FLUSH, "old data is flushed once, after login");
	vsState = VS_RUN;
	++vsFlushed;
	if (!vsHist)
		vsBack = false;
}
const struct OPENSKY_RawFrame * BUF_getFrameTimeout(uint_fast32_t ms)
{
	CHECK(vsState == VS_RUN, "frames are fetched after login");
	CHECK(!vsOut, "one frame at a time");
	CHECK(ms == vsTimeout, "the wait ends after the keep-alive interval");
	vsPoint();
	if (!vsBack && nd_bool())
		return NULL;
	if (!vsBack) {
		unsigned len = nd_pick(0, 3);
		static const uint8_t lens[4] = { 2, 11, 23, 46 };
		vsFrame.rawLen = lens[len];
		for (unsigned i = 0; i < 46; ++i) {
			vsFrame.raw[i] = i < 4 || i == 45 ? nd_u8() : i + vsNext;
			vsCopy[i] = vsFrame.raw[i];
		}
		++vsNext;
	} else
		REACH("again");
	vsOut = true;
	vsBack = false;
	vsFate = VS_NEW;
	return &vsFrame;
}
const struct OPENSKY_RawFrame * BUF_getFrame()
{
	return BUF_getFrameTimeout(vsTimeout);
}
void BUF_releaseFrame(const struct OPENSKY_RawFrame * f)
{
	CHECK(vsOut && f == &vsFrame, "releases the frame in use");
	CHECK(vsFate == VS_SENT, "only sent frames are released");
	vsOut = false;
	++vsSent;
	REACH("sent");
}
void BUF_putFrame(const struct OPENSKY_RawFrame * f)
{
	CHECK(vsOut && f == &vsFrame, "puts back the frame in use");
	CHECK(vsFate != VS_SENT, "sent frames are not put back");
	vsOut = false;
	vsBack = true;
	REACH("put back");
}
bool NET_send(const void * p, size_t n)
{
	const uint8_t * b = p;
	CHECK(vsState == VS_RUN, "nothing is sent before login");
	if (vsOut) {
		CHECK(vsFate == VS_NEW, "each frame is sent once");
		CHECK(n == vsFrame.rawLen, "frames are sent in full length");
		bool same = true;
		for (unsigned i = 0; i < n; ++i)
			same = symx_and(same, b[i] == vsCopy[i]);
		CHECK(same, "frames are sent unaltered");
	} else {
		CHECK(n == 2 && b[0] == 0x1a && b[1] == '6', "keep-alive message");
		REACH("keep-alive");
	}
	vsPoint();
	bool r = nd_bool();
	if (vsOut)
		vsFate = r ? VS_SENT : VS_FAILED;
	if (!r)
		vsState = VS_WAIT;
	return r;
}

const struct Component NET_comp, BUF_comp;

int main(void)
{
	vsHist = nd_bool();
	vsTimeout = nd_u32();
	cfgInt(RELAY_comp.config, "Timeout", vsTimeout);
	RELAY_comp.main();
	CHECK(0, "the relay loop never ends");
	return 0;
}
