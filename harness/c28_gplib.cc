/* C28 (GPLIB) and C29: frames submitted through the libraries */
#include "nd.h"
#include <stdlib.h>
extern "C" {
#include "env.h"
}
#include "core/gps.h"
#ifdef GPLIB
#include "gplib/opensky.cc"
#else
#include "radarcape/lib/opensky.cc"
#endif

extern "C" {
static struct OPENSKY_RawFrame vsFrame;
static unsigned vsNew, vsCommit, vsFilter, vsStart, vsStop, vsFlush, vsInit, vsReset;
static int vsSync = -1, vsFix = -1;
static bool vsPass;
static uint8_t vsFirst;
static unsigned vsType, vsFlushAt, vsResetAt, vsSyncAt, vsTick, vsNeedAt, vsBegin;
const struct Component TB_comp = {}, RELAY_comp = {}, FILTER_comp = {};
void COMP_register(const struct Component * c) {}
void COMP_fixup() {}
void COMP_setSilent(bool s) {}
bool COMP_initAll() { ++vsInit; return true; }
bool COMP_startAll()
{
	CHECK(vsFlushAt > vsBegin, "stale frames are flushed before feeding starts");
	CHECK(vsNeedAt > vsBegin, "position requests of the time before are forgotten when feeding starts");
	++vsStart;
	return true;
}
void COMP_stopAll() { ++vsStop; }
void CFG_loadDefaults() {}
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) {}
void GPS_reset() {}
void GPS_resetNeedFlag() { vsNeedAt = ++vsTick; }
static double vsPos[3];
static unsigned vsPosSet;
void GPS_setPosition(double a, double b, double c)
{
	vsPos[0] = a;
	vsPos[1] = b;
	vsPos[2] = c;
	++vsPosSet;
}
static unsigned vsPosBefore;
static bool vsPosCall; /* in the call that sets a position */
void GPS_setHasFix(bool f)
{
	if (vsPosCall && f)
		CHECK(vsPosSet != vsPosBefore, "a fix is announced with the new position, not with the old one");
	vsFix = f;
}
void GPS_setPositionWithFix(double a, double b, double c)
{
	GPS_setPosition(a, b, c);
	GPS_setHasFix(true);
}
void FILTER_reset() { vsResetAt = ++vsTick; vsSync = -1; }
void FILTER_setSynchronized(bool s) { vsSync = s; vsSyncAt = ++vsTick; }
bool FILTER_filter(enum OPENSKY_FRAME_TYPE t, uint8_t first)
{
	CHECK(vsType == (unsigned)t && vsFirst == first, "the filter sees the type and the first byte of the frame");
	++vsFilter;
	CHECK(vsFilter == 1, "the filter sees each frame once");
	return vsPass;
}
struct OPENSKY_RawFrame * BUF_newFrame()
{
	++vsNew;
	CHECK(vsNew == 1, "one frame");
	return &vsFrame;
}
void BUF_commitFrame(struct OPENSKY_RawFrame * f)
{
	CHECK(f == &vsFrame && vsNew == vsCommit + 1, "the frame is stored once");
	++vsCommit;
}
void BUF_abortFrame(struct OPENSKY_RawFrame * f) { CHECK(0, "frames are not taken in vain"); }
void BUF_flush() { ++vsFlush; vsFlushAt = ++vsTick; }
#ifdef GPLIB
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s) { return SERIAL_RETURN_FAIL_PERM; }
#else
static bool vsHave;
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	if (vsHave && s)
		*s = 77;
	return vsHave ? SERIAL_RETURN_SUCCESS : SERIAL_RETURN_FAIL_PERM;
}
static void vsRefused(void)
{
	CHECK(!vsHave, "the library works with a serial number");
	REACH("refused");
}
#endif
static uint8_t vsExp[64];
static unsigned vsLen;
static void vsPut(uint8_t c)
{
	vsExp[vsLen++] = c;
	if (c == 0x1a)
		vsExp[vsLen++] = c;
}
static void vsStored(unsigned type)
{
	CHECK(vsNew == 1 && vsCommit == 1, "the frame is stored once");
	CHECK(vsFrame.rawLen == vsLen + 2, "length of the frame");
	CHECK(vsFrame.raw[0] == 0x1a && vsFrame.raw[1] == type, "start and type of the frame");
	bool same = true;
	for (unsigned i = 0; i < vsLen; ++i)
		same = symx_and(same, vsFrame.raw[2 + i] == vsExp[i]);
	CHECK(same, "content of the frame");
	OBS(vsFrame.rawLen);
}
/* a byte: any, the escape byte, or any other.  Only some are free */
static uint8_t vsByte(unsigned i)
{
	return nd_u8();
}
}

int main(void)
{
#ifndef GPLIB
	vsHave = nd_bool();
	env_onEmerg = vsRefused;
#endif
	memset(vsFrame.raw, 0xee, sizeof vsFrame.raw);
	OpenSky::init();
	CHECK(vsInit == 1, "initialisation");
#ifdef GPLIB
	uint32_t serial = nd_u32(), got = 0;
	OpenSky::configure(OPENSKY_DEVICE_TYPE_INVALID, serial);
	CHECK(SERIAL_getSerial(&got) == SERIAL_RETURN_SUCCESS && got == serial, "the given serial number is used");
#else
	uint32_t got = 0;
	CHECK(vsHave, "without a serial number the library is not used");
	CHECK(SERIAL_getSerial(&got) == SERIAL_RETURN_SUCCESS && got == 77, "the serial number of the device is used");
#endif
	/* histories of enabling, disabling and time states */
	bool on = false;
#ifndef GPLIB
	GpsTimeStatus_t status = GpsTimeInvalid;
#endif
	for (unsigned i = 0; i < STEPS; ++i)
		switch (nd_pick(0, 3)) {
		case 0:
			if (on)
				break;
			vsBegin = vsTick;
			OpenSky::enable();
			CHECK(vsStart == vsStop + 1, "feeding starts");
			CHECK(vsResetAt > vsBegin && vsResetAt < vsSyncAt, "the filter state is set after it was reset");
			on = true;
#ifdef GPLIB
			CHECK(vsSync == 1, "time is synchronised");
#else
			CHECK(vsSync == (status != GpsTimeInvalid), "synchronisation follows the time status");
#endif
			break;
		case 1:
			OpenSky::disable();
			on = false;
			CHECK(vsStart == vsStop, "feeding stops once");
			break;
		case 2:
#ifdef GPLIB
			OpenSky::unsetGpsPosition();
			CHECK(vsFix == 0, "the position is no longer valid");
#else
			{
				unsigned s = nd_pick(0, 2);
				status = s == 0 ? GpsTimeInvalid : s == 1 ? UsingCpuTime : UsingGpsTime;
			}
			OpenSky::setGpsTimeStatus(status);
			CHECK(vsSync == (status != GpsTimeInvalid), "synchronisation follows the time status");
			CHECK(vsFix == (status == UsingGpsTime), "there is a fix exactly with GPS time");
#endif
			break;
		default: {
			double a = nd_f64(), b = nd_f64(), c = nd_f64();
			unsigned n = vsPosSet;
			vsPosBefore = n;
			vsPosCall = true;
			OpenSky::setGpsPosition(a, b, c);
			vsPosCall = false;
			CHECK(vsPosSet == n + 1 && memcmp(&vsPos[0], &a, 8) == 0 && memcmp(&vsPos[1], &b, 8) == 0
				&& memcmp(&vsPos[2], &c, 8) == 0, "the position is passed on");
#ifdef GPLIB
			CHECK(vsFix == 1, "with a position there is a fix");
#endif
		}
		}
	if (vsFilter || vsNew)
		CHECK(0, "nothing but frames is stored");
	/* a frame */
	vsPass = nd_bool();
	unsigned len, i;
	bool known = true, esc = false;
#ifdef GPLIB
	len = nd_pick(0, 15);
	if (!FREEBYTES && len != 7 && len != 14)
		;
	known = len == 7 || len == 14;
	vsType = len == 7 ? '2' : '3';
	uint8_t * msg = (uint8_t *)malloc(len ? len : 1);
#else
	unsigned type = nd_u8();
	switch (type) {
	case '1': len = 9; break;
	case '2': len = 14; break;
	case '3': len = 21; break;
	default: len = 8; known = false;
	}
	vsType = type;
	uint8_t * msg = (uint8_t *)malloc(len);
#endif
	/* FREEBYTES bytes from a chosen place are free, the others distinct */
	unsigned at = nd_pick(0, len);
	ASSUME(at == 0 || at + FREEBYTES <= len);
	for (i = 0; i < len; ++i)
		msg[i] = i >= at && i < at + FREEBYTES ? vsByte(i) : 0x40 + i;
#ifdef GPLIB
	vsFirst = len ? msg[0] : 0;
	uint64_t ts;
	static const uint64_t secs[] = { 0, 1, 86399, 86400, 26 * 3600 + 0x1a, 604799, 4294967297, 18446744072 };
	static const uint32_t nanos[] = { 0, 1, 999999999, 0x1a1a1a1a % 1000000000, 0x1a, 500000000 };
	uint64_t s = secs[nd_pick(0, 7)];
	uint32_t ns = nanos[nd_pick(0, 5)];
#ifdef TIME
	s = nd_range(0, 86399);
	ts = s * 1000000000ull + ns;
#else
	ts = s * 1000000000ull + ns;
#endif
	bool utc = nd_bool(), sync = nd_bool();
	int8_t rssi = nd_u8();
	OpenSky::submitFrame(ts, utc, sync, rssi, msg, len);
	uint64_t t = (uint64_t)(s % 86400) << 30 | ns;
	for (i = 0; i < 6; ++i)
		vsPut(t >> (40 - 8 * i));
	vsPut(rssi);
	known = known && utc;
#else
	vsFirst = known ? msg[7] : 0;
	OpenSky::output_message(msg, (enum MessageType_T)type);
#endif
	for (i = 0; i < len; ++i)
		vsPut(msg[i]);
	if (known && on && vsPass) {
		vsStored(vsType);
		REACH("stored");
	} else {
		CHECK(!vsNew && !vsCommit, "nothing else is stored");
		CHECK(!vsFilter || (known && on), "other frames are not counted");
		REACH("ignored");
	}
	free(msg);
	return 0;
}
