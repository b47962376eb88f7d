/* C17: which GPS receiver reports set the position.  K  steps */
#include "nd.h"
#include "env.h"
#include "trimble/trimble_recv.c"

const struct Component NET_comp;
static bool vsConn, vsReset, vsPending, vsUnwound;
static unsigned vsSets, vsSetsExp, vsSteps, vsInit;
static double vsLat, vsLon, vsAlt, vsExpLat, vsExpLon, vsExpAlt;

static bool vsSame(double a, double b)
{
	union { double d; uint64_t u; } x, y;
	x.d = a;
	y.d = b;
	return symx_or(x.u == y.u, symx_and(a != a, b != b));
}
void GPS_reset() { vsReset = true; }
void GPS_resetNeedFlag() { CHECK(0, "the position request is kept"); }
void GPS_setPosition(double a, double b, double c) { CHECK(0, "position and fix are set together"); }
void GPS_setHasFix(bool f) { CHECK(0, "position and fix are set together"); }
void GPS_setPositionWithFix(double lat, double lon, double alt)
{
	++vsSets;
	vsLat = lat;
	vsLon = lon;
	vsAlt = alt;
}
void TRIMBLE_INPUT_register() {}
void TRIMBLE_PARSER_init() { ++vsInit; }
void TRIMBLE_PARSER_connect()
{
	CHECK(!vsConn, "connects when it is not connected");
	if (vsSteps && nd_bool()) {
		vs_cancel_unwind();
		CHECK(!vsConn, "not connected");
		DONE();
	}
	vsConn = true;
	vsReset = false;
}
void TRIMBLE_PARSER_disconnect()
{
	CHECK(vsConn, "disconnects once");
	vsConn = false;
}
static double vsF64(const uint8_t * p)
{
	union { double d; uint64_t u; } x;
	x.u = 0;
	for (int i = 0; i < 8; ++i)
		x.u = x.u << 8 | p[i];
	return x.d;
}
static void vsCompare(void)
{
	CHECK(vsSets == vsSetsExp, "the position is set exactly by a valid report");
	if (vsPending) {
		CHECK(vsSame(vsLat, vsExpLat), "latitude in degrees");
		CHECK(vsSame(vsLon, vsExpLon), "longitude in degrees");
		CHECK(vsSame(vsAlt, vsExpAlt), "altitude");
		REACH("set");
	}
	vsPending = false;
}
size_t TRIMBLE_PARSER_getFrame(uint8_t * f, size_t max)
{
	CHECK(vsConn, "reads while connected");
	CHECK(vsReset, "the old position is forgotten with a new connection");
	CHECK(max >= 128, "room for every report");
	vsCompare();
	if (vsSteps++ == K) {
		REACH("end");
		DONE();
	}
	switch (nd_pick(0, 2)) {
	case 0:
		REACH("failure");
		return 0;
	case 1:
		vs_cancel_unwind();
		CHECK(!vsConn, "disconnects when cancelled");
		REACH("cancelled");
		DONE();
	}
	static const unsigned lens[] = { 1, 2, 61, 68, 69, 70, 100 };
	unsigned n = lens[nd_pick(0, sizeof lens / sizeof *lens - 1)];
	for (unsigned i = 0; i < n; ++i)
		f[i] = nd_u8();
	/* at most one of the conditions fails in a way of its own choice */
	bool ok = n == 69;
	if (ok) {
		ok = symx_and(f[0] == 0x8f, f[1] == 0xac);
		ok = symx_and(ok, f[2] == 7);
		ok = symx_and(ok, f[3] == 0);
		ok = symx_and(ok, (f[9] | f[10]) == 0);
		ok = symx_and(ok, (f[11] & 1) == 0);
		ok = symx_and(ok, (f[12] & 0x20) == 0);
		ok = symx_and(ok, f[13] == 0);
	}
	if (ok) {
		++vsSetsExp;
		vsPending = true;
		vsExpLat = vsF64(f + 37) * 57.2957795130823208767981548141051703;
		vsExpLon = vsF64(f + 45) * 57.2957795130823208767981548141051703;
		vsExpAlt = vsF64(f + 53);
	} else
		REACH("ignored");
	return n;
}

int main(void)
{
	if (TRIMBLE_comp.onReset)
		TRIMBLE_comp.onReset();
	CHECK(TRIMBLE_comp.onConstruct(NULL), "the component can be constructed");
	CHECK(vsInit == 1, "the parser is initialised");
	TRIMBLE_comp.main();
	CHECK(0, "the loop never ends");
	return 0;
}
