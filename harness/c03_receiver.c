/* C03: receiver configuration.  A  connect attempts, R  reconfigurations */
#include "nd.h"
#include "env.h"
#include "cfg.h"
/* the sources test for a build option of this name */
#pragma push_macro("CHECK")
#undef CHECK
#include "radarcape/rc-parser.c"
#pragma pop_macro("CHECK")

struct FILTER_Configuration FILTER_cfg;

static unsigned vsPos, vsAttempts, vsWrites;
static bool vsDev, vsBusy, vsReady;
static uint8_t vsExpect[10];

static void vsOptions(void)
{
	const uint8_t o[10] = { 'C', FILTER_cfg.extSquitter ? 'D' : 'd', 'E', FILTER_cfg.crc ? 'f' : 'F',
		'G', 'H', cfgGetBool(INPUT_comp.config, "fec") ? 'i' : 'I', 'j', 'Y', 'R' };
	memcpy(vsExpect, o, sizeof o);
}
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_connect()
{
	CHECK(!vsReady, "connect is repeated only until configuration succeeds");
	CHECK(!vsAttempts || vsBusy, "connect is repeated only after a failure");
	vsBusy = false;
	if (++vsAttempts > A) {
		REACH("many");
		DONE();
	}
	vsDev = true;
	vsPos = 0;
}
void RC_INPUT_disconnect() { vsDev = false; }
size_t RC_INPUT_write(uint8_t * b, size_t n)
{
	CHECK(CONF, "only the serial receiver is configured");
	CHECK(vsDev, "options are written to a connected device");
	CHECK(!vsBusy, "after a failed write the device is connected again");
	++vsWrites;
	CHECK(n == 3 && b[0] == 0x1a && b[1] == '1', "option message format");
	CHECK(vsPos < 10, "no more options than specified");
	CHECK(b[2] == vsExpect[vsPos], "options are those of the configuration, in order");
	++vsPos;
	if (vsReady)
		return nd_pick(0, 3);
	if (nd_bool()) {
		vsBusy = true;
		static const int e[] = { EIO, EAGAIN, EINTR };
		errno = e[nd_pick(0, 2)];
		return nd_pick(0, 2);
	}
	return 3;
}
size_t RC_INPUT_read(uint8_t * b, size_t n)
{
	CHECK(vsReady, "frames are read after the configuration");
	vsDev = false;
	return 0;
}

int main(void)
{
	INPUT_comp.onConstruct(NULL);
	for (unsigned c = 0; c < 2; ++c) {
		cfgBool(INPUT_comp.config, "fec", nd_bool());
		FILTER_cfg.extSquitter = nd_bool();
		FILTER_cfg.crc = nd_bool();
		FILTER_cfg.sync = nd_bool();
		vsOptions();
		vsReady = false;
		vsAttempts = 0;
		vsWrites = 0;
		INPUT_connect();
		CHECK(!vsBusy && vsPos == (CONF ? 10 : 0), "all options are set before frames are read");
		CHECK(vsDev, "the input is connected");
		if (vsAttempts > 1)
			REACH("again");
		vsReady = true;
		for (unsigned i = 0; i < R; ++i) {
			FILTER_cfg.extSquitter = nd_bool();
			FILTER_cfg.crc = nd_bool();
			/* the filter option is sent again, with its new value */
			vsOptions();
			vsPos = 1;
			vsWrites = 0;
			INPUT_reconfigure();
			CHECK(vsWrites == CONF, "the changed filter option is sent once");
		}
		struct OPENSKY_RawFrame raw;
		struct OPENSKY_DecodedFrame dec;
		CHECK(!INPUT_getFrame(&raw, &dec), "no frame without input");
		if (nd_bool()) {
			INPUT_disconnect();
			CHECK(!vsDev, "disconnect");
		}
	}
	REACH("end");
	return 0;
}
