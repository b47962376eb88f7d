/* C39: the device type follows from the configured word, whatever it is.
 * LEN longest word */
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "dump1090/devtype.c"

/** equal without regard of upper and lower case; n characters follow in w */
static bool vsEqual(const char * v, const char * w)
{
	bool eq = true;
	for (unsigned i = 0;; ++i) {
		uint8_t c = v[i];
		if (!w[i])
			return symx_and(eq, c == 0);
		/* (the words are letters only) */
		eq = symx_and(eq, symx_or(c == (uint8_t)w[i], c == (uint8_t)(w[i] - 'a' + 'A')));
	}
}
int main(void)
{
	const struct CFG_Section * s = DEVTYPE_comp.config;
	const struct CFG_Option * o = vs_opt(s, "Type");
	CHECK(!strcmp(s->name, "Device"), "section");
	CHECK(o->type == CFG_VALUE_TYPE_STRING && o->maxlen >= LEN, "option");
	char v[24];
	memset(v, 0, sizeof v);
	unsigned n = nd_pick(0, LEN);
	for (unsigned i = 0; i < n; ++i) {
		v[i] = nd_u8();
		ASSUME(v[i]);
	}
	memcpy(o->var, v, o->maxlen);
	bool hptoa = symx_or(vsEqual(v, "hptoa"), vsEqual(v, "opensky"));
	for (int k = 0; k < 2; ++k) {
		enum OPENSKY_DEVICE_TYPE t = DEVTYPE_getDeviceType();
		CHECK(t == (hptoa ? OPENSKY_DEVICE_TYPE_FEEDER_HPTOA : OPENSKY_DEVICE_TYPE_FEEDER), "device type of the configured word");
		if (t == OPENSKY_DEVICE_TYPE_FEEDER)
			REACH("feeder");
		else
			REACH("hptoa");
	}
	return 0;
}
