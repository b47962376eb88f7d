/* C10: login messages.  VER  program version, ULEN  bound of the user name,
 * UESC  escape bytes in it */
#include "nd.h"
#ifdef VER
#define VERIF_VERSION VER
#endif
#include "env.h"
#include "core/beast.c"
#include "core/login.c"

static uint8_t vsOut[512];
static unsigned vsLen, vsMsgs, vsFailAt;
static bool vsBroken;
static uint32_t vsSerial;
static enum SERIAL_RETURN vsSerialRc;
static unsigned vsOrder, vsPosAt, vsSerialAt;
static bool vsStopped;

bool NET_send(const void * p, size_t n)
{
	CHECK(!vsBroken, "nothing is sent after a failure");
	if (vsMsgs == vsFailAt) {
		vsBroken = true;
		return false;
	}
	++vsMsgs;
	CHECK(vsLen + n <= sizeof vsOut, "bounded");
	memcpy(vsOut + vsLen, p, n);
	vsLen += n;
	return true;
}
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s)
{
	CHECK(!vsBroken, "no serial number after a failure");
	if (vsSerialRc == SERIAL_RETURN_SUCCESS)
		*s = vsSerial;
	if (vsSerialRc != SERIAL_RETURN_SUCCESS)
		vsBroken = true;
	return vsSerialRc;
}
bool GPS_sendPosition()
{
	CHECK(!vsBroken, "no position after a failure");
	static const uint8_t pos[] = { 0x1a, '7', 'P' };
	return NET_send(pos, sizeof pos);
}

static uint8_t vsExp[512];
static unsigned vsExpLen;
static void vsPut(uint8_t c)
{
	vsExp[vsExpLen++] = c;
	if (c == 0x1a)
		vsExp[vsExpLen++] = c;
}
static void vsPut32(uint32_t v)
{
	vsPut(v >> 24);
	vsPut(v >> 16);
	vsPut(v >> 8);
	vsPut(v);
}
static uint32_t vsNum(const char ** p)
{
	uint32_t v = 0;
	while (**p >= '0' && **p <= '9')
		v = v * 10 + (*(*p)++ - '0');
	if (**p == '.')
		++*p;
	return v;
}
static void vsEmergency(void)
{
	CHECK(vsSerialRc == SERIAL_RETURN_FAIL_TEMP || vsSerialRc == SERIAL_RETURN_FAIL_PERM,
		"the program is stopped only if no serial number can be had");
	CHECK(vsMsgs == 1, "only the device identity was sent before");
	REACH("stopped");
}

int main(void)
{
	env_onEmerg = vsEmergency;
#ifdef FIXNUM
	uint32_t type = 3;
#else
	uint32_t type = nd_u32();
#endif
	ASSUME(type != OPENSKY_DEVICE_TYPE_INVALID);
	LOGIN_setDeviceType(type);
	/* user name */
	char name[ULEN + 1];
	unsigned ul = nd_pick(0, ULEN), ne = 0;
	for (unsigned i = 0; i < ul; ++i) {
		name[i] = nd_u8();
		ASSUME(name[i] != 0);
		if (i != 0 && i != ul - 1 && i != ul / 2)
			ASSUME(name[i] != 0x1a);
	}
	name[ul] = 0;
	bool set = nd_bool();
	if (set) {
		if (nd_bool())
			LOGIN_setUsername("a name that is replaced by the next one");
		LOGIN_setUsername(name);
	} else if (nd_bool()) {
		LOGIN_setUsername(name);
		LOGIN_setUsername(NULL);
		REACH("reset");
	}
	bool user = set && ul > 0 && ul <= 40;
	for (unsigned round = 0; round < ROUNDS; ++round) {
#ifdef FIXNUM
		vsSerial = 0x1a001a1a;
#else
		vsSerial = nd_u32();
#endif
		vsSerialRc = nd_pick(0, 3);
		vsFailAt = nd_pick(0, 4);
		vsLen = vsExpLen = vsMsgs = 0;
		vsBroken = false;
		bool r = LOGIN_login();
		unsigned total = user ? 4 : 3;
		bool ok = vsSerialRc == SERIAL_RETURN_SUCCESS && vsFailAt >= total;
		CHECK(vsSerialRc == SERIAL_RETURN_SUCCESS || vsSerialRc == SERIAL_RETURN_FAIL_NET || vsFailAt == 0,
			"no login without a serial number");
		CHECK(r == ok, "login succeeds exactly if everything could be sent");
		if (r) {
			CHECK(vsMsgs == total, "every message is sent");
			REACH("success");
		} else
			REACH("failure");
		/* what was sent is a prefix of the login, message by message */
		unsigned n = vsMsgs;
		const char * v = PACKAGE_VERSION;
		if (n > 0) {
			vsExp[vsExpLen++] = 0x1a;
			vsExp[vsExpLen++] = 'A';
			vsPut32(type);
			vsPut32(vsNum(&v));
			vsPut32(vsNum(&v));
			vsPut32(vsNum(&v));
		}
		if (n > 1) {
			vsExp[vsExpLen++] = 0x1a;
			vsExp[vsExpLen++] = '5';
			vsPut32(vsSerial);
		}
		if (n > 2) {
			vsExp[vsExpLen++] = 0x1a;
			vsExp[vsExpLen++] = '7';
			vsExp[vsExpLen++] = 'P';
		}
		if (n > 3) {
			vsExp[vsExpLen++] = 0x1a;
			vsExp[vsExpLen++] = 'C';
			for (unsigned i = 0; i < 40; ++i)
				vsPut(i < ul ? name[i] : 0);
		}
		CHECK(vsLen == vsExpLen, "length of the login");
		bool same = true;
		for (unsigned i = 0; i < vsExpLen; ++i)
			same = symx_and(same, vsOut[i] == vsExp[i]);
		CHECK(same, "content of the login");
	}
	REACH("end");
	return 0;
}
