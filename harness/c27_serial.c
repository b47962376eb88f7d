/* C27: requesting a serial number from the server */
#include <pthread.h>
static pthread_mutex_t * vsM;
#define ENV_BEFORE_LOCK(m) (vsM = (m))
#include "nd.h"
#define LOCALSTATEDIR "/state"
#include "env.h"
#define clock_gettime(c, t) vs_clock((t))
static int vs_clock(struct timespec * t);
#include "dump1090/req-serial.c"
#ifndef STEPS
#define STEPS 2
#endif

const struct Component TB_comp;
static TB_ProcessorFn vsAnswer;
static uint64_t vsNow = 1000, vsDeadline;
/* what is known */
static bool vsKnown, vsFromServer, vsSaved, vsSaveOk, vsSaving;
static uint32_t vsNumber;
/* the request in progress */
static bool vsIn, vsSendOk, vsSent, vsLost, vsForced;
static unsigned vsTimeouts, vsWhen, vsWhat, vsSpurious;
static bool vsCancelAt;
static bool vsHeld(void) { return vsM && VS_HELD(vsM); }

void TB_register(uint32_t type, size_t len, TB_ProcessorFn fn)
{
	CHECK(type == TB_PACKET_TYPE_SERIAL_RES && len == 4 && !vsAnswer, "the answer packet is registered");
	vsAnswer = fn;
}
static int vs_clock(struct timespec * t)
{
	t->tv_sec = vsNow;
	t->tv_nsec = 5;
	return 0;
}
static void vsUnwound(void)
{
	vs_cancel_unwind();
	CHECK(!vsHeld(), "cancellation releases the lock");
	REACH("cancelled");
	DONE();
}
/* an answer arrives from the server */
static void vsArrive(void)
{
	uint8_t p[4];
	for (int i = 0; i < 4; ++i)
		p[i] = nd_u8();
	uint32_t n = (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
	if (!vsKnown) {
		vsKnown = vsFromServer = true;
		vsNumber = n;
	}
	vsAnswer(p);
	CHECK(!vsHeld(), "the answer releases the lock");
}
bool NET_send(const void * buf, size_t len)
{
	const uint8_t * b = buf;
	CHECK(vsIn && !vsSent, "one request is sent at a time");
	CHECK(!vsKnown, "no request is sent once a number is known");
	CHECK(len == 2 && b[0] == 0x1a && b[1] == 66, "request message");
	vsSent = true;
	vsSendOk = nd_bool();
	if (nd_bool())
		vsUnwound();
	return vsSendOk;
}
bool NET_checkConnected(void)
{
	return !vsLost;
}
void NET_forceDisconnect(void)
{
	CHECK(vsIn && vsTimeouts == 30 && !vsForced, "the connection is given up after a minute");
	vsForced = true;
}
/* 0: answer; 1: spurious wake-up, then answer; 2: connection lost; 3: answer together with the time-out;
 * 4: cancelled; 5: connection lost together with the answer; 6: two answers */
int vs_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
	CHECK(VS_HELD(m), "waits with the lock");
	CHECK(vsSent && vsSendOk, "waits only after a request");
	if (!vsTimeouts && !vsSpurious)
		vsDeadline = vsNow + 2;
	CHECK((uint64_t)t->tv_sec == vsDeadline && t->tv_nsec == 5, "the connection is looked at every two seconds");
	CHECK(vsTimeouts < 30, "waits for a minute only");
	if (vsTimeouts == vsWhen) {
		VS_HELD(m) = 0;
		if (vsWhat == 4) {
			VS_HELD(m) = 1;
			vsUnwound();
		}
		if (vsWhat == 1 && !vsSpurious) {
			++vsSpurious;
			VS_HELD(m) = 1;
			return 0;
		}
		if (vsWhat != 2)
			vsArrive();
		if (vsWhat == 6)
			vsArrive();
		VS_HELD(m) = 1;
		if (vsWhat == 2 || vsWhat == 5)
			vsLost = true;
		if (vsWhat != 2 && vsWhat != 3 && vsWhat != 5)
			return 0;
	}
	++vsTimeouts;
	vsNow = vsDeadline;
	vsDeadline += 2;
	return ETIMEDOUT;
}
bool CFG_writeSection(const char * filename, const struct CFG_Section * s)
{
	CHECK(vsIn && vsKnown && vsFromServer && !vsSaved, "a new number is saved once");
	CHECK(!strcmp(filename, "/state/conf.d/05-serial.conf"), "file");
	CHECK(s == SERIAL_comp.config && s->n_opt == 1 && !strcmp(s->name, "Device") && !strcmp(s->options[0].name, "serial")
		&& s->options[0].type == CFG_VALUE_TYPE_INT, "section");
	CHECK(*(uint32_t *)s->options[0].var == vsNumber && *s->options[0].given, "the number is saved");
	vsSaveOk = nd_bool();
	vsSaved = true;
	return vsSaveOk;
}
static void vsEmerg(void)
{
	CHECK(vsSaved && !vsSaveOk, "stops only if the number cannot be saved");
	REACH("save failed");
}

int main(void)
{
	env_onEmerg = vsEmerg;
	SERIAL_comp.onRegister();
	CHECK(vsAnswer, "the answer is registered");
	const struct CFG_Option * o = &SERIAL_comp.config->options[0];
	if (nd_bool()) {
		vsKnown = vsSaved = true;
		vsNumber = nd_u32();
		*(uint32_t *)o->var = vsNumber;
		*o->given = true;
	} else
		*o->given = false;
	for (unsigned s = 0; s < STEPS; ++s) {
		if (nd_bool()) {
			vsArrive();
			REACH("unsolicited");
			continue;
		}
		bool known = vsKnown;
		vsIn = true;
		vsSent = vsSendOk = vsLost = vsForced = false;
		vsTimeouts = vsSpurious = 0;
#ifdef ALLROUNDS
		vsWhen = nd_pick(0, 30);
#else
		{
			static const uint8_t w[] = { 0, 1, 28, 29, 30 };
			vsWhen = w[nd_pick(0, 4)];
		}
#endif
		vsWhat = nd_pick(0, 6);
		uint32_t mark = nd_u32(), got = mark;
		enum SERIAL_RETURN r = SERIAL_getSerial(&got);
		vsIn = false;
		CHECK(!vsHeld() && !vs_cn, "lock released");
		CHECK(vsSent == !known, "a number is requested exactly if none is known");
		if (r == SERIAL_RETURN_SUCCESS) {
			CHECK(vsKnown && got == vsNumber, "the number answered first is used");
			CHECK(vsSaved && (!vsFromServer || vsSaveOk), "the number is saved before it is used");
			CHECK(!vsForced, "the connection stays");
			if (known)
				REACH("known");
			else
				REACH("answered");
		} else {
			CHECK(r == SERIAL_RETURN_FAIL_NET, "otherwise login is deferred");
			CHECK(got == mark, "no number is made up");
			CHECK(!known, "a known number is returned");
			CHECK(!vsSendOk || vsLost || vsTimeouts == 30, "gives up only if the connection is lost or after a minute");
			CHECK(vsForced == (vsSendOk && !vsLost), "the connection is given up after a minute");
			if (vsKnown)
				REACH("late");
			else
				REACH("no answer");
		}
		CHECK(!vsLost || r != SERIAL_RETURN_SUCCESS || vsWhat == 5, "lost connection");
		OBS(got);
		OBS(r);
		OBS(vsTimeouts);
	}
	return 0;
}
