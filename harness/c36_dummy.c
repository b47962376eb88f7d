/* C36: the simulated receiver: every read is one well-formed frame.
 * READS reads   GPS the simulated GPS receiver instead */
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#define clock_gettime vs_clock
#define usleep vs_usleep
#define sleep vs_sleep
#define random vs_random
#define srandom vs_srandom
#define sin vs_sin
#define pow vs_pow
#define time vs_time
#include "nd.h"
#include "env.h"

#ifdef GPS
static unsigned vsSlept;
unsigned vs_sleep(unsigned s)
{
	CHECK(s > 0, "waits");
	if (++vsSlept == READS) {
		REACH("waits");
		DONE();
	}
	return 0;
}
#include "trimble/trimble_input_dummy.c"
int main(void)
{
	uint8_t b[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
	TRIMBLE_INPUT_register();
	TRIMBLE_INPUT_init();
	TRIMBLE_INPUT_connect();
	size_t n = nd_pick(0, 8);
	CHECK(TRIMBLE_INPUT_write(b, n) == n, "everything is written");
	if (nd_bool())
		TRIMBLE_INPUT_disconnect(), TRIMBLE_INPUT_connect();
	TRIMBLE_INPUT_read(b, sizeof b);
	CHECK(0, "nothing is ever received");
	return 0;
}
#else
#include "core/beast.h"
static struct timespec vsNow;
static unsigned vsRnd, vsAt, vsFree;
static uint8_t vsBase, vsGen[64];
int vs_clock(clockid_t c, struct timespec * t)
{
	CHECK(c == CLOCK_REALTIME, "time of the day");
	*t = vsNow;
	return 0;
}
time_t vs_time(time_t * t) { return vsNow.tv_sec; }
void vs_srandom(unsigned s) {}
long vs_random(void)
{
	uint8_t r = vsRnd == vsFree ? nd_u8() : vsBase;
	vsGen[vsRnd++ & 63] = r;
	return 0x1234500 | r;
}
double vs_sin(double x) { return 0.25; }
double vs_pow(double x, double y) { return 0.5; }
int vs_usleep(useconds_t t)
{
	CHECK(t >= 5000, "frames come at a limited rate");
	return 0;
}
#include "radarcape/dummy.c"

int main(void)
{
	static const uint32_t secs[] = { 0, 86399, 86400, 1700000000, 4294967295u };
	/* more than the longest frame, as the receive buffer; what follows stays */
	uint8_t b[64];
	RC_INPUT_register();
	RC_INPUT_init();
	RC_INPUT_connect();
	uint8_t w[3] = { 0x1a, 0x31, 'D' };
	CHECK(RC_INPUT_write(w, sizeof w) == sizeof w, "the configuration is accepted");
	vsBase = nd_bool() ? 0x1a : 0x55;
	for (unsigned k = 0; k < READS; ++k) {
		vsNow.tv_sec = secs[k ? nd_pick(0, 4) : 3];
		vsNow.tv_nsec = nd_u32();
		ASSUME(vsNow.tv_nsec < 1000000000);
		vsRnd = 0;
		vsFree = k ? nd_pick(0, 3) * 13 / 3 : 0;
		memset(b, 0xee, sizeof b);
		size_t room = k < READS - 1 || nd_bool() ? sizeof b : nd_pick(20, 22);
		size_t n = RC_INPUT_read(b, room);
		CHECK(n <= room && n > 0, "fits");
		for (unsigned i = n; i < sizeof b; ++i)
			CHECK(b[i] == 0xee, "only the reported bytes are written");
		if (room < sizeof b) {
			REACH("cut");
			continue;
		}
		CHECK(b[0] == 0x1a && b[1] == (k ? '3' : '4'), "a status frame, then long frames");
		uint8_t f[22];
		unsigned m = 0;
		for (unsigned i = 2; i < n; ++i) {
			CHECK(m < 21, "length of a frame");
			f[m++] = b[i];
			if (b[i] == 0x1a)
				CHECK(++i < n && b[i] == 0x1a, "escaped");
		}
		CHECK(m == 21, "one complete frame");
		uint64_t t = 0;
		for (unsigned i = 0; i < 6; ++i)
			t = t << 8 | f[i];
		CHECK(t == ((uint64_t)(vsNow.tv_sec % 86400) << 30 | (uint32_t)vsNow.tv_nsec), "time of the frame");
		if (!k) {
			for (unsigned i = 6; i < 21; ++i)
				CHECK(!f[i], "empty status");
			REACH("status");
		} else {
			CHECK(f[7] >> 3 == 17, "extended squitter");
			for (unsigned i = 0; i < 13; ++i)
				CHECK(symx_or(f[8 + i] == vsBase, f[8 + i] == vsGen[vsFree]), "content is generated");
			REACH("frame");
		}
	}
	RC_INPUT_disconnect();
	return 0;
}
#endif
