/* C16: framing of the GPS receiver's reports.
 * N  stream bytes, K  frames fetched, CUTS  reads that may be short,
 * LMAX  size of the frame buffer (picked from 2 on; FIXLEN: exactly)
 * LONG  mostly concrete long reports, CONNECT  connecting */
#include "nd.h"
#include "env.h"
#include "trimble/trimble_parser.c"

static uint8_t vsIn[N + 1];
static unsigned vsRd, vsEnd, vsCut;
static unsigned vsConn, vsDisc, vsWrites, vsInit;
static bool vsConfigured, vsFailed;

void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() { ++vsInit; }
void TRIMBLE_INPUT_disconnect() { ++vsDisc; }
void TRIMBLE_INPUT_connect()
{
	CHECK(vsConn == vsWrites, "each connection is configured");
	if (++vsConn > 4)
		DONE();
}
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n)
{
	static const uint8_t e[] = { 0x10, 0x35, 4, 0, 1, 8, 0x10, 3 };
	CHECK(n == sizeof e && memcmp(b, e, n) == 0, "the documented command configures the receiver");
	++vsWrites;
	CHECK(vsWrites == vsConn, "configures once per connection");
#ifdef CONNECT
	size_t r = nd_pick(0, sizeof e);
	vsConfigured = r == sizeof e;
	if (!vsConfigured)
		REACH("again");
	return r;
#else
	vsConfigured = true;
	return n;
#endif
}
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n)
{
	CHECK(vsConfigured, "the receiver is configured before it is read");
	CHECK(!vsFailed, "no reading after a failure");
	CHECK(n > 0, "room to read");
	volatile uint8_t * t = b;
	t[0] = 0xa5;
	t[n - 1] = 0xa5;
	unsigned left = vsEnd - vsRd;
	if (!left) {
		vsFailed = true;
		return 0;
	}
	unsigned r = left < n ? left : n;
	if (vsCut) {
		--vsCut;
		r = nd_pick(1, r);
	}
	for (unsigned i = 0; i < r; ++i)
		b[i] = vsIn[vsRd++];
	return r;
}

/* reference: byte by byte */
static unsigned vsP;
static uint8_t vsRef[N + 1];
static bool vsNext(uint8_t * c)
{
	if (vsP == vsEnd)
		return false;
	*c = vsIn[vsP++];
	return true;
}
static bool vsSync(uint8_t * type)
{
	uint8_t c;
	while (vsNext(&c)) {
		if (c != 0x10)
			continue;
		if (!vsNext(&c))
			return false;
		if (c != 0x10 && c != 3) {
			*type = c;
			return true;
		}
	}
	return false;
}
static unsigned vsModel(unsigned max)
{
	uint8_t c, type;
	if (!vsNext(&c))
		return 0;
	if (c != 0x10) {
		REACH("resync");
		if (!vsSync(&type))
			return 0;
	} else {
		if (!vsNext(&type))
			return 0;
		if (type == 0x10 || type == 3)
			if (!vsSync(&type))
				return 0;
	}
	for (;;) {
		unsigned n = 0;
		vsRef[n++] = type;
		for (;;) {
			if (n == max) {
				/* too long for the buffer */
				REACH("oversized");
				if (!vsSync(&type))
					return 0;
				break;
			}
			if (!vsNext(&c))
				return 0;
			if (c == 0x10) {
				if (!vsNext(&c))
					return 0;
				if (c == 3)
					return n;
				if (c != 0x10) {
					/* a new report starts within this one */
					type = c;
					REACH("restart");
					break;
				}
				REACH("escape");
			}
			vsRef[n++] = c;
		}
	}
}

static void vsFetch(unsigned max)
{
	uint8_t * f = malloc(max);
	size_t r = TRIMBLE_PARSER_getFrame(f, max);
	unsigned n = vsModel(max);
	CHECK(r == n, "length of the report");
	bool same = true;
	for (unsigned i = 0; i < n; ++i)
		same = symx_and(same, f[i] == vsRef[i]);
	CHECK(same, "content of the report");
	CHECK((n == 0) == vsFailed, "failure exactly when the input ends");
	if (n)
		REACH("report");
	else
		REACH("end");
	free(f);
}

int main(void)
{
	TRIMBLE_PARSER_init();
	CHECK(vsInit == 1, "the input is initialised");
	TRIMBLE_PARSER_connect();
	CHECK(vsConfigured && vsConn == vsWrites, "connected and configured");
#ifdef CONNECT
	REACH("end");
	return 0;
#endif
#ifdef LONG
	/* two reports of concrete content; some bytes are picked */
	unsigned l = nd_pick(LONG - 1, LONG + 1), n = 0;
	for (unsigned k = 0; k < 2; ++k) {
		vsIn[n++] = 0x10;
		for (unsigned i = 0; i < l; ++i) {
			vsIn[n++] = 0x20 + i % 64;
			if (i == 1)
				vsIn[n - 1] = nd_u8();
		}
		vsIn[n++] = 0x10;
		vsIn[n++] = 3;
	}
	vsEnd = n;
	unsigned at = nd_pick(1, l + 2), what = nd_pick(0, 2);
	/* an escape, at any place */
	vsIn[at] = 0x10;
	if (what)
		vsIn[at + 1] = what == 1 ? 0x10 : 3;
#else
	vsEnd = nd_pick(0, N);
	for (unsigned i = 0; i < vsEnd; ++i)
		vsIn[i] = nd_u8();
#endif
	vsCut = CUTS;
#ifdef FIXLEN
	unsigned max = LMAX;
#else
	unsigned max = nd_pick(2, LMAX);
#endif
	for (unsigned k = 0; k < K && !vsFailed; ++k)
		vsFetch(max);
#ifdef RECON
	/* nothing of the old connection is left after connecting again */
	vsFailed = false;
	vsP = vsRd;
	TRIMBLE_PARSER_disconnect();
	CHECK(vsDisc == 1, "disconnects");
	TRIMBLE_PARSER_connect();
	vsFetch(max);
#endif
	return 0;
}
