/* C13: framing and dispatch of the talkback stream.
 * N  bytes of the stream, R  reads per connection, C  connections
 * BIG  mostly concrete, long packets */
#define NET_send vs_NET_send
#include "nd.h"
#include "env.h"
#undef NET_send
#include "core/tb.c"

const struct Component NET_comp;

struct vsPacket { unsigned type, len; uint8_t pl[124]; };
static struct vsPacket vsGot[64];
static unsigned vsGotN;

/* the reference works on its own copy of the stream */
static struct vsPacket vsExp[64];
static unsigned vsExpN;
static uint8_t vsBuf[300];
static unsigned vsBufLen, vsReads, vsTotal, vsConns;
static bool vsUp;
/** registered payload length per type, -1: none */
static int vsLen[TB_PACKET_TYPE_N];

static void vsRecord(unsigned type, const uint8_t * p, unsigned n)
{
	CHECK(vsGotN < 64, "env: calls");
	struct vsPacket * v = &vsGot[vsGotN++];
	v->type = type;
	v->len = n;
	for (unsigned i = 0; i < n; ++i)
		v->pl[i] = p[i];
}
static void vsShell(const uint8_t * p) { vsRecord(0, p, vsLen[0]); }
static void vsRestart(const uint8_t * p) { vsRecord(1, p, vsLen[1]); }
static void vsReboot(const uint8_t * p) { vsRecord(2, p, vsLen[2]); }
static void vsSerial(const uint8_t * p) { vsRecord(5, p, vsLen[5]); }

/* the filter command is built in */
static unsigned vsFilter;
void FILTER_setSynchronizedFilter(bool v) { vsFilter |= 1 | v << 1; }
void FILTER_setModeSExtSquitter(bool v) { vsFilter |= 4 | v << 3; }
void FILTER_reset() { vsFilter |= 16; }

static void vsCompare(void)
{
	CHECK(vsGotN == vsExpN, "each packet is delivered once and nothing else is");
	for (unsigned k = 0; k < vsExpN; ++k) {
		CHECK(vsGot[k].type == vsExp[k].type, "packets are delivered to the handler of their type in order");
		bool same = true;
		for (unsigned i = 0; i < vsExp[k].len; ++i)
			same = symx_and(same, vsGot[k].pl[i] == vsExp[k].pl[i]);
		CHECK(same, "payload is delivered");
		REACH("packet");
	}
	if (vsExpN > 1)
		REACH("packets");
	vsGotN = vsExpN = 0;
}
static unsigned vsFilterExp;
static void vsModel(void)
{
	while (vsBufLen >= 4) {
		unsigned type = vsBuf[0] << 8 | vsBuf[1], len = vsBuf[2] << 8 | vsBuf[3];
		if (len < 4 || len > 128) {
			vsBufLen = 0;
			REACH("bad length");
			return;
		}
		if (len > vsBufLen) {
			REACH("partial");
			return;
		}
		len = (unsigned)symx_conc(len);
		if (type < TB_PACKET_TYPE_N && vsLen[type] == (int)len - 4) {
			if (type == TB_PACKET_TYPE_FILTER) {
				uint8_t m = vsBuf[4], c = vsBuf[5];
				if (m & 1)
					vsFilterExp |= 1 | (c & 1) << 1;
				if (m & 2)
					vsFilterExp |= 4 | (c >> 1 & 1) << 3;
				if (m & 128)
					vsFilterExp |= 16;
				REACH("filter");
			} else {
				struct vsPacket * v = &vsExp[vsExpN++];
				v->type = type;
				v->len = len - 4;
				memcpy(v->pl, vsBuf + 4, len - 4);
			}
		} else
			REACH("ignored");
		memmove(vsBuf, vsBuf + len, vsBufLen - len);
		vsBufLen -= len;
	}
}

void NET_waitConnected()
{
	vsCompare();
	CHECK(!vsUp, "waits for a connection after a failure only");
	vsUp = true;
	if (vsConns++ == C)
		DONE();
	vsBufLen = 0;
	vsReads = 0;
}
ssize_t NET_receive(uint8_t * p, size_t n)
{
	CHECK(vsUp, "receives while connected");
	CHECK(n > 0, "there is room for data");
	volatile uint8_t * t = p;
	t[0] = 0x5a;
	t[n - 1] = 0x5a;
	/* everything received so far has been dispatched */
	vsModel();
	vsCompare();
	CHECK(vsFilter == vsFilterExp, "filter commands are carried out");
	if (vsReads++ == R || vsTotal == N || nd_bool()) {
		if (vsBufLen)
			REACH("end in packet");
		vsUp = false;
		return nd_bool() ? 0 : -1;
	}
#ifdef BIG
	unsigned r = n < N - vsTotal ? n : N - vsTotal;
	if (nd_bool())
		r = nd_pick(1, r < 3 ? r : 3);
#else
	unsigned r = nd_pick(1, n < N - vsTotal ? n : N - vsTotal);
#endif
	for (unsigned i = 0; i < r; ++i) {
#ifdef BIG
		/* stream of packets of type 2 and BIG bytes */
		unsigned o = vsTotal % (BIG);
		p[i] = o == 0 || o == 2 ? 0 : o == 1 ? 2 : o == 3 ? (BIG) : o < 6 && (BIG) <= 128 ? nd_u8() : 0x90 + o % 64;
#else
		p[i] = nd_u8();
#ifdef KNOWN
		/* small type and length at the start of the stream */
		if (vsTotal == 0 || vsTotal == 2)
			ASSUME(p[i] == 0);
		if (vsTotal == 1)
			ASSUME(p[i] <= TB_PACKET_TYPE_N);
		if (vsTotal == 3)
			ASSUME(symx_and(p[i] >= 4, p[i] <= 10));
#endif
#endif
		vsBuf[vsBufLen++] = p[i];
		++vsTotal;
	}
	return r;
}

int main(void)
{
	for (unsigned i = 0; i < TB_PACKET_TYPE_N; ++i)
		vsLen[i] = -1;
	vsLen[TB_PACKET_TYPE_FILTER] = 2;
#ifdef BIG
	vsLen[2] = (BIG) - 4;
	TB_register(2, vsLen[2], vsReboot);
#else
	vsLen[0] = 6;
	vsLen[1] = 0;
	TB_register(0, 6, vsShell);
	TB_register(1, 0, vsRestart);
	if (nd_bool()) {
		vsLen[5] = 1;
		TB_register(5, 1, vsSerial);
		if (nd_bool()) {
			vsLen[1] = -1;
			TB_unregister(1);
			REACH("unregistered");
		}
	}
#endif
	if (TB_comp.onReset)
		TB_comp.onReset();
	TB_comp.main();
	CHECK(0, "the loop never ends");
	return 0;
}
