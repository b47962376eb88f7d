/* C15: publication of the position.
 * K        operations of a history
 * ENCODE   one position with arbitrary coordinates, ESC escape bytes in it
 * PREEMPT  an operation interrupted by an operation of another thread */
#include "nd.h"
#include "env.h"
#include "core/beast.c"
#include "core/gps.c"

static const double vsVal[][3] = {
	{ 48.5, -7.25, 260.0 },
	{ -0.0, 180.0, 1e300 },
};
#define NVAL (sizeof vsVal / sizeof *vsVal)
static double vsPos[3];
static bool vsHas, vsFix, vsNeed;
static unsigned vsSent, vsSentExp;
static bool vsOk = true, vsAsk = true, vsCancelled;
static int vsWhich = -1;

static unsigned vsEncode(uint8_t * d, const double * p)
{
	unsigned n = 0;
	d[n++] = 0x1a;
	d[n++] = '7';
	for (unsigned i = 0; i < 3; ++i) {
		union { double d; uint64_t u; } x;
		x.d = p[i];
		for (int s = 56; s >= 0; s -= 8) {
			uint8_t b = x.u >> s;
			d[n++] = b;
			if (b == 0x1a)
				d[n++] = b;
		}
	}
	return n;
}
static bool vsIsPos(const uint8_t * b, size_t n, const double * pos)
{
	uint8_t e[64];
	unsigned k = vsEncode(e, pos);
	if (n != k)
		return false;
	bool same = true;
	for (unsigned i = 0; i < k; ++i)
		same = symx_and(same, b[i] == e[i]);
	return same;
}
bool NET_send(const void * p, size_t n)
{
	++vsSent;
#ifdef PREEMPT
	vsWhich = -1;
	for (unsigned i = 0; i < NVAL; ++i)
		if (vsIsPos(p, n, vsVal[i]))
			vsWhich = i;
	CHECK(vsWhich >= 0, "the coordinates sent belong together");
	return true;
#endif
	CHECK(vsIsPos(p, n, vsPos), "the message carries the current position");
	REACH("sent");
	if (vsAsk) {
		unsigned r = nd_pick(0, 2);
		if (r == 2) {
			/* cancelled while sending: all locks are released */
			vs_cancel_unwind();
			vsCancelled = true;
			GPS_reset();
			DONE();
		}
		vsOk = r;
	}
	return vsOk;
}

/** position and fix are known and the position is required: it is sent */
static void vsDue(void)
{
	if (vsNeed && vsHas && vsFix) {
		++vsSentExp;
		vsNeed = !vsOk;
		if (vsNeed)
			REACH("repeat");
	}
}
static void vsOp(unsigned op, unsigned v)
{
	bool r;
	switch (op) {
	case 0:
		GPS_reset();
		vsHas = vsFix = vsNeed = false;
		break;
	case 1:
		GPS_resetNeedFlag();
		vsNeed = false;
		break;
	case 2: case 3:
		memcpy(vsPos, vsVal[v], sizeof vsPos);
		vsHas = true;
		if (op == 2) {
			vsFix = true;
			GPS_setPositionWithFix(vsPos[0], vsPos[1], vsPos[2]);
		} else
			GPS_setPosition(vsPos[0], vsPos[1], vsPos[2]);
		vsDue();
		break;
	case 4:
		vsFix = v;
		GPS_setHasFix(v);
		vsDue();
		break;
	default:
		r = GPS_sendPosition();
		if (vsHas && vsFix) {
			++vsSentExp;
			CHECK(r == vsOk, "the result of sending is reported");
		} else {
			CHECK(r, "sending is put off");
			vsNeed = true;
			REACH("deferred");
		}
	}
}

#ifdef PREEMPT
static unsigned opA, opB;
static void vsRaw(unsigned op)
{
	switch (op) {
	case 0: GPS_reset(); break;
	case 1: GPS_setPositionWithFix(vsVal[1][0], vsVal[1][1], vsVal[1][2]); break;
	case 2: GPS_setPosition(vsVal[1][0], vsVal[1][1], vsVal[1][2]); break;
	case 3: GPS_setHasFix(true); break;
	case 4: CHECK(GPS_sendPosition(), "sending succeeds or is put off"); break;
	}
}
static void runA(void) { vsRaw(opA); }
static void runB(void) { vsRaw(opB); }
#endif

int main(void)
{
	vsAsk = false;
	GPS_reset();
	vsAsk = true;
#ifdef PREEMPT
	/* what is known before */
	bool has = nd_bool(), fix = nd_bool();
	if (has)
		GPS_setPosition(vsVal[0][0], vsVal[0][1], vsVal[0][2]);
	GPS_setHasFix(fix);
	opA = nd_pick(0, 4);
	opB = nd_pick(0, 4);
	/* one of them is the relay thread: it sends */
	ASSUME((opA == 4) != (opB == 4));
	unsigned op = opA == 4 ? opB : opA;
	preemptRun(runA, runB);
	if (preemptDone)
		REACH("preempted");
	bool has2 = op == 0 ? false : has || op == 1 || op == 2;
	bool fix2 = op == 0 ? false : fix || op == 1 || op == 3;
	if (has2 && fix2)
		CHECK(vsSent == 1, "a required position is sent once");
	else
		CHECK(vsSent == 0 || (op == 0 && has && fix && vsSent == 1), "no position is sent when none is known");
	if (vsSent) {
		REACH("sent");
		CHECK(vsWhich == 1 || has, "a known position is sent");
		if (!(has && fix) && op != 3)
			CHECK(vsWhich == 1, "the new position is sent");
	}
#elif defined(ENCODE)
	/* a message of any coordinates */
	union { double d[3]; uint8_t b[24]; } c;
	unsigned pos[ESC + 1];
	for (unsigned i = 0; i < ESC; ++i) {
		pos[i] = nd_pick(0, 24);
		ASSUME(i == 0 || pos[i] > pos[i - 1] || pos[i] == 24);
	}
	for (unsigned i = 0, k = 0; i < 24; ++i) {
		while (k < ESC && pos[k] < i)
			++k;
		if (k < ESC && pos[k] == i)
			c.b[i] = 0x1a;
		else {
			c.b[i] = nd_u8();
			ASSUME(c.b[i] != 0x1a);
		}
	}
#ifdef ALLESC
	memset(c.b, 0x1a, 24);
#endif
	for (unsigned i = 0; i < 3; ++i)
		vsPos[i] = c.d[i];
	if (nd_bool()) {
		GPS_setPositionWithFix(c.d[0], c.d[1], c.d[2]);
		GPS_sendPosition();
	} else {
		GPS_sendPosition();
		CHECK(vsSent == 0, "not sent before it is known");
		GPS_setPositionWithFix(c.d[0], c.d[1], c.d[2]);
	}
	CHECK(vsSent == 1, "the position is sent");
#else
	for (unsigned k = 0; k < K; ++k) {
		unsigned op = nd_pick(0, 5), v = op >= 2 && op <= 4 ? nd_pick(0, 1) : 0;
		vsOp(op, v);
		CHECK(vsSent == vsSentExp, "the position is sent when it is known and due, and only then");
	}
	/* what is still required is sent as soon as it is known */
	vsAsk = false;
	vsOk = true;
	vsOp(2, 1);
	CHECK(vsSent == vsSentExp, "a required position is sent when it becomes known");
	vsOp(4, 1);
	CHECK(vsSent == vsSentExp, "a position is not sent twice");
#endif
	REACH("end");
	return 0;
}
