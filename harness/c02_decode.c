/* C02: decoding of the receiver stream.
 * N        bytes in the stream
 * LEN      if defined: the length of the stream is symbolic, 0..N
 * K        calls of INPUT_getFrame
 * TYPE     if defined: the stream starts with SYNC TYPE (rest stays symbolic)
 * ESC      at most ESC bytes of the stream (after the prefix) are SYNC, at any
 *          positions; not defined: every byte is unrestricted
 * CUTS     reads end at CUTS symbolic positions of the stream, otherwise they
 *          deliver what is there (up to the buffer's size)
 * BYTEWISE every read delivers one byte
 * ALLESC   TYPE frame whose first bytes (symbolic number) are escaped SYNCs
 * FRAMES   the stream is a sequence of well-formed frames of type TYPE
 * RECON    the input is disconnected and connected after the first frame */
#include "nd.h"
#include <stdlib.h>
#include "env.h"
#include "radarcape/rc-parser.c"
#include "core/filter.h"

#ifndef CUTS
#define CUTS 0
#endif
#define MAXFRAME 21

static uint8_t S[N];
static unsigned L, pos;
static bool ended;
static unsigned cut[CUTS + 1];

void RC_INPUT_register() {}
void RC_INPUT_init() {}
static bool connected;
void RC_INPUT_connect()
{
	CHECK(!connected, "input is connected only when it is not");
	connected = true;
}
void RC_INPUT_disconnect() { connected = false; }
size_t RC_INPUT_write(uint8_t * b, size_t l) { return l; }
struct FILTER_Configuration FILTER_cfg;

size_t RC_INPUT_read(uint8_t * b, size_t l)
{
	CHECK(connected, "read only while the input is connected");
	CHECK(!ended, "no read after the input failed");
	if (pos == L) {
		ended = true;
		return 0;
	}
	CHECK(l > 0, "read asks for at least one byte");
#ifdef BYTEWISE
	unsigned n = 1;
#else
	unsigned n = L - pos;
	for (unsigned i = 0; i < CUTS; ++i)
		if (cut[i] > pos && n > cut[i] - pos)
			n = cut[i] - pos;
	if (n > l)
		n = l;
#endif
	for (unsigned i = 0; i < n; ++i)
		b[i] = S[pos + i];
	pos += n;
	return n;
}

/* ---- reference: works on the whole stream ---- */
static unsigned rp;              /* next unconsumed byte */
static struct Ref {
	bool ok;
	unsigned start, end;         /* wire image of the frame */
	uint8_t body[MAXFRAME];
	unsigned len;
} ref[K];

static unsigned typeLen(uint8_t t)
{
	return t == '1' ? 2 : t == '2' ? 7 : t == '3' || t == '4' ? 14 : 0;
}

/** find the next well-formed frame; false: input ends first */
static void ref_next(struct Ref * f)
{
	enum { START, SEARCH, SEARCH1, TYPE_, BODY, BODY1 } st = START;
	unsigned bi = 0;
	for (unsigned i = rp; i < L; ++i) {
		uint8_t c = S[i];
		switch (st) {
		case START:
			if (c == 0x1a) {
				st = TYPE_;
				f->start = i;
			} else
				st = SEARCH;
			break;
		case SEARCH:
			if (c == 0x1a) {
				st = SEARCH1;
				f->start = i;
			}
			break;
		case SEARCH1:
			if (c == 0x1a) {
				st = SEARCH;
				break;
			}
			/* fall through */
		case TYPE_:
			bi = 0;
			f->len = typeLen(c);
			st = f->len ? BODY : SEARCH;
			break;
		case BODY:
			if (c == 0x1a)
				st = BODY1;
			else
				f->body[bi++] = c;
			break;
		case BODY1:
			if (c == 0x1a) {
				f->body[bi++] = c;
				st = BODY;
			} else {
				f->start = i - 1;
				bi = 0;
				f->len = typeLen(c);
				st = f->len ? BODY : SEARCH;
			}
			break;
		}
		if (st == BODY && bi == f->len + 7) {
			rp = i + 1;
			f->end = i + 1;
			f->ok = true;
			return;
		}
	}
	rp = L;
	f->ok = false;
}

static void stream(void)
{
	unsigned i, p = 0;
	for (i = 0; i < N; ++i)
		S[i] = nd_u8();
#ifdef FRAMES
	/* back to back frames; one escaped SYNC in the body of one of them */
	unsigned at = nd_pick(0, N - 1), in = 0;
	for (i = 0; i < N; ++i) {
		if (in == 0)
			S[i] = 0x1a;
		else if (in == 1)
			S[i] = TYPE;
		else if (i == at && i + 1 < N) {
			S[i] = S[i + 1] = 0x1a;
			++i;
		} else
			ASSUME(S[i] != 0x1a);
		if (++in == typeLen(TYPE) + 9)
			in = 0;
	}
	L = N;
#else
#ifdef TYPE
	S[p++] = 0x1a;
	S[p++] = TYPE;
#endif
#ifdef ALLESC
	for (unsigned k = nd_pick(0, typeLen(TYPE) + 7); k && p + 1 < N; --k) {
		S[p++] = 0x1a;
		S[p++] = 0x1a;
	}
#endif
#ifdef ESC
	unsigned e[ESC + 1], k;
	for (k = 0; k < ESC; ++k)
		e[k] = nd_pick(k ? e[k - 1] + (e[k - 1] < N) : p, N);
	for (k = 0, i = p; i < N; ++i)
		if (k < ESC && e[k] == i) {
			S[i] = 0x1a;
			++k;
		} else
			ASSUME(S[i] != 0x1a);
#endif
#ifdef LEN
	L = nd_pick(0, N);
#else
	L = N;
#endif
#endif
	for (i = 0; i < CUTS; ++i)
		cut[i] = nd_pick(i ? cut[i - 1] + (cut[i - 1] < N) : 1, N);
}

int main(void)
{
	unsigned i, k;

	stream();
	INPUT_comp.onConstruct();
	INPUT_connect();

	for (k = 0; k < K; ++k) {
		struct OPENSKY_RawFrame raw;
		struct OPENSKY_DecodedFrame dec;
		struct Ref * f = &ref[k];
		ref_next(f);
		bool r = INPUT_getFrame(&raw, &dec);
		CHECK(r == f->ok, "a frame is reported exactly if the stream contains another one");
		if (!r) {
			CHECK(ended, "failure is reported only when the input failed");
			REACH("input-end");
			DONE();
		}
		CHECK(dec.frameType == S[f->start + 1], "frame type");
		CHECK(dec.payloadLen == f->len, "payload length");
		uint64_t ts = 0;
		for (i = 0; i < 6; ++i)
			ts = ts << 8 | f->body[i];
		CHECK(dec.mlat == ts, "time stamp is the 48 bit big-endian value");
		CHECK(dec.siglevel == (int8_t)f->body[6], "signed level");
		for (i = 0; i < f->len; ++i)
			CHECK(dec.payload[i] == f->body[7 + i], "payload");
		CHECK(raw.rawLen == f->end - f->start, "raw length");
		for (i = 0; i < f->end - f->start; ++i)
			CHECK(raw.raw[i] == S[f->start + i], "raw image");
		OBS(dec.mlat);
		OBS(raw.rawLen);
#if !defined(FRAMES) && !defined(ALLESC)
		if (k == 0 && f->start > 0)
			REACH("resync");
#endif
		if (f->end - f->start > f->len + 9)
			REACH("escape");
#ifdef RECON
		if (k == 0) {
			INPUT_disconnect();
			INPUT_connect();
			if (pos > rp)
				REACH("dropped");
			rp = pos;
		}
#endif
	}
	REACH("frames");
	return 0;
}
