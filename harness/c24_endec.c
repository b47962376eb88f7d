/* C24: number encoding.  NOENDIAN: without endian.h of the system */
#include "nd.h"
#ifndef NOENDIAN
#include <config.h>
#else
#include <limits.h>
#undef HAVE_ENDIAN_H
#undef htobe16
#undef htobe32
#undef htobe64
#undef htole16
#undef htole32
#undef htole64
#undef be16toh
#undef be32toh
#undef be64toh
#undef le16toh
#undef le32toh
#undef le64toh
#endif
#include "util/endec.h"

static uint8_t vsB[24], vsOld[24];
static unsigned vsAt;
static uint64_t vsBig(unsigned n)
{
	uint64_t v = 0;
	for (unsigned i = 0; i < n; ++i)
		v = v << 8 | vsB[vsAt + i];
	return v;
}
static void vsSame(unsigned n)
{
	for (unsigned i = 0; i < sizeof vsB; ++i)
		if (i < vsAt || i >= vsAt + n)
			CHECK(vsB[i] == vsOld[i], "nothing else is written");
}
static uint64_t vsRaw(unsigned n)
{
	/* bytes as a number in the order of a little endian machine */
	uint64_t v = 0;
	for (unsigned i = n; i; --i)
		v = v << 8 | vsB[vsAt + i - 1];
	return v;
}

int main(void)
{
	for (unsigned i = 0; i < sizeof vsB; ++i)
		vsOld[i] = vsB[i] = nd_u8();
	vsAt = nd_pick(0, 15);
	const uint8_t * p = vsB + vsAt;
	union { float f; uint32_t u; } f;
	union { double d; uint64_t u; } d;
	union { uint16_t u; uint8_t b[2]; } h;
	union { uint32_t u; uint8_t b[4]; } w;
	union { uint64_t u; uint8_t b[8]; } q;
	/* decoding */
	CHECK(ENDEC_tou16(p) == vsBig(2), "unsigned 16 bit");
	CHECK(ENDEC_toi16(p) == (int16_t)vsBig(2), "signed 16 bit");
	CHECK(ENDEC_tou32(p) == vsBig(4), "unsigned 32 bit");
	CHECK(ENDEC_toi32(p) == (int32_t)vsBig(4), "signed 32 bit");
	CHECK(ENDEC_tou64(p) == vsBig(8), "unsigned 64 bit");
	f.f = ENDEC_tofloat(p);
	CHECK(f.u == vsBig(4), "single precision");
	d.d = ENDEC_todouble(p);
	CHECK(d.u == vsBig(8), "double precision");
	vsSame(0);
	/* the machine order macros */
	memcpy(h.b, p, 2);
	memcpy(w.b, p, 4);
	memcpy(q.b, p, 8);
	CHECK((uint16_t)be16toh(h.u) == vsBig(2) && (uint16_t)le16toh(h.u) == vsRaw(2), "16 bit orders");
	CHECK((uint32_t)be32toh(w.u) == vsBig(4) && (uint32_t)le32toh(w.u) == vsRaw(4), "32 bit orders");
	CHECK((uint64_t)be64toh(q.u) == vsBig(8) && (uint64_t)le64toh(q.u) == vsRaw(8), "64 bit orders");
	h.u = htobe16(vsBig(2));
	w.u = htobe32(vsBig(4));
	q.u = htobe64(vsBig(8));
	CHECK(memcmp(h.b, p, 2) == 0 && memcmp(w.b, p, 4) == 0 && memcmp(q.b, p, 8) == 0, "big endian encoding");
	h.u = htole16(vsRaw(2));
	w.u = htole32(vsRaw(4));
	q.u = htole64(vsRaw(8));
	CHECK(memcmp(h.b, p, 2) == 0 && memcmp(w.b, p, 4) == 0 && memcmp(q.b, p, 8) == 0, "little endian encoding");
	/* only as many bytes as needed are read */
	{
		unsigned n = nd_pick(0, 2);
		if (n == 0) {
			uint8_t b[2] = { p[0], p[1] };
			CHECK(ENDEC_tou16(b) == vsBig(2) && ENDEC_toi16(b) == (int16_t)vsBig(2), "16 bit");
		} else if (n == 1) {
			uint8_t b[4] = { p[0], p[1], p[2], p[3] };
			f.f = ENDEC_tofloat(b);
			CHECK(ENDEC_tou32(b) == vsBig(4) && ENDEC_toi32(b) == (int32_t)vsBig(4) && f.u == vsBig(4), "32 bit");
		} else {
			uint8_t b[8];
			memcpy(b, p, 8);
			d.d = ENDEC_todouble(b);
			CHECK(ENDEC_tou64(b) == vsBig(8) && d.u == vsBig(8), "64 bit");
		}
	}
	/* encoding */
	uint64_t v = nd_u64();
	switch (nd_pick(0, 2)) {
	case 0:
		ENDEC_fromu32(v, vsB + vsAt);
		CHECK(vsBig(4) == (uint32_t)v, "32 bit");
		CHECK(ENDEC_tou32(p) == (uint32_t)v, "decoding reverses encoding");
		vsSame(4);
		break;
	case 1:
		ENDEC_fromu64(v, vsB + vsAt);
		CHECK(vsBig(8) == v, "64 bit");
		CHECK(ENDEC_tou64(p) == v, "decoding reverses encoding");
		vsSame(8);
		break;
	case 2:
		d.u = v;
		ENDEC_fromdouble(d.d, vsB + vsAt);
		CHECK(vsBig(8) == v, "double precision");
		d.d = ENDEC_todouble(p);
		CHECK(d.u == v, "decoding reverses encoding");
		vsSame(8);
		break;
	}
	REACH("end");
	return 0;
}
