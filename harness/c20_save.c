/* C20: saving the configuration and loading it again.
 * NUM integers and numbers, TXT strings and ports, FAIL failing output,
 * ONE one section only */
#include "savefile_macros.h"
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#undef putc
#define putc vs_fputc
#include "util/cfgfile.c"
#include "cfgref.h"

#include "savefile.h"

static double vsD;
static uint32_t vsE;
static bool vsGE;
static const struct CFG_Section vsSecC = {
	.name = "B", .n_opt = 2, .options = {
		{ .name = "d", .type = CFG_VALUE_TYPE_DOUBLE, .var = &vsD, .def = { .dbl = 2.5 } },
		{ .name = "e", .type = CFG_VALUE_TYPE_INT, .var = &vsE, .given = &vsGE, .defaultEmpty = true } } };

int main(void)
{
	vsRegister();
	CFG_registerSection(&vsSecC);
	CFG_loadDefaults();
	/* any current settings */
	struct vsValues v;
	vsDefaults(&v);
	double d = 2.5;
	uint32_t e = 0;
	bool ge = false;
#ifdef NUM
	static const uint32_t ints[] = { 0, 7, 10, 99, 65536, 1000000000, 4294967295 };
	static const double dbls[] = { 0.1, -0.0, 48.123456789012345, -179.99999999999997, 1e-7, 1e300, 5e-324, 12345678.25 };
	v.y = ints[nd_pick(0, sizeof ints / sizeof *ints - 1)];
	d = dbls[nd_pick(0, sizeof dbls / sizeof *dbls - 1)];
	ge = nd_bool();
	if (ge)
		e = nd_pick(0, 1) ? 31 : 0;
#endif
#ifdef TXT
	unsigned n = nd_pick(1, 3);
	for (unsigned i = 0; i < n; ++i) {
		v.x[i] = nd_u8();
		/* a value that can be in a file */
		ASSUME(symx_and(v.x[i] != 0, v.x[i] != '\n'));
		ASSUME(symx_or(i != 0 && i != n - 1, !vsSpace(v.x[i])));
	}
	v.x[n] = 0;
	n = nd_pick(0, 2);
	for (unsigned i = 0; i < n; ++i)
		v.z[i] = 'q' + i;
	v.z[n] = 0;
	v.p = nd_u8();
	v.b = nd_bool();
#endif
	memcpy(vsX, v.x, STRLEN);
	memcpy(vsZ, v.z, 3);
	vsY = v.y;
	vsP = v.p;
	vsB = v.b;
	vsD = d;
	vsE = e;
	vsGE = ge;
#ifdef FAIL
	vsFailAt = nd_pick(0, 30);
#endif
#ifdef ONE
	bool r = CFG_writeSection("out.conf", &vsSecC);
#else
	bool r = CFG_write("out.conf");
#endif
	CHECK(vsOpens == vsCloses, "the file is closed");
	CHECK(r == !vsFailed, "saving fails exactly if an output operation fails");
	if (!r) {
		REACH("failed");
		DONE();
	}
	/* the current settings are not touched */
	vsGX = vsGY = v.gx = v.gy = false;
	vsSameValues(&v);
	CHECK(vsE == e && vsGE == ge, "settings are not altered by saving");
	/* later start */
	CFG_unregisterAll();
	vsRegister();
	CFG_registerSection(&vsSecC);
	CFG_loadDefaults();
	CHECK(CFG_readFile("out.conf", true, true, false), "the saved file can be loaded");
#ifdef ONE
	vsDefaults(&v);
#endif
	vsGX = vsGY = v.gx = v.gy = false;
	vsSameValues(&v);
	union { double d; uint64_t u; } a, b;
	a.d = vsD;
	b.d = d;
	CHECK(a.u == b.u, "floating point option");
	CHECK(vsE == e && vsGE == ge, "option without default");
	CFG_unregisterAll();
	REACH("saved");
	return 0;
}
