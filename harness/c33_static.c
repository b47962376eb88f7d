/* C33: static position */
#include "nd.h"
#include "env.h"
#include "dump1090/position.c"

static double vsLat, vsLon, vsAlt;
static unsigned vsSet;
void GPS_setPositionWithFix(double a, double b, double c)
{
	union { double d; uint64_t u; } x, y;
	++vsSet;
#define SAME(p, q) (x.d = (p), y.d = (q), x.u == y.u)
	CHECK(SAME(a, vsLat) && SAME(b, vsLon) && SAME(c, vsAlt), "the configured position is announced");
}
static bool vsNumber(uint64_t u) { return (u >> 52 & 0x7ff) != 0x7ff; }
static bool vsWithin(double d, double max)
{
	union { double d; uint64_t u; } x, m;
	x.d = d;
	m.d = max;
	/* the order of the magnitudes is the order of their bit patterns */
	return (x.u & ~(1ull << 63)) <= m.u;
}
static bool vsValid;
static void vsReject(void)
{
	CHECK(!vsValid, "a valid position is accepted");
	REACH("rejected");
}
int main(void)
{
	const struct Component * c = &GPS_comp;
	const struct CFG_Section * s = c->config;
	bool given[3];
	env_onEmerg = vsReject;
	vsLat = nd_f64();
	vsLon = nd_f64();
	vsAlt = nd_f64();
	CHECK(strcmp(s->name, "GPS") == 0 && s->n_opt == 3, "section");
	for (int i = 0; i < 3; ++i) {
		const struct CFG_Option * o = &s->options[i];
		CHECK(o->type == CFG_VALUE_TYPE_DOUBLE && o->given, "options are numbers");
		given[i] = nd_bool();
		int w = strcmp(o->name, "Latitude") == 0 ? 0 : strcmp(o->name, "Longitude") == 0 ? 1 : strcmp(o->name, "Altitude") == 0 ? 2 : 3;
		CHECK(w < 3, "options");
		*(double *)o->var = w == 0 ? vsLat : w == 1 ? vsLon : vsAlt;
		*o->given = given[i];
	}
	union { double d; uint64_t u; } a;
	a.d = vsAlt;
	vsValid = symx_and(symx_and(symx_and(given[0], given[1]), given[2]),
		symx_and(symx_and(vsWithin(vsLat, 90), vsWithin(vsLon, 180)), vsNumber(a.u)));
	CHECK(s->check, "the configuration is checked");
	if (!s->check(s)) {
		vsReject();
		return 0;
	}
	CHECK(vsValid, "an invalid position is rejected");
	if (c->onConstruct)
		CHECK(c->onConstruct(NULL), "construction");
	if (c->main && !c->start)
		c->main();
	CHECK(vsSet == 1, "the position is announced once");
	REACH("announced");
	return 0;
}
