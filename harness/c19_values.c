/* C19: values of options.
 * DIGITS  decimal numbers of LMIN..LMAX digits, HEX / OCT  other notations,
 * BOOL  boolean words, STR  strings around the size of the option, DBL  floating point numbers,
 * SET  values set by the program */
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include "util/cfgfile.c"
#include "cfgref.h"

struct MMAP { int dummy; };
static char vsFile[128];
static unsigned vsSize;
static char * vsMap;
static struct MMAP vsM;
struct MMAP * MMAP_open(const char * prefix, const char * file)
{
	vsMap = malloc(vsSize);
	memcpy(vsMap, vsFile, vsSize);
	return &vsM;
}
void MMAP_close(struct MMAP * m) { free(vsMap); }
const void * MMAP_getPtr(const struct MMAP * m) { return vsMap; }
size_t MMAP_getSize(const struct MMAP * m) { return vsSize; }

static void put(const char * s)
{
	while (*s)
		vsFile[vsSize++] = *s++;
}
static double vsD;
static char vsLong[9 + 1];
static bool vsGL;
static bool vsRead(bool useDefault);
static const struct CFG_Section vsSecC = {
	.name = "c", .n_opt = 2, .options = {
		{ .name = "d", .type = CFG_VALUE_TYPE_DOUBLE, .var = &vsD, .def = { .dbl = 2.5 } },
		{ .name = "l", .type = CFG_VALUE_TYPE_STRING, .var = vsLong, .given = &vsGL, .maxlen = 9, .def = { .string =
#ifdef LONGDEF
			"a default which is too long"
#else
			"12345678"
#endif
			} } } };

#ifdef GIVEN
/* whether an option was given */
static struct { bool b, gb, gi, gp, gs, gd; uint32_t i; uint_fast16_t p; char s[6]; double d; } vsE;
static struct CFG_Section * vsSecE;
static const struct CFG_Option vsOptE[] = {
	{ .name = "b", .type = CFG_VALUE_TYPE_BOOL, .var = &vsE.b, .given = &vsE.gb, .def = { .boolean = true } },
	{ .name = "i", .type = CFG_VALUE_TYPE_INT, .var = &vsE.i, .given = &vsE.gi, .def = { .integer = 70000 } },
	{ .name = "p", .type = CFG_VALUE_TYPE_PORT, .var = &vsE.p, .given = &vsE.gp, .def = { .port = 30005 } },
	{ .name = "s", .type = CFG_VALUE_TYPE_STRING, .var = vsE.s, .given = &vsE.gs, .maxlen = 6, .def = { .string = "abc" } },
	{ .name = "d", .type = CFG_VALUE_TYPE_DOUBLE, .var = &vsE.d, .given = &vsE.gd, .def = { .dbl = 0.5 } } };
static void vsGiven(void)
{
	static const char * const text[] = { "", "0", "1", "x", "xxxxxx" };
	bool empty = nd_bool();
	vsSecE = malloc(sizeof *vsSecE + sizeof vsOptE);
	memset(vsSecE, 0, sizeof *vsSecE);
	memcpy(vsSecE->options, vsOptE, sizeof vsOptE);
	vsSecE->name = "E";
	vsSecE->n_opt = 5;
	for (int i = 0; i < 5; ++i)
		vsSecE->options[i].defaultEmpty = empty;
	CFG_registerSection(vsSecE);
	vsE.gb = vsE.gi = vsE.gp = vsE.gs = vsE.gd = nd_bool();
	CFG_loadDefaults();
	CHECK(!vsE.gb && !vsE.gi && !vsE.gp && !vsE.gs && !vsE.gd, "an option is not given by its default");
	bool useDefault = nd_bool(), given = false, ok = true;
	unsigned which = nd_pick(0, 4), last = 0;
	put("[e]\n");
	for (unsigned l = 0; l < 3; ++l) {
		unsigned k = nd_pick(0, 4);
		vsFile[vsSize++] = "bipsd"[which];
		put("=");
		put(text[k]);
		put("\n");
		if (!ok)
			continue;
		bool fits = which == 3 ? k != 4 : k != 3 && k != 4;
		if (k && !fits && !useDefault)
			ok = false;
		else {
			given = k && fits;
			last = given ? k : 0;
		}
	}
	CHECK(vsRead(useDefault) == ok, "result of loading");
	CHECK(vsE.gb == (given && which == 0) && vsE.gi == (given && which == 1) && vsE.gp == (given && which == 2)
		&& vsE.gs == (given && which == 3) && vsE.gd == (given && which == 4), "an option is given if its last value was");
	CHECK(vsE.b == (which == 0 && last ? last == 2 : true), "boolean value");
	CHECK(vsE.i == (which == 1 && last ? last - 1 : 70000), "number");
	CHECK(vsE.p == (which == 2 && last ? last - 1 : 30005), "port");
	CHECK(strcmp(vsE.s, which == 3 && last ? text[last] : "abc") == 0, "string");
	CHECK(vsE.d == (which == 4 && last ? last - 1 : 0.5), "floating point number");
	if (given)
		REACH("accepted");
	else
		REACH("rejected");
	DONE();
}
#endif
static bool vsRead(bool useDefault)
{
	return CFG_readFile("f", true, true, useDefault);
}

int main(void)
{
	vsRegister();
	CFG_registerSection(&vsSecC);
	vsLong[9] = '#';
	CFG_loadDefaults();
#ifdef GIVEN
	vsGiven();
#endif
	struct vsValues v;
	vsDefaults(&v);
	vsSameValues(&v);
	CHECK(vsD == 2.5, "default of a number");
	CHECK(vsLong[9] == '#', "a default stays within its storage");
#ifdef LONGDEF
	CHECK(memchr(vsLong, 0, 9) != NULL, "a default is terminated");
	REACH("end");
	return 0;
#endif
	CHECK(strcmp(vsLong, "12345678") == 0 && !vsGL, "default of a string");
	bool useDefault = nd_bool();
#if defined(DIGITS) || defined(HEX) || defined(OCT)
	/* a number: exactly its value, or not at all */
	bool port = nd_bool();
	put(port ? "[b]\np=" : "[A]\ny=");
	unsigned base = 10;
#ifdef HEX
	put("0x");
	base = 16;
#elif defined(OCT)
	put("0");
	base = 8;
#endif
	unsigned n = nd_pick(LMIN, LMAX);
	uint64_t val = 0;
	bool big = false;
#ifdef PREFIX
	put(PREFIX);
	for (const char * c = PREFIX; *c; ++c)
		val = val * 10 + *c - '0';
	unsigned text = n + sizeof PREFIX - 1;
#else
	unsigned text = n;
#endif
	for (unsigned i = 0; i < n; ++i) {
		uint8_t d = nd_u8();
		ASSUME(d < base);
#if !defined(OCT) && !defined(PREFIX)
		if (i == 0 && base == 10)
			ASSUME(d != 0);
#endif
#ifdef HEX
		if (i == 0 || i == n / 2 || i == n - 1)
			vsFile[vsSize++] = d + (d < 10 ? '0' : i ? 'a' - 10 : 'A' - 10);
		else {
			/* a digit, as the others */
			ASSUME(d < 10);
			vsFile[vsSize++] = d + '0';
		}
#else
		vsFile[vsSize++] = d + '0';
#endif
		val = val * base + d;
		big = symx_or(big, val > 0xffffffff);
	}
	/* what follows the number is ignored */
#ifdef HEX
	text += 2;
#elif defined(OCT)
	text += 1;
#endif
	if (text < 17 && nd_bool()) {
		put(" z");
		text += 2;
	}
	if (nd_bool())
		put("\n");
	bool r = vsRead(useDefault);
	bool ok = !big && text <= 19 && (!port || val <= 65535);
	if (ok) {
		if (port)
			v.p = val;
		else {
			v.y = val;
			v.gy = true;
		}
		REACH("accepted");
	} else
		REACH("rejected");
	/* the default is the value before here */
	CHECK(r == (ok || useDefault), "result of loading");
#elif defined(STR)
	put("[c]\nl=");
	unsigned n = nd_pick(1, 11);
	char s[11];
	for (unsigned i = 0; i < n; ++i) {
		s[i] = nd_u8();
		/* the text as such; line ends and blanks are C18 */
		ASSUME(s[i] != '\n');
		ASSUME(symx_or(i != 0 && i != n - 1, !symx_or(s[i] == ' ', symx_and(s[i] >= 9, s[i] <= 13))));
		vsFile[vsSize++] = s[i];
	}
	put("\n");
	bool r = vsRead(useDefault);
	bool ok = n <= 8;
	CHECK(r == (ok || useDefault), "result of loading");
	CHECK(vsLong[9] == '#', "a string stays within its storage");
	CHECK(vsGL == ok, "given");
	if (ok) {
		bool same = true;
		for (unsigned i = 0; i < n; ++i)
			same = symx_and(same, vsLong[i] == s[i]);
		CHECK(same && vsLong[n] == 0, "the string is stored and terminated");
		REACH("accepted");
	} else {
		CHECK(strcmp(vsLong, "12345678") == 0, "a string that does not fit is rejected");
		REACH("rejected");
	}
#elif defined(BOOL)
	put("[A]\nb=");
	unsigned n = nd_pick(1, BOOL);
	uint8_t s[BOOL];
	for (unsigned i = 0; i < n; ++i) {
		s[i] = nd_u8();
		ASSUME(s[i] != '\n');
		ASSUME(symx_or(i != 0 && i != n - 1, !symx_or(s[i] == ' ', symx_and(s[i] >= 9, s[i] <= 13))));
		vsFile[vsSize++] = s[i];
	}
	put("\n");
	static const char * const word[] = { "0", "1", "false", "true" };
	bool ok = false, val = false;
	for (unsigned k = 0; k < 4; ++k) {
		bool same = strlen(word[k]) == n;
		for (unsigned i = 0; same && i < n; ++i) {
			/* neglecting the case */
			bool ch = symx_or(s[i] == word[k][i], symx_and(word[k][i] >= 'a', s[i] == word[k][i] - 32));
			if (!ch)
				same = false;
		}
		if (same) {
			ok = true;
			val = k & 1;
		}
	}
	bool r = vsRead(useDefault);
	CHECK(r == (ok || useDefault), "result of loading");
	if (ok) {
		v.b = val;
		REACH("accepted");
	} else
		REACH("rejected");
#elif defined(DBL)
	static const struct { const char * s; bool ok; double d; } t[] = {
		{ "1.5", true, 1.5 }, { "-48.25", true, -48.25 }, { "1e3", true, 1000 }, { ".5", true, 0.5 },
		{ "7", true, 7 }, { "0x10", true, 16 }, { "-0", true, -0.0 }, { "1e400", true, 1e308 * 10 },
		{ "0.1", true, 0.1 }, { "1.5 m", true, 1.5 }, { "x", false, 0 }, { "-", false, 0 }, { "e5", false, 0 },
		{ "0.00000000000000000000000000000000000000000000000000000000001", false, 0 },
		{ "0.5000000000000000000000000000000000000000000000000000000000", false, 0 },
		{ "0.500000000000000000000000000000000000000000000000000000000", true, 0.5 },
		{ "8.8817841970012523e-16", true, 8.8817841970012523e-16 } };
	unsigned k = nd_pick(0, sizeof t / sizeof *t - 1);
	put("[c]\nd = ");
	put(t[k].s);
	put("\n");
	bool r = vsRead(useDefault);
	CHECK(r == (t[k].ok || useDefault), "result of loading");
	CHECK(vsD == (t[k].ok ? t[k].d : 2.5), "the number is stored");
	if (t[k].ok)
		REACH("accepted");
	else
		REACH("rejected");
#elif defined(SET)
	(void)useDefault;
	union { double d; uint64_t u; } d, e;
	d.u = nd_u64();
	switch (nd_pick(0, 4)) {
	case 0:
		v.b = nd_bool();
		CFG_setBoolean("A", "B", v.b);
		break;
	case 1:
		v.y = nd_u32();
		CFG_setInteger("a", "y", v.y);
		break;
	case 2:
		v.p = nd_u16();
		CFG_setPort("B", "P", v.p);
		break;
	case 3:
		CFG_setDouble("C", "D", d.d);
		e.d = vsD;
		CHECK(e.u == d.u, "the number is stored");
		break;
	default: {
		unsigned n = nd_pick(0, 11);
		char s[12];
		for (unsigned i = 0; i < n; ++i) {
			s[i] = nd_u8();
			ASSUME(s[i] != 0);
		}
		s[n] = 0;
		CFG_setString("c", "L", s);
		CHECK(vsLong[9] == '#', "a string stays within its storage");
		bool end = false, same = true;
		for (unsigned i = 0; i < 9; ++i)
			end = symx_or(end, vsLong[i] == 0);
		CHECK(end, "a string is terminated");
		if (n <= 8) {
			for (unsigned i = 0; i <= n; ++i)
				same = symx_and(same, vsLong[i] == s[i]);
			CHECK(same, "a string that fits is stored");
			REACH("stored");
		}
	}
	}
#endif
	vsSameValues(&v);
	CFG_unregisterAll();
	REACH("end");
	return 0;
}
