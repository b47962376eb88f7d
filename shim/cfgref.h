/* reference for configuration files, shared by C18 to C20: three sections,
 * two of them with the same name in different case */
#ifndef VERIF_CFGREF_H
#define VERIF_CFGREF_H
#include "nd.h"
#include "util/cfgfile.h"

#define STRLEN 4
static char vsX[STRLEN + 2], vsZ[3 + 2];
static uint32_t vsY;
static uint_fast16_t vsP;
static bool vsB, vsGX, vsGY;
static unsigned vsFixes, vsFixesB;
static void vsFix(const struct CFG_Section * s) { ++vsFixes; }
static void vsFixB(const struct CFG_Section * s) { ++vsFixesB; }
static const struct CFG_Section vsSecA = {
	.name = "A", .fix = vsFix, .n_opt = 2, .options = {
		{ .name = "x", .type = CFG_VALUE_TYPE_STRING, .var = vsX, .given = &vsGX, .maxlen = STRLEN, .def = { .string = "d" } },
		{ .name = "Y", .type = CFG_VALUE_TYPE_INT, .var = &vsY, .given = &vsGY, .def = { .integer = 7 } } } };
static const struct CFG_Section vsSecB = {
	.name = "b", .fix = vsFixB, .n_opt = 2, .options = {
		{ .name = "x", .type = CFG_VALUE_TYPE_STRING, .var = vsZ, .maxlen = 3 },
		{ .name = "p", .type = CFG_VALUE_TYPE_PORT, .var = &vsP, .def = { .port = 9 } } } };
static const struct CFG_Section vsSecA2 = {
	.name = "a", .n_opt = 1, .options = {
		{ .name = "b", .type = CFG_VALUE_TYPE_BOOL, .var = &vsB, .def = { .boolean = true } } } };

/** the value of every option */
struct vsValues {
	char x[STRLEN + 2], z[3 + 2];
	uint32_t y;
	uint_fast16_t p;
	bool b, gx, gy;
};
static void vsRegister(void)
{
	vsX[STRLEN] = vsX[STRLEN + 1] = vsZ[3] = vsZ[4] = '#';
	CFG_registerSection(&vsSecA);
	CFG_registerSection(&vsSecB);
	CFG_registerSection(&vsSecA2);
}
static bool vsSameStr(const char * a, const char * b, unsigned max)
{
	bool same = true, end = false;
	for (unsigned i = 0; i < max && !end; ++i) {
		same = symx_and(same, a[i] == b[i]);
		if (!b[i])
			end = true;
	}
	return symx_and(same, end);
}
static void vsSameValues(const struct vsValues * v)
{
	CHECK(vsSameStr(vsX, v->x, STRLEN), "string option");
	CHECK(vsSameStr(vsZ, v->z, 3), "string option of another section");
	CHECK(vsX[STRLEN] == '#' && vsX[STRLEN + 1] == '#' && vsZ[3] == '#' && vsZ[4] == '#', "strings stay within their storage");
	CHECK(vsY == v->y, "integer option");
	CHECK(vsP == v->p, "port option");
	CHECK(vsB == v->b, "boolean option");
	CHECK(vsGX == v->gx && vsGY == v->gy, "options that were given");
}
static void vsDefaults(struct vsValues * v)
{
	memset(v, 0, sizeof *v);
	v->x[0] = 'd';
	v->y = 7;
	v->p = 9;
	v->b = true;
}
static int vsLow(int c)
{
	if (symx_and(c >= 'A', c <= 'Z'))
		return c + 32;
	return c;
}
static bool vsIsWord(const char * w, const char * s, unsigned n)
{
	unsigned i;
	for (i = 0; w[i]; ++i)
		if (i == n || vsLow(s[i]) != w[i])
			return false;
	return i == n;
}
static bool vsSpace(char c) { return symx_or(c == ' ', symx_and(c >= 9, c <= 13)); }
/** integer: the longest prefix that is a number in C notation; anything after
 * it is ignored */
static bool vsInt(const char * s, unsigned n, uint32_t * r)
{
	unsigned i = 0, base = 10, digits = 0;
	uint64_t v = 0;
	if (n == 0 || n > 19)
		return false;
	if (s[0] == '-')
		return false;
	if (s[0] == '+')
		++i;
	if (i < n && s[i] == '0') {
		base = 8;
		if (i + 2 < n && vsLow(s[i + 1]) == 'x') {
			int c = vsLow(s[i + 2]);
			if (symx_or(symx_and(c >= '0', c <= '9'), symx_and(c >= 'a', c <= 'f'))) {
				base = 16;
				i += 2;
			}
		}
	}
	for (; i < n; ++i) {
		int c = vsLow(s[i]);
		unsigned d = symx_and(c >= '0', c <= '9') ? c - '0' : symx_and(c >= 'a', c <= 'f') ? c - 'a' + 10 : 99;
		if (d >= base)
			break;
		++digits;
		v = v * base + d;
		if (v > 0xffffffff)
			return false;
	}
	if (!digits)
		return false;
	*r = v;
	return true;
}
/** value text for option o (0 x, 1 y, 2 z, 3 p, 4 b) */
static bool vsAssign(struct vsValues * v, unsigned o, const char * s, unsigned n)
{
	uint32_t i;
	switch (o) {
	case 0: case 2: {
		unsigned max = o ? 3 : STRLEN;
		char * d = o ? v->z : v->x;
		if (n > max - 1)
			return false;
		memcpy(d, s, n);
		d[n] = 0;
		if (!o)
			v->gx = true;
		return true;
	}
	case 1:
		if (!vsInt(s, n, &i))
			return false;
		v->y = i;
		v->gy = true;
		return true;
	case 3:
		if (!vsInt(s, n, &i) || i > 65535)
			return false;
		v->p = i;
		return true;
	default:
		if (vsIsWord("true", s, n) || vsIsWord("1", s, n))
			v->b = true;
		else if (vsIsWord("false", s, n) || vsIsWord("0", s, n))
			v->b = false;
		else
			return false;
		return true;
	}
}
static void vsDefault(struct vsValues * v, unsigned o)
{
	switch (o) {
	case 0: v->x[0] = 'd'; v->x[1] = 0; v->gx = false; break;
	case 1: v->y = 7; v->gy = false; break;
	case 2: v->z[0] = 0; break;
	case 3: v->p = 9; break;
	default: v->b = true;
	}
}
/** one file, line by line */
static bool vsLoad(struct vsValues * v, const char * f, unsigned len, bool useDefault)
{
	enum { NONE, A, B } sect = NONE;
	for (unsigned at = 0; at < len;) {
		unsigned s = at, e = at;
		while (e < len && f[e] != '\n')
			++e;
		at = e + 1;
		while (s < e && f[s] == '\r')
			++s;
		if (s == e || f[s] == ';' || f[s] == '#')
			continue;
		if (f[s] == '[') {
			unsigned c = s + 1;
			while (c < e && f[c] != ']')
				++c;
			if (c == e)
				return false;
			if (c + 1 != e && (c + 2 != e || f[c + 1] != '\r'))
				return false;
			sect = vsIsWord("a", f + s + 1, c - s - 1) ? A : vsIsWord("b", f + s + 1, c - s - 1) ? B : NONE;
			continue;
		}
		unsigned q = s;
		while (q < e && f[q] != '=')
			++q;
		if (q == e || sect == NONE)
			continue;
		unsigned k = q;
		while (k > s + 1 && vsSpace(f[k - 1]))
			--k;
		unsigned b = q + 1;
		while (b < e && vsSpace(f[b]))
			++b;
		if (e > b && f[e - 1] == '\r')
			--e;
		if (k - s != 1)
			continue;
		int key = vsLow(f[s]);
		int o = sect == A ? key == 'x' ? 0 : key == 'y' ? 1 : key == 'b' ? 4 : -1 :
			key == 'x' ? 2 : key == 'p' ? 3 : -1;
		if (o < 0)
			continue;
		if (b == e)
			vsDefault(v, o);
		else if (!vsAssign(v, o, f + b, e - b)) {
			if (!useDefault)
				return false;
			vsDefault(v, o);
		}
	}
	return true;
}
#endif
