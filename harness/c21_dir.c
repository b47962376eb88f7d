/* C21: loading all files of a configuration directory.
 * FREE  one entry with any name, ORDER  numbered files, BIG  large numbers, LONG  lengths of path
 * and names, all with failing files */
#include <limits.h>
#ifdef LONG
#undef PATH_MAX
#define PATH_MAX 16
#endif
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <stdio.h>
#include <dirent.h>
typedef int vsFilter(const struct dirent *);
typedef int vsCompare(const struct dirent **, const struct dirent **);
static int vs_scandir(const char * path, struct dirent *** list, vsFilter * filter, vsCompare * cmp);
#define scandir(p, l, f, c) vs_scandir(p, l, (vsFilter *)(f), (vsCompare *)(c))
#include "heap.h"
#include "heap_end.h"
#define malloc vs_malloc
#define free vs_free
#include "util/cfgfile.c"
#undef malloc
#undef free

#define NMAX 32
#define KMAX 4
static char vsPath[40];
static char vsName[KMAX][NMAX];
static uint8_t vsType[KMAX];
static unsigned vsK;
static bool vsScanFailed, vsOpenFailed[KMAX], vsBad[KMAX], vsDead[KMAX];
static unsigned vsDeadN;
/** files in the order of loading */
static unsigned vsLoaded[KMAX + 1], vsLoads;

static bool vsMatch(unsigned i)
{
	const char * n = vsName[i];
	unsigned l = strlen(n);
	if (vsType[i] != DT_REG && vsType[i] != DT_LNK)
		return false;
	if (!symx_and(n[0] >= '0', n[0] <= '9'))
		return false;
	static const char suf[] = ".conf";
	if (l < 5)
		return false;
	bool m = true;
	for (unsigned j = 0; j < 5; ++j)
		m = symx_and(m, n[l - 5 + j] == suf[j]);
	return m;
}
static uint64_t vsNumber(unsigned i)
{
	uint64_t v = 0;
	for (unsigned j = 0; vsName[i][j] >= '0' && vsName[i][j] <= '9'; ++j)
		v = v * 10 + vsName[i][j] - '0';
	return v;
}

static int vs_scandir(const char * path, struct dirent *** list, vsFilter * filter, vsCompare * cmp)
{
	CHECK(strcmp(path, vsPath) == 0, "the directory is read");
#ifndef LONG
	if (nd_bool()) {
		vsScanFailed = true;
		errno = ENOENT;
		return -1;
	}
#endif
	struct dirent ** l = vs_malloc(KMAX * sizeof *l);
	int n = 0;
	for (unsigned i = 0; i < vsK; ++i) {
		/* an entry is only as large as its name requires */
		struct dirent * d = vs_malloc(offsetof(struct dirent, d_name) + strlen(vsName[i]) + 1);
		d->d_ino = i;
		d->d_type = vsType[i];
		strcpy(d->d_name, vsName[i]);
		if (!filter || filter(d)) {
			int at = n++;
			for (; at > 0 && cmp && cmp((const struct dirent **)&l[at - 1], (const struct dirent **)&d) > 0; --at)
				l[at] = l[at - 1];
			l[at] = d;
		} else
			vs_free(d);
	}
	*list = l;
	return n;
}

struct MMAP { int dummy; };
static struct MMAP vsM;
static const char * vsText;
static bool vsOpen;
struct MMAP * MMAP_open(const char * prefix, const char * file)
{
	unsigned p = strlen(vsPath), i;
	CHECK(!vsOpen, "one file at a time");
	CHECK(strlen(file) > p && strncmp(file, vsPath, p) == 0 && file[p] == '/', "files of the directory are loaded");
	for (i = 0; i < vsK; ++i)
		if (strcmp(file + p + 1, vsName[i]) == 0)
			break;
	CHECK(i < vsK, "files are loaded under their own names");
	CHECK(vsLoads < KMAX, "each file is loaded once");
	vsLoaded[vsLoads++] = i;
	if (vsOpenFailed[i])
		return NULL;
	vsOpen = true;
	static char text[16];
	strcpy(text, "[A]\nx=0\n");
	if (vsBad[i])
		strcpy(text + 4, "[A\n");
	else
		text[6] = '1' + i;
	vsText = text;
	return &vsM;
}
void MMAP_close(struct MMAP * m)
{
	CHECK(vsOpen, "files are closed once");
	vsOpen = false;
}
const void * MMAP_getPtr(const struct MMAP * m) { return vsText; }
size_t MMAP_getSize(const struct MMAP * m) { return strlen(vsText); }

static uint32_t vsX;
static const struct CFG_Section vsSec = {
	.name = "A", .n_opt = 1, .options = { { .name = "x", .type = CFG_VALUE_TYPE_INT, .var = &vsX } } };

static void vsSetup(void)
{
	strcpy(vsPath, "/d");
	unsigned i;
#ifdef FREE
	vsK = 1;
	unsigned n = nd_pick(1, FREE);
	for (i = 0; i < n; ++i) {
		vsName[0][i] = nd_u8();
		ASSUME(symx_and(vsName[0][i] != 0, vsName[0][i] != '/'));
	}
	vsType[0] = nd_u8();
#endif
#ifdef ORDER
	vsK = ORDER;
	for (i = 0; i < vsK; ++i) {
		unsigned n = nd_pick(1, 2);
		for (unsigned j = 0; j < n; ++j) {
			vsName[i][j] = nd_u8();
			ASSUME(symx_and(vsName[i][j] >= '0', vsName[i][j] <= '9'));
		}
		vsName[i][n] = 'a' + i;
		strcpy(vsName[i] + n + 1, i == 1 ? nd_pick(0, 1) ? ".conf" : ".bak" : ".conf");
		vsType[i] = i == 2 ? nd_u8() : DT_REG;
		/* one way of failing */
		vsOpenFailed[i] = i == 0 && nd_bool();
		vsBad[i] = i == 1 && nd_bool();
	}
#endif
#ifdef BIG
	vsK = BIG;
	for (i = 0; i < vsK; ++i) {
		static const char * const start[] = { "", "214748364", "429496729",
			"1844674407370955161", "00000000000000000000" };
		unsigned k = nd_pick(0, 4);
		strcpy(vsName[i], start[k]);
		unsigned n = strlen(vsName[i]);
		vsName[i][n] = nd_u8();
		/* the largest number is 2^64 - 1 */
		ASSUME(symx_and(vsName[i][n] >= '0', vsName[i][n] <= (k == 3 ? '5' : '9')));
		strcpy(vsName[i] + n + 1, ".conf");
		vsType[i] = DT_REG;
		for (unsigned j = 0; j < i; ++j)
			ASSUME(strcmp(vsName[i], vsName[j]) != 0);
	}
#endif
#ifdef LONG
	unsigned p = nd_pick(1, PATH_MAX + 1);
	for (i = 0; i < p; ++i)
		vsPath[i] = i ? 'd' : '/';
	vsPath[p] = 0;
	vsK = 2;
	for (i = 0; i < vsK; ++i) {
		unsigned n = nd_pick(6, 9);
		vsName[i][0] = '1' + i;
		for (unsigned j = 1; j < n - 5; ++j)
			vsName[i][j] = 'n';
		strcpy(vsName[i] + n - 5, ".conf");
		vsType[i] = DT_REG;
		/* does not fit into a path */
		vsDead[i] = p + 1 + n >= PATH_MAX;
		vsDeadN += vsDead[i];
	}
	vsBad[1] = nd_bool();
#endif
}

int main(void)
{
	vsSetup();
	CFG_registerSection(&vsSec);
	CFG_loadDefaults();
	unsigned live = heapLive;
	bool stop = nd_bool();
	bool r = CFG_readDirectory(vsPath, true, true, true, stop);
	CHECK(heapLive == live, "everything allocated is released");
	CHECK(!vsOpen, "files are closed");
	if (vsScanFailed) {
		CHECK(!r && vsLoads == 0, "unreadable directory is reported");
		REACH("unreadable");
		DONE();
	}
	/* reference */
	bool all = true, stopped = false;
	unsigned loads = 0, want = 0;
	uint32_t x = 0;
	bool used[KMAX] = { false }, matches[KMAX];
	for (unsigned i = 0; i < vsK; ++i) {
		matches[i] = vsMatch(i);
		want += matches[i];
	}
	for (unsigned k = 0; k < want && !stopped; ++k) {
		/* next file with the smallest number; the implementation may choose
		 * among equal ones */
		unsigned i;
		uint64_t min = ~(uint64_t)0;
		for (i = 0; i < vsK; ++i)
			if (matches[i] && !used[i] && vsNumber(i) <= min)
				min = vsNumber(i);
		unsigned at = KMAX;
		if (loads < vsLoads && !used[vsLoaded[loads]] && matches[vsLoaded[loads]] && vsNumber(vsLoaded[loads]) == min)
			at = vsLoaded[loads];
		else {
			/* not loaded: only if its path would be too long */
			for (i = 0; i < vsK; ++i)
				if (matches[i] && !used[i] && vsNumber(i) == min && vsDead[i])
					at = i;
		}
		CHECK(at < KMAX, "files are loaded in the order of their numbers");
		used[at] = true;
		if (vsDead[at]) {
			CHECK(loads >= vsLoads || vsLoaded[loads] != at, "a file whose path is too long is not loaded");
			all = false;
			stopped = stop;
			continue;
		}
		++loads;
		if (vsOpenFailed[at] || vsBad[at]) {
			all = false;
			stopped = stop;
		} else
			x = at + 1;
	}
	/* a directory path which is itself too long: nothing can be loaded */
	CHECK(loads == vsLoads, "no other file is loaded");
	CHECK(vsX == x, "later files overrule earlier ones");
	if (want == 0 && strlen(vsPath) >= PATH_MAX)
		DONE();
	CHECK(r == all, "success exactly if all files were loaded");
	if (all)
		REACH("ok");
	else
		REACH("failed");
	if (want < vsK)
		REACH("ignored");
	CFG_unregisterAll();
	CHECK(heapLive == live - 1, "sections are released");
	return 0;
}
