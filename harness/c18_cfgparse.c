/* C18: loading a configuration file.  PRE  concrete beginning, N  free bytes
 * after it, SUF  concrete end.  IO  failing system calls */
#define open vs_open
#define fstat vs_fstat
#define mmap vs_mmap
#define munmap vs_munmap
#define close vs_close
#include "nd.h"
#include "env.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <stdarg.h>
#include "util/port/mmap-posix.c"
#undef open
#undef close
#include "util/cfgfile.c"
#include "cfgref.h"

#define FD 9
static char vsFile[256];
static unsigned vsSize, vsOpens, vsCloses, vsMaps, vsUnmaps;
static bool vsIoFail;
static char * vsMap;
static bool vsFails(void)
{
#ifdef IO
	if (nd_bool()) {
		vsIoFail = true;
		return true;
	}
#endif
	return false;
}
int vs_open(const char * f, int flags, ...)
{
	CHECK(strcmp(f, "the.conf") == 0, "the file is opened");
	CHECK((flags & O_ACCMODE) == O_RDONLY, "for reading");
	if (vsFails())
		return -1;
	++vsOpens;
	return FD;
}
int vs_fstat(int fd, struct stat * st)
{
	CHECK(fd == FD && vsOpens == vsCloses + 1, "file is open");
	if (vsFails())
		return -1;
	memset(st, 0, sizeof *st);
	st->st_size = vsSize;
	return 0;
}
int vs_close(int fd)
{
	CHECK(fd == FD && vsOpens == vsCloses + 1, "the file is closed once");
	++vsCloses;
	return 0;
}
void * vs_mmap(void * a, size_t n, int prot, int flags, int fd, off_t o)
{
	CHECK(fd == FD && vsOpens == vsCloses + 1, "file is open");
	CHECK(n == vsSize && o == 0 && (prot & PROT_READ), "the whole file is mapped");
	if (!n || vsFails()) {
		vsIoFail = true;
		return MAP_FAILED;
	}
	/* exactly as large as the file: access beyond it is noticed */
	vsMap = malloc(n);
	memcpy(vsMap, vsFile, n);
	++vsMaps;
	return vsMap;
}
int vs_munmap(void * p, size_t n)
{
	CHECK(p == vsMap && n == vsSize, "the mapping is removed");
	++vsUnmaps;
	free(vsMap);
	return 0;
}
static void put(const char * s)
{
	while (*s)
		vsFile[vsSize++] = *s++;
}
int main(void)
{
	vsRegister();
	CFG_loadDefaults();
	struct vsValues v;
	vsDefaults(&v);
	vsSameValues(&v);
	/* settings from before that the file may or may not change */
	vsY = v.y = 1234;
	vsGY = v.gy = true;
	strcpy(vsX, "abc");
	strcpy(v.x, "abc");
#ifdef FIRST
	/* another file before */
	put(FIRST);
	bool e1 = vsLoad(&v, vsFile, vsSize, false);
	CHECK(CFG_readFile("the.conf", true, true, false) == e1, "the file before is loaded or fails");
	vsSameValues(&v);
	CHECK(vsFixes == 1 && vsFixesB == 1, "sections are fixed once after loading");
	vsFixes = vsFixesB = 0;
	vsSize = 0;
#endif
	put(PRE);
	unsigned n = nd_pick(0, N);
	for (unsigned i = 0; i < n; ++i) {
		char c = nd_u8();
#ifdef PLAIN
		/* line structure is left to the other harnesses */
		ASSUME(symx_and(c != '\n', symx_and(c != '=', c != '\r')));
#endif
		vsFile[vsSize++] = c;
	}
#ifdef SUF
	put(SUF);
#endif
	bool useDefault = nd_bool();
	bool r = CFG_readFile("the.conf", nd_bool(), nd_bool(), useDefault);
	CHECK(vsOpens == vsCloses && vsMaps == vsUnmaps, "nothing stays open or mapped");
	bool e = !vsIoFail && vsLoad(&v, vsFile, vsSize, useDefault);
	CHECK(r == e, "a file is loaded or failure is reported");
	vsSameValues(&v);
	/* values may have been assigned before a failure */
	CHECK(vsIoFail || (vsFixes == 1 && vsFixesB == 1), "sections are fixed once after loading");
	if (r)
		REACH("loaded");
	else
		REACH("failed");
	CFG_unregisterAll();
	return 0;
}
