/* a configuration file that is written and then read again: output functions and
 * MMAP_* for code included before (the macros are set by savefile_macros.h) */
struct MMAP { int dummy; };
static char vsFile[512];
static unsigned vsSize, vsOpens, vsCloses;
static char * vsMap;
static struct MMAP vsM;
static bool vsFailed;
struct MMAP * MMAP_open(const char * prefix, const char * file)
{
	CHECK(vsOpens == vsCloses, "the file is closed after saving");
	vsMap = malloc(vsSize);
	memcpy(vsMap, vsFile, vsSize);
	return &vsM;
}
void MMAP_close(struct MMAP * m) { free(vsMap); }
const void * MMAP_getPtr(const struct MMAP * m) { return vsMap; }
size_t MMAP_getSize(const struct MMAP * m) { return vsSize; }

static FILE * const vsF = (FILE *)vsFile;
static unsigned vsOps, vsFailAt = ~0u;
static bool vsFails(void)
{
	if (vsOps++ == vsFailAt) {
		vsFailed = true;
		errno = ENOSPC;
		return true;
	}
	return false;
}
static void vsUse(FILE * f) { CHECK(f == vsF && vsOpens == vsCloses + 1, "the file is open when it is written"); }
FILE * vs_fopen(const char * n, const char * m)
{
#ifdef SAVE_OTHER
	if (strcmp(n, "out.conf") != 0)
		return SAVE_OTHER(n);
#endif
	CHECK(strcmp(n, "out.conf") == 0 && m[0] == 'w', "the file is opened for writing");
	if (vsFails())
		return NULL;
	++vsOpens;
	return vsF;
}
int vs_fclose(FILE * f)
{
	vsUse(f);
	++vsCloses;
	return vsFails() ? EOF : 0;
}
static int vsOut(const char * s, size_t n)
{
	if (vsFails())
		return -1;
	for (size_t i = 0; i < n; ++i) {
		CHECK(vsSize < sizeof vsFile, "env: file size");
		vsFile[vsSize++] = s[i];
	}
	return n;
}
int vs_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	char b[400];
	vsUse(f);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	return vsOut(b, n);
}
int vs_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vs_vfprintf(f, fmt, ap);
	va_end(ap);
	return n;
}
int vs_fputs(const char * s, FILE * f) { vsUse(f); return vsOut(s, strlen(s)) < 0 ? EOF : 1; }
int vs_fputc(int c, FILE * f) { char x = c; vsUse(f); return vsOut(&x, 1) < 0 ? EOF : (unsigned char)c; }
size_t vs_fwrite(const void * p, size_t s, size_t n, FILE * f) { vsUse(f); return vsOut(p, s * n) < 0 ? 0 : n; }
int vs_ferror(FILE * f) { vsUse(f); return vsFailed; }
int vs_fflush(FILE * f) { vsUse(f); return vsFails() ? EOF : 0; }

