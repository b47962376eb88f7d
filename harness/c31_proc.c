/* C31: running external programs */
#define ENV_NO_LOG
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdarg.h>
static pid_t vs_fork(void);
static pid_t vs_waitpid(pid_t, int *, int);
static int vs_execve(const char *, char * const *, char * const *);
static void vs_exit(int) __attribute__((noreturn));
static int vs_daemon(int, int);
static int vs_close(int);
static int vs_openat(int, const char *, int, ...);
static int vs_open(const char *, int, ...);
static mode_t vs_umask(mode_t);
static pid_t vs_getpid(void);
static FILE * vs_fopen(const char *, const char *);
static int vs_fprintf(FILE *, const char *, ...);
static int vs_fclose(FILE *);
#define fork vs_fork
#define waitpid vs_waitpid
#define execve vs_execve
#define _Exit vs_exit
#define daemon vs_daemon
#define close vs_close
#define openat vs_openat
#define open vs_open
#define umask vs_umask
#define getpid vs_getpid
#define fopen vs_fopen
#define fprintf vs_fprintf
#define fclose vs_fclose
#include "util/proc.c"

#define NARG 3
static char vsText[NARG][1100];
static char * vsArgv[NARG + 1];
static unsigned vsN, vsL[NARG];
static bool vsChild, vsDetached, vsStdinClosed, vsStdinNull, vsExec, vsShown, vsForked, vsForkFailed, vsReaped, vsWaitFailed, vsDaemonFailed;
static bool vsSuccess;
enum { RETURN, DETACH, FINAL, RAW, FORK } static vsForm;
static unsigned vsEintr, vsUmasked;
static FILE * vsFile;
#define PID 4711

static pid_t vs_fork(void)
{
	CHECK(!vsForked, "forks once");
	vsForked = true;
	switch (nd_pick(0, 2)) {
	case 0:
		vsForkFailed = true;
		errno = EAGAIN;
		return -1;
	case 1:
		vsChild = true;
		return 0;
	}
	return PID;
}
static pid_t vs_waitpid(pid_t pid, int * status, int opt)
{
	CHECK(!vsChild && vsForked && !vsForkFailed && pid == PID && !(opt & WNOHANG), "the parent waits for its child");
	CHECK(!vsReaped, "a child is waited for once");
	if (vsEintr < 2 && nd_bool()) {
		++vsEintr;
		errno = EINTR;
		return -1;
	}
	vsReaped = true;
	if (nd_bool()) {
		vsWaitFailed = true;
		errno = ECHILD;
		return -1;
	}
	int st;
	if (nd_bool()) {
		uint8_t code = nd_u8();
		st = code << 8;
		vsSuccess = code == 0;
	} else {
		st = nd_range(1, 126);
		if (nd_bool())
			st |= 0x80;
	}
	if (status)
		*status = st;
	return PID;
}
static int vs_execve(const char * path, char * const * argv, char * const * envp)
{
	CHECK(!vsExec, "the program is executed once");
	vsExec = true;
	CHECK(vsForm == RAW || vsForm == FINAL || vsChild, "only the child is replaced");
	CHECK(vsForm != DETACH || (vsDetached && !vsDaemonFailed), "the detached child leaves the session");
	CHECK(vsForm == RAW || (vsStdinClosed && vsStdinNull && vsUmasked), "the program reads nothing");
	CHECK(path == vsArgv[0] || !strcmp(path, vsArgv[0]), "the program is executed");
	for (unsigned i = 0; i < vsN; ++i)
		CHECK(argv[i] && (argv[i] == vsArgv[i] || !strcmp(argv[i], vsArgv[i])), "arguments");
	CHECK(!argv[vsN], "number of arguments");
	CHECK(envp && !envp[0], "empty environment");
	CHECK(vsShown, "the command is logged");
	CHECK(!vsFile, "no file is left open");
	REACH("executed");
	if (nd_bool())
		DONE();
	errno = ENOENT;
	return -1;
}
static void vs_exit(int code)
{
	CHECK(vsForm == FINAL || vsChild, "only the child ends");
	CHECK(vsExec || vsDaemonFailed, "the child ends if the program cannot be executed");
	CHECK(code != 0, "failure is reported");
	REACH("child ended");
	DONE();
	for (;;) ;
}
static int vs_daemon(int nochdir, int noclose)
{
	CHECK(vsForm == DETACH && vsChild && !vsDetached, "the child is detached once");
	CHECK(!nochdir && noclose, "working directory changes and output stays");
	vsDetached = true;
	if (nd_bool()) {
		vsDaemonFailed = true;
		return -1;
	}
	return 0;
}
static int vs_close(int fd)
{
	CHECK(fd == 0 && (vsForm == FINAL || vsChild) && !vsStdinClosed, "standard input of the child is closed");
	vsStdinClosed = true;
	return 0;
}
static int vs_open(const char * p, int flags, ...)
{
	CHECK(vsStdinClosed && !vsStdinNull && !strcmp(p, "/dev/null") && (flags & O_ACCMODE) == O_RDONLY, "standard input is empty");
	vsStdinNull = true;
	return 0;
}
static int vs_openat(int dir, const char * p, int flags, ...) { return vs_open(p, flags); }
static mode_t vs_umask(mode_t m)
{
	CHECK((vsForm == FINAL || vsChild) && (m & 0777) == 022, "umask of the child");
	vsUmasked = 1;
	return 077;
}
static pid_t vs_getpid(void) { return 99; }
static char vsFileMem[8];
static FILE * vs_fopen(const char * n, const char * m)
{
	CHECK(vsDetached && !vsFile, "only the detached child leaves its group");
	if (nd_bool())
		return NULL;
	return vsFile = (FILE *)vsFileMem;
}
static int vs_fprintf(FILE * f, const char * s, ...) { CHECK(f && f == vsFile, "file"); return 3; }
static int vs_fclose(FILE * f) { CHECK(f && f == vsFile, "file is closed once"); vsFile = NULL; return 0; }

/* log */
void LOG_logf(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	CHECK(level != LOG_LEVEL_EMERG, "the program carries on");
	if (strcmp(fmt, "Executing%s"))
		return;
	CHECK(!vsShown, "the command is logged once");
	vsShown = true;
	va_list ap;
	va_start(ap, fmt);
	const char * s = va_arg(ap, const char *);
	va_end(ap);
	unsigned need = 0;
	for (unsigned i = 0; i < vsN; ++i)
		need += 1 + vsL[i];
	/* reading it up to its end stays inside the buffer */
	unsigned len = 0;
	while (s[len])
		++len;
	if (len >= 900 && len < need) {
		CHECK(!strcmp(s + len - 3, "..."), "a shortened description ends with dots");
		len -= 3;
		REACH("shortened");
	} else
		CHECK(len == need, "the description is complete");
	/* the content: compared once per argument */
	unsigned p = 0;
	for (unsigned i = 0; i < vsN && p < len; ++i) {
		CHECK(s[p] == ' ', "arguments are separated");
		++p;
		unsigned l = len - p < vsL[i] ? len - p : vsL[i];
		CHECK(!memcmp(s + p, vsText[i], l), "arguments are shown");
		p += l;
	}
	OBS(len);
}
void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str)
{ CHECK(level != LOG_LEVEL_EMERG, "the program carries on"); }
void LOG_flush() {}
void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{ CHECK(level != LOG_LEVEL_EMERG, "the program carries on"); }
void LOG_errno2(enum LOG_LEVEL level, int err, const char * prefix, const char * fmt, ...)
{ CHECK(level != LOG_LEVEL_EMERG, "the program carries on"); }

int main(void)
{
	static const uint16_t l[] = { 0, 1, 3, 499, 990, 994, 995, 996, 997, 998, 999, 1000, 1003 };
	static const char fill[] = "xyz";
#ifdef LENGTHS
	vsN = nd_pick(1, NARG);
	for (unsigned i = 0; i < vsN; ++i)
		vsL[i] = l[nd_pick(0, sizeof l / sizeof *l - 1)];
	vsForm = RAW;
#else
	vsN = nd_pick(1, 2);
	for (unsigned i = 0; i < vsN; ++i)
		vsL[i] = 3 - i;
	vsForm = nd_pick(0, 4);
#endif
	for (unsigned i = 0; i < vsN; ++i) {
		memset(vsText[i], fill[i], vsL[i]);
		vsArgv[i] = vsText[i];
	}
	bool r;
	switch (vsForm) {
	case RETURN:
		r = PROC_execAndReturn(vsArgv);
		CHECK(!vsChild, "only the parent returns");
		CHECK(!vsForkFailed || !r, "a failed fork is a failure");
		CHECK(vsForkFailed || vsReaped, "the child is waited for");
		CHECK(r == vsSuccess, "success exactly if the program exited with status zero");
		if (r)
			REACH("succeeded");
		else
			REACH("failed");
		OBS(r);
		break;
	case DETACH:
		PROC_forkAndExec(vsArgv);
		CHECK(!vsChild && !vsExec, "only the parent returns");
		CHECK(vsForkFailed || vsReaped, "no zombie is left");
		REACH("detached");
		break;
	case FINAL:
		PROC_execAndFinalize(vsArgv);
		CHECK(0, "never returns");
		break;
	case RAW:
		PROC_execRaw(vsArgv);
		CHECK(vsExec, "executed");
		break;
	case FORK:
		r = PROC_fork();
		CHECK(r == vsChild, "tells child from parent");
		break;
	}
	return 0;
}
