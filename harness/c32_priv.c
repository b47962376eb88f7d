/* C32: dropping privileges */
#define getuid vs_getuid
#define geteuid vs_getuid
#define sysconf vs_sysconf
#define getpwnam_r vs_getpwnam_r
#define getgrnam_r vs_getgrnam_r
#define chdir vs_chdir
#define setgroups vs_setgroups
#define setgid vs_setgid
#define setuid vs_setuid
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
#include <pwd.h>
#include <grp.h>
#include "heap.h"
#include "heap_end.h"
#define malloc vs_malloc
#define free vs_free
#include "util/util.c"
#undef malloc
#undef free

static uid_t vsUid, vsPwUid, vsWantUid = 65534;
static gid_t vsGid = 0, vsPwGid, vsGrGid, vsWantGid = 65534;
static bool vsFailed, vsGroups = true;
static unsigned vsChanges;
uid_t vs_getuid(void) { return vsUid; }
long vs_sysconf(int n) { return nd_pick(0, 1) ? -1 : 64; }
static char * vsBuf;
static size_t vsBufLen;
int vs_getpwnam_r(const char * n, struct passwd * p, char * b, size_t l, struct passwd ** r)
{
	CHECK(strcmp(n, "nobody") == 0, "the unprivileged user is looked up");
	b[0] = b[l - 1] = 0;
	*r = NULL;
	switch (nd_pick(0, 2)) {
	case 0: return ERANGE;
	case 1: return 0; /* no such user */
	}
	p->pw_uid = vsPwUid;
	p->pw_gid = vsPwGid;
	p->pw_name = b;
	*r = p;
	vsWantUid = vsPwUid;
	vsWantGid = vsPwGid;
	return 0;
}
int vs_getgrnam_r(const char * n, struct group * g, char * b, size_t l, struct group ** r)
{
	CHECK(strcmp(n, "nobody") == 0, "the unprivileged group is looked up");
	b[0] = b[l - 1] = 0;
	*r = NULL;
	switch (nd_pick(0, 2)) {
	case 0: return EIO;
	case 1: return 0;
	}
	g->gr_gid = vsGrGid;
	*r = g;
	vsWantGid = vsGrGid;
	return 0;
}
int vs_chdir(const char * p) { return nd_bool() ? -1 : 0; }
static int vsFails(void)
{
	++vsChanges;
	if (nd_bool()) {
		errno = EPERM;
		vsFailed = true;
		return -1;
	}
	return 0;
}
int vs_setgroups(size_t n, const gid_t * l)
{
	CHECK(vsUid == 0, "groups are changed while privileged");
	if (vsFails())
		return -1;
	CHECK(n == 0, "no supplementary groups are kept");
	vsGroups = false;
	return 0;
}
int vs_setgid(gid_t g)
{
	CHECK(vsUid == 0, "the group is changed before the user");
	if (vsFails())
		return -1;
	vsGid = g;
	return 0;
}
int vs_setuid(uid_t u)
{
	if (vsFails())
		return -1;
	vsUid = u;
	return 0;
}
static void vsStop(void)
{
	CHECK(vsFailed, "the program stops only if dropping privileges failed");
	REACH("stopped");
}

int main(void)
{
	env_onEmerg = vsStop;
	vsUid = nd_pick(0, 1) ? nd_u32() : 0;
	uid_t was = vsUid;
	vsPwUid = nd_range(1, 0xfffffffe);
	vsPwGid = nd_range(1, 0xfffffffe);
	vsGrGid = nd_range(1, 0xfffffffe);
	heapFailOn = true;
	UTIL_dropPrivileges();
	CHECK(heapLive == 0, "nothing stays allocated");
	if (was) {
		CHECK(!vsChanges && vsUid == was, "nothing changes without privileges");
		REACH("unprivileged");
		return 0;
	}
	CHECK(vsUid == vsWantUid && vsGid == vsWantGid, "user and group are the unprivileged ones");
	CHECK(!vsGroups, "supplementary groups are dropped");
	CHECK(!vsFailed, "no step failed");
	REACH("dropped");
	return 0;
}
