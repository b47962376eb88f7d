/* C40: counters of the network under histories of sending, receiving, failing,
 * forced disconnects and reconnecting, with a clock that goes on.  The threads
 * take turns between their operations (every interleaving of them: C12).
 * K operations   FAILS failing calls */
#define send vs_send
#define recv vs_recv
#define shutdown vs_shutdown
#define close vs_close
#define time vs_time
#define sleep vs_sleep
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/network.c"

static time_t now = 1000;
static unsigned vsK, vsFails;
/* what happened */
static int vsCur = -1;          /* socket of the living connection */
static int vsNext = 5;
static uint64_t vsAttempts, vsFailed, vsLost, vsSent, vsReceived, vsOnline;
static time_t vsSince;
static bool vsR, vsT;           /* sender, receiver work on a connection */
static bool vsDead[32];

time_t vs_time(time_t * t)
{
	if (t)
		*t = now;
	return now;
}
static bool vsFail(void)
{
	if (vsFails >= FAILS || !nd_bool())
		return false;
	++vsFails;
	return true;
}
static void vsTime(void)
{
	now += nd_bool() ? 70007 : 0;
}
/** the connection is over as soon as somebody notices */
static void vsOver(int fd)
{
	if (fd != vsCur)
		return;
	vsOnline += now - vsSince;
	vsCur = -1;
	++vsLost;
	REACH("lost");
}
static void vsCompare(bool rest)
{
	struct NET_Statistics s;
	memset(&s, 0xff, sizeof s);
	NET_getStatistics(&s);
	CHECK(s.isOnline == (vsCur != -1), "the connection is reported as online while there is one");
	CHECK(s.bytesSent == vsSent, "the bytes sent are counted");
	CHECK(s.bytesReceived == vsReceived, "the bytes received are counted");
	CHECK(s.onlineSecs == vsOnline + (vsCur != -1 ? now - vsSince : 0), "the time online is the one with a connection");
	if (rest) {
		CHECK(s.connectionAttempts == vsAttempts, "attempts to connect are counted");
		CHECK(s.disconnects == vsFailed + vsLost, "failed attempts and lost connections are counted");
	}
}
static bool vsDid, vsPart;
static void vsOps(void);
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	CHECK(vsCur == -1, "connects only if there is no connection");
	++vsAttempts;
	vsTime();
	if (vsFail()) {
		++vsFailed;
		return -1;
	}
	vsCur = vsNext++;
	CHECK(vsCur < 32, "env: sockets");
	vsSince = now;
	return vsCur;
}
ssize_t vs_send(int fd, const void * b, size_t n, int flags)
{
	if (fd < 0 || vsDead[fd] || vsFail()) {
		if (fd >= 0)
			vsDead[fd] = true;
		vsDid = true;
		vsOver(fd);
		errno = EPIPE;
		return -1;
	}
	if (vsPart || n < 2 || !nd_bool())
		return n;
	vsPart = true;
	return n / 2;
}
ssize_t vs_recv(int fd, void * b, size_t n, int flags)
{
	CHECK(fd >= 0, "receives from a connection");
	if (vsDead[fd] || vsFail()) {
		vsDead[fd] = true;
		vsOver(fd);
		return 0;
	}
	size_t r = nd_bool() ? 1 : n;
	memset(b, 'x', r);
	vsReceived += r;
	return r;
}
int vs_shutdown(int fd, int how)
{
	if (fd >= 0) {
		vsDead[fd] = true;
		vsOver(fd);
	}
	return 0;
}
int vs_close(int fd) { return 0; }
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(VS_HELD(m), "waits with the lock");
	if (!vsK && nd_bool()) {
		/* the program stops */
		vs_cancel_unwind();
		struct NET_Statistics s;
		NET_getStatistics(&s);
		CHECK(!s.isOnline, "there is no connection after the program stopped");
		REACH("stopped");
		DONE();
	}
	VS_HELD(m) = 0;
	vsCompare(true);
	vsOps();
	VS_HELD(m) = 1;
	return 0;
}
unsigned vs_sleep(unsigned s)
{
	/* (the connection thread keeps the lock: nobody else acts) */
	vsCompare(true);
	vsTime();
	REACH("retry");
	return 0;
}
/** the other threads, until the connection is over */
static void vsOps(void)
{
	while (vsCur != -1 || (vsK < K && nd_bool())) {
		if (vsK++ >= K) {
			REACH("end");
			DONE();
		}
		uint8_t b[3];
		if (!vsR && vsCur != -1) {
			NET_waitConnected();
			vsR = true;
		}
		if (!vsT && vsCur != -1) {
			NET_waitConnected();
			vsT = true;
		}
		switch (nd_pick(0, 4)) {
		case 0: {
			if (!vsR)
				DONE();
			static const char vsMsg[300];
			size_t n = nd_bool() ? sizeof vsMsg : 1;
			vsPart = false;
			bool ok = NET_send(vsMsg, n);
			if (ok)
				vsSent += n;
			else
				vsR = false;
			break;
		}
		case 1: {
			if (!vsT)
				DONE();
			ssize_t r = NET_receive(b, sizeof b);
			if (r <= 0)
				vsT = false;
			break;
		}
		case 2:
			if (!vsR)
				DONE();
			NET_forceDisconnect();
			vsR = false;
			break;
		case 3:
			if (!vsR)
				DONE();
			if (!NET_checkConnected())
				vsR = false;
			break;
		default:
			vsTime();
		}
		vsCompare(false);
	}
}
int main(void)
{
	NET_comp.onReset();
	NET_comp.main();
	CHECK(0, "the connection loop never ends");
	return 0;
}
