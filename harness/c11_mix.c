/* C11: two threads send.  While one is within the operating system after a
 * part of its message, the other sends, too, or has to wait */
#define send vs_send
#define recv vs_recv
#define shutdown vs_shutdown
#define close vs_close
#define time vs_time
#define sleep vs_sleep
#include "nd.h"
static int vsOther;
/* a mutex the first thread holds: the other one waits */
#define ENV_BEFORE_LOCK(m) do { if (vsOther) ASSUME(!VS_HELD(m)); } while (0)
#include "env.h"
#include "core/network.c"

#define FD 7
#define MAX 130
static uint8_t vsA[MAX], vsB[8], vsGot[MAX + 8];
static unsigned vsAN, vsBN, vsGotN, vsOwn[2], vsParts, vsConns;
static bool vsSent, vsFailed, vsEnd, vsAllowed;

time_t vs_time(time_t * t) { return 1000; }
unsigned vs_sleep(unsigned s) { return 0; }
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	if (vsConns++)
		DONE();
	return FD;
}
static void other(void)
{
	if (vsSent)
		return;
	vsSent = true;
	++vsOther;
	bool r = NET_send(vsB, vsBN);
	CHECK(r == !vsFailed, "sending fails exactly if the connection fails");
	--vsOther;
	REACH("other");
}
ssize_t vs_send(int fd, const void * b, size_t n, int flags)
{
	int me = vsOther;
	const uint8_t * p = b;
	CHECK(fd == FD, "sends on the connected socket");
	CHECK(!vsFailed, "nothing is sent after a failure");
	CHECK(n >= 1 && n == (me ? vsBN : vsAN) - vsOwn[me], "the rest of the message is sent");
	if (!me && !vsAllowed && nd_bool()) {
		/* a message of the other thread before this call */
		vsAllowed = true;
		bool mid = vsOwn[0];
		other();
		CHECK(!mid, "a message is not interrupted by another one");
		if (vsFailed) {
			errno = EPIPE;
			return -1;
		}
	}
	if (vsOwn[me] == 0 && nd_bool()) {
		vsFailed = true;
		errno = EPIPE;
		return -1;
	}
	static const unsigned part[] = { 1, 7, 43, 64 };
	unsigned r = n;
	if (vsParts < 2 && nd_bool()) {
		++vsParts;
		r = part[nd_pick(0, 3)];
		if (r >= n)
			r = n;
		else
			REACH("partial");
	}
	for (unsigned i = 0; i < r; ++i)
		vsGot[vsGotN++] = p[i];
	vsOwn[me] += r;
	return r;
}
ssize_t vs_recv(int fd, void * b, size_t n, int flags) { return -1; }
int vs_shutdown(int fd, int how) { return 0; }
int vs_close(int fd) { return 0; }
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(!vsEnd, "a failure wakes the connection thread up");
	vsEnd = true;
	VS_HELD(m) = 0;
	NET_waitConnected();
	static const unsigned len[] = { 1, 2, 16, 23, 44, 45, 50, 51, 65, 84, MAX };
	vsAN = len[nd_pick(0, sizeof len / sizeof *len - 1)];
	vsBN = nd_pick(1, 3);
	for (unsigned i = 0; i < MAX; ++i)
		vsA[i] = i;
	for (unsigned i = 0; i < sizeof vsB; ++i)
		vsB[i] = 200 + i;
	bool r = NET_send(vsA, vsAN);
	CHECK(r == !vsFailed, "sending fails exactly if the connection fails");
	if (r && !vsSent)
		other();
	if (!vsFailed) {
		CHECK(vsGotN == vsAN + vsBN, "both messages are sent");
		unsigned a = vsGot[0] == 200 ? vsBN : 0, b = a ? 0 : vsAN;
		CHECK(!memcmp(vsGot + a, vsA, vsAN) && !memcmp(vsGot + b, vsB, vsBN), "messages of two threads are not mixed");
		REACH("success");
	} else
		REACH("failure");
	VS_HELD(m) = 1;
	DONE();
	return 0;
}

int main(void)
{
	NET_comp.onReset();
	NET_comp.main();
	CHECK(0, "the connection loop never ends");
	return 0;
}
