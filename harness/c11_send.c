/* C11: bytes sent and received on one connection.  The other threads are the
 * driver below, run while the connection thread waits for a failure.
 * MSGS messages of LMIN..LMAX bytes; LMAX 0: receiving, K calls */
#define send vs_send
#define recv vs_recv
#define shutdown vs_shutdown
#define close vs_close
#define time vs_time
#define sleep vs_sleep
#define ENV_BEFORE_LOCK(m) (++vsLocks)
#define ENV_AFTER_UNLOCK(m) (--vsLocks)
static int vsLocks, vsLocks0;
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/network.c"

#define FD 7
static uint8_t vsMsg[64], vsGot[64];
static unsigned vsGotN, vsTotal, vsConns, vsClosed, vsCalls;
static bool vsFailed, vsShut, vsEnded;
static bool vsRecvFailed;
static struct NET_Statistics s0;

/** the thread may be cancelled while it sends or receives: the other threads go
 * on */
static unsigned vsDepth;
static void vsCancel(void)
{
	if (!nd_bool())
		return;
	while (vs_cn > vsDepth) {
		--vs_cn;
		vs_cfn[vs_cn](vs_carg[vs_cn]);
	}
	CHECK(vsLocks == vsLocks0, "a cancelled thread holds no lock");
	REACH("cancelled");
	DONE();
}
time_t vs_time(time_t * t) { return 1000; }
unsigned vs_sleep(unsigned s) { return 0; }
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	if (vsConns++) {
		CHECK(vsFailed, "reconnects after a failure only");
		REACH("reconnect");
		DONE();
	}
	return FD;
}
ssize_t vs_send(int fd, const void * b, size_t n, int flags)
{
	const uint8_t * p = b;
	CHECK(fd == FD && !vsClosed, "sends on the connected socket");
	CHECK(!vsFailed, "nothing is sent after a failure");
	CHECK(flags & MSG_NOSIGNAL, "a lost connection does not kill the program");
	CHECK(n >= 1 && n <= vsTotal - vsGotN, "not more than the rest of the message is sent");
	/* the whole range handed over is read by the operating system */
	volatile uint8_t x;
	x = p[0];
	x = p[n - 1];
	vsCancel();
	if (nd_bool()) {
		vsFailed = true;
		errno = EPIPE;
		return (int)nd_pick(0, 1) - 1;
	}
	unsigned r = nd_pick(1, n);
	if (r < n)
		REACH("partial");
	for (unsigned i = 0; i < r; ++i)
		vsGot[vsGotN++] = p[i];
	return r;
}
static uint8_t vsData[8];
ssize_t vs_recv(int fd, void * b, size_t n, int flags)
{
	CHECK(fd == FD && !vsClosed, "receives from the connected socket");
	CHECK(!vsFailed, "nothing is received after a failure");
	CHECK(n == vsTotal, "the whole buffer is offered");
	vsCancel();
	if (nd_bool()) {
		vsFailed = true;
		errno = ECONNRESET;
		return (int)nd_pick(0, 1) - 1;
	}
	vsGotN = nd_pick(1, n);
	for (unsigned i = 0; i < vsGotN; ++i)
		((uint8_t *)b)[i] = vsData[i] = nd_u8();
	++vsCalls;
	return vsGotN;
}
int vs_shutdown(int fd, int how)
{
	CHECK(fd == FD && !vsClosed, "shuts down the connected socket");
	vsShut = true;
	return 0;
}
int vs_close(int fd)
{
	CHECK(fd == FD && !vsClosed, "closes the socket once");
	vsClosed = true;
	return 0;
}
static void vsSend(void)
{
	uint64_t sent = 0;
	for (unsigned m = 0; m < MSGS; ++m) {
		vsTotal = nd_pick(LMIN, LMAX);
		vsGotN = 0;
		/* exactly as large as the message: reading beyond is noticed */
		uint8_t * b = malloc(vsTotal);
		for (unsigned i = 0; i < vsTotal; ++i)
			b[i] = vsMsg[i] = nd_u8();
		bool r = NET_send(b, vsTotal);
		CHECK(r == !vsFailed, "sending fails exactly if the connection fails");
		bool same = true;
		for (unsigned i = 0; i < vsGotN; ++i)
			same = symx_and(same, vsGot[i] == vsMsg[i]);
		CHECK(same, "the bytes of the message are sent in order");
		for (unsigned i = 0; i < vsTotal; ++i)
			same = symx_and(same, b[i] == vsMsg[i]);
		CHECK(same, "the message is not altered");
		free(b);
		if (!r) {
			CHECK(vsShut, "a failed connection is ended");
			REACH("failure");
			return;
		}
		CHECK(vsGotN == vsTotal, "the whole message is sent");
		sent += vsTotal;
		struct NET_Statistics s;
		NET_getStatistics(&s);
		CHECK(s.bytesSent == sent, "bytes sent are counted");
	}
	REACH("success");
	DONE();
}
static void vsReceive(void)
{
	uint64_t got = 0;
	for (unsigned k = 0; k < MSGS; ++k) {
		vsTotal = nd_pick(1, 4);
		uint8_t * b = malloc(vsTotal);
		vsGotN = 0;
		unsigned calls = vsCalls;
		ssize_t r = NET_receive(b, vsTotal);
		if (vsFailed) {
			CHECK(r <= 0, "a failure is reported");
			CHECK(vsShut, "a failed connection is ended");
			free(b);
			REACH("failure");
			return;
		}
		CHECK(vsCalls == calls + 1, "data is returned as soon as there is some");
		CHECK(r == vsGotN, "number of bytes");
		bool same = true;
		for (unsigned i = 0; i < vsGotN; ++i)
			same = symx_and(same, b[i] == vsData[i]);
		CHECK(same, "the received bytes are returned");
		got += r;
		struct NET_Statistics s;
		NET_getStatistics(&s);
		CHECK(s.bytesReceived == got, "bytes received are counted");
		free(b);
	}
	REACH("success");
	DONE();
}
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(VS_HELD(m), "mutex held while waiting");
	if (vsEnded) {
		CHECK(0, "a failure wakes the connection thread up");
	}
	vsEnded = true;
	VS_HELD(m) = 0;
	NET_waitConnected();
	vsDepth = vs_cn;
	vsLocks0 = vsLocks;
#if LMAX
	vsSend();
#else
	vsReceive();
#endif
	VS_HELD(m) = 1;
	return 0;
}

int main(void)
{
	NET_comp.onReset();
	NET_comp.main();
	CHECK(0, "the connection loop never ends");
	return 0;
}
