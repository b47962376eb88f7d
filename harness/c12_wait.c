/* C12: waiting ends only for what was waited for, whatever wakes a thread up,
 * and attempts to connect are spaced by a delay.
 * ROUNDS connections   WAKES wake-ups without a reason */
#define send vs_send
#define recv vs_recv
#define shutdown vs_shutdown
#define close vs_close
#define time vs_time
#define sleep vs_sleep
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/network.c"

static bool vsUp, vsWaiting, vsSlept = true, vsFailedBefore;
static unsigned vsWakes, vsConns, vsFails;
static int vsFd = 4;

time_t vs_time(time_t * t) { return 1000; }
unsigned vs_sleep(unsigned s)
{
	if (s)
		vsSlept = true;
	return 0;
}
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	CHECK(!vsUp, "connects only if there is no connection");
	CHECK(!vsFailedBefore || vsSlept, "a failed attempt is not repeated at once");
	vsSlept = false;
	vsFailedBefore = false;
	if (vsFails < 3 && nd_bool()) {
		++vsFails;
		vsFailedBefore = true;
		REACH("again");
		return -1;
	}
	if (++vsConns > ROUNDS) {
		REACH("end");
		DONE();
	}
	vsUp = true;
	return ++vsFd;
}
ssize_t vs_send(int fd, const void * b, size_t n, int flags) { return nd_bool() ? (ssize_t)n : -1; }
ssize_t vs_recv(int fd, void * b, size_t n, int flags) { return 0; }
int vs_shutdown(int fd, int how)
{
	if (fd == vsFd)
		vsUp = false;
	return 0;
}
int vs_close(int fd) { return 0; }
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(VS_HELD(m), "waits with the lock");
	if (vsWaiting) {
		/* somebody waits for the connection: it is not there yet */
		if (++vsWakes > WAKES)
			DONE();
		REACH("woken");
		return 0;
	}
	VS_HELD(m) = 0;
	if (vsUp && vsWakes < WAKES && nd_bool()) {
		/* the connection thread wakes up for no reason */
		++vsWakes;
		REACH("early");
	} else if (vsUp) {
		NET_waitConnected();
		if (nd_bool())
			NET_forceDisconnect();
		else if (NET_send("x", 1)) {
			CHECK(vsUp, "sent");
			VS_HELD(m) = 1;
			DONE();
		}
		CHECK(!vsUp, "a failed connection is ended");
		if (nd_bool()) {
			vsWaiting = true;
			NET_waitConnected();
			CHECK(0, "waiting for a connection ends only when there is one");
			DONE();
		}
	}
	VS_HELD(m) = 1;
	return 0;
}
int main(void)
{
	NET_comp.onReset();
	NET_comp.main();
	CHECK(0, "the connection loop never ends");
	return 0;
}
