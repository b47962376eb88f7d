/* C12: connection handling under every interleaving of the connection thread
 * (M), a relay-like sender (R), a talkback-like receiver (T) and, with G_OPS, a
 * second sender (G).
 * R_OPS T_OPS G_OPS  operations of each;  FAILS  injected failures (send, recv,
 * connect);  SW  preemptions (switches at blocking calls are free)
 * FORCE  R also uses forced disconnects and checks of the connection
 * Switch points: every mutex operation, before and after every socket call,
 * waiting, sleeping. */
#define send vs_send
#define recv vs_recv
#define shutdown vs_shutdown
#define close vs_close
#define time vs_time
#define sleep vs_sleep
#define ENV_NO_PTHREAD
#include "nd.h"
#include "env.h"
#include "cfg.h"
#include "core/network.c"

#ifndef G_OPS
#define G_OPS 0
#endif
enum { TM, TR, TT, TG, NT };
enum { ST_RUN, ST_LOCK, ST_WAIT, ST_PARK };
static struct {
	int co, st;
	pthread_mutex_t * m;
	struct { void (*fn)(void *); void * arg; } cl[4];
	unsigned ncl, ops;
	int fd, failed;   /* socket of the session, socket of the last failure */
	bool done;
} th[NT];
static int vsCur;
static unsigned vsSw, vsFails;
static bool vsGBusy, vsGFailed; /* the second sender had a failure in this session of R */
static bool vsCalm;   /* no more failures and preemptions */
#define HELD(m) ((m)->__data.__lock)

static bool vsRunnable(int t)
{
	return th[t].st == ST_RUN || (th[t].st == ST_LOCK && !HELD(th[t].m));
}
static void vsSwitch(int t)
{
	vsCur = t;
	symx_co_switch(th[t].co);
}
static void vsQuiet(void);
/** the current thread cannot go on: any other one does */
static void vsBlock(void)
{
	int me = vsCur, last = -1;
	for (int t = 0; t < NT; ++t)
		if (t != me && vsRunnable(t))
			last = t;
	if (vsRunnable(me) && last < 0)
		return;
	if (last < 0)
		vsQuiet();
	else {
		for (int t = 0; t < last; ++t)
			if (t != me && vsRunnable(t) && (vsCalm || nd_bool())) {
				vsSwitch(t);
				return;
			}
		vsSwitch(last);
	}
}
static void vsYield(void)
{
	if (vsCalm || vsSw >= SW)
		return;
	int me = vsCur;
	for (int t = 0; t < NT; ++t)
		if (t != me && vsRunnable(t) && nd_bool()) {
			++vsSw;
			vsSwitch(t);
			return;
		}
}

void vs_cleanup_push(void (*fn)(void *), void * arg)
{
	CHECK(th[vsCur].ncl < 4, "env: clean-up stack depth");
	th[vsCur].cl[th[vsCur].ncl].fn = fn;
	th[vsCur].cl[th[vsCur].ncl].arg = arg;
	++th[vsCur].ncl;
}
void vs_cleanup_pop(int run)
{
	--th[vsCur].ncl;
	if (run)
		th[vsCur].cl[th[vsCur].ncl].fn(th[vsCur].cl[th[vsCur].ncl].arg);
}
int vs_mutex_lock(pthread_mutex_t * m)
{
	vsYield();
	while (HELD(m)) {
		CHECK(HELD(m) != vsCur + 1, "no mutex is locked twice by one thread");
		th[vsCur].st = ST_LOCK;
		th[vsCur].m = m;
		vsBlock();
		th[vsCur].st = ST_RUN;
	}
	HELD(m) = vsCur + 1;
	return 0;
}
int vs_mutex_unlock(pthread_mutex_t * m)
{
	CHECK(HELD(m) == vsCur + 1, "a mutex is unlocked by its owner");
	HELD(m) = 0;
	vsYield();
	return 0;
}
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	CHECK(HELD(m) == vsCur + 1, "mutex held when waiting");
	HELD(m) = 0;
	th[vsCur].st = ST_WAIT;
	th[vsCur].m = m;
	vsBlock();
	while (HELD(m)) {
		th[vsCur].st = ST_LOCK;
		vsBlock();
	}
	th[vsCur].st = ST_RUN;
	HELD(m) = vsCur + 1;
	return 0;
}
int vs_cond_broadcast(pthread_cond_t * c)
{
	for (int t = 0; t < NT; ++t)
		if (th[t].st == ST_WAIT)
			th[t].st = ST_LOCK;
	return 0;
}
int vs_cond_signal(pthread_cond_t * c)
{
	/* wakes at least one: any of them */
	int last = -1;
	for (int t = 0; t < NT; ++t)
		if (th[t].st == ST_WAIT)
			last = t;
	for (int t = 0; t <= last; ++t)
		if (th[t].st == ST_WAIT && (t == last || nd_bool())) {
			th[t].st = ST_LOCK;
			break;
		}
	return 0;
}
time_t vs_time(time_t * t) { return 1000; }
unsigned vs_sleep(unsigned s)
{
	vsYield();
	return 0;
}

/* sockets: numbers are never used again, so that a stale one is noticed */
#define FD0 5
#define MAXFD 16
static struct { bool open, dead, shut; } sk[MAXFD];
static int vsNfd;
static bool vsFail(void)
{
	if (vsCalm || vsFails >= FAILS || !nd_bool())
		return false;
	++vsFails;
	return true;
}
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	CHECK(vsCur == TM, "env: connecting thread");
	vsYield();
	if (vsFail()) {
		REACH("connect failed");
		return -1;
	}
	CHECK(vsNfd < MAXFD, "env: number of sockets");
	int open = 0;
	for (int i = 0; i < vsNfd; ++i)
		open += sk[i].open && !sk[i].shut && !sk[i].dead;
	CHECK(open == 0, "there is one connection at a time");
	sk[vsNfd].open = true;
	return FD0 + vsNfd++;
}
static int vsSock(int fd)
{
	CHECK(fd >= FD0 && fd < FD0 + vsNfd, "only sockets of the connection are used");
	CHECK(sk[fd - FD0].open, "no socket is used after it was closed");
	return fd - FD0;
}
/** socket used by the last failing call of a thread */
static int vsLast[NT];
ssize_t vs_send(int fd, const void * b, size_t n, int flags)
{
	CHECK(vsCur != TT, "the receiver does not send");
	vsYield();
	if (fd == -1) {
		/* no socket: the call just fails */
		CHECK(G_OPS > 0, "a single sender does not use a missing socket");
		vsLast[vsCur] = -1;
		vsGFailed |= vsCur == TG;
		vsYield();
		errno = EBADF;
		return -1;
	}
	int s = vsSock(fd);
	if (!sk[s].dead && !sk[s].shut && vsFail())
		sk[s].dead = true;
	vsLast[vsCur] = fd;
	bool bad = sk[s].dead || sk[s].shut;
	if (!bad)
		OBS(fd);
	else
		vsGFailed |= vsCur == TG;
	vsYield();
	if (bad)
		errno = EPIPE;
	return bad ? -1 : (ssize_t)n;
}
ssize_t vs_recv(int fd, void * b, size_t n, int flags)
{
	CHECK(vsCur == TT, "only the receiver receives");
	vsYield();
	int s = vsSock(fd);
	if (!sk[s].dead && !sk[s].shut && vsFail())
		sk[s].dead = true;
	vsLast[vsCur] = fd;
	bool bad = sk[s].dead || sk[s].shut;
	if (!bad)
		OBS(fd + 100);
	vsYield();
	if (!bad)
		*(uint8_t *)b = s;
	return bad ? 0 : 1;
}
int vs_shutdown(int fd, int how)
{
	if (fd == -1)
		return -1;
	sk[vsSock(fd)].shut = true;
	return 0;
}
int vs_close(int fd)
{
	if (fd == -1)
		return -1;
	sk[vsSock(fd)].open = false;
	return 0;
}

/** between two operations: the thread rests when it has used up its own */
static void vsRest(unsigned max)
{
	if ((vsCalm && th[vsCur].done) || (!vsCalm && th[vsCur].ops >= max)) {
		th[vsCur].st = ST_PARK;
		vsBlock();
		th[vsCur].st = ST_RUN;
	} else
		vsYield();
	++th[vsCur].ops;
}
static void vsSuccess(int fd, const char * once)
{
	int t = vsCur;
	if (th[t].fd == -1) {
		CHECK(th[t].failed != fd, "after a failure the connection is a new one");
		th[t].fd = fd;
	}
	if (th[t].fd != fd && t == TR && vsGFailed)
	{
		CHECK(0, "a failure noticed by the second sender is noticed by the first one");
		DONE();
	}
	CHECK(th[t].fd == fd, once);
	if (vsCalm)
		th[t].done = true;
	else if (t == TR && th[TG].st == ST_PARK && th[TG].ops < G_OPS)
		th[TG].st = ST_RUN;
}
static void vsFailure(int fd)
{
	int t = vsCur;
	if (fd > 0) {
		CHECK(th[t].failed != fd, "each failure is noticed once");
		th[t].failed = fd;
	}
	th[t].fd = -1;
	th[t].done = false;
}
static void vsR(void * x)
{
	while (true) {
		NET_waitConnected();
		th[TR].fd = -1;
		vsGFailed = vsGBusy;
		bool ok = true;
		while (ok) {
			vsRest(R_OPS);
#ifdef FORCE
			int op = vsCalm ? 0 : (int)nd_pick(0, 2);
#else
			int op = 0;
#endif
			int fd = th[TR].fd;
			switch (op) {
			case 0:
				vsLast[TR] = 0;
				ok = NET_send("x", 1);
				if (ok)
					vsSuccess(vsLast[TR], "the sender notices the end of a connection");
				else {
					REACH("send failed");
					vsFailure(vsLast[TR]);
				}
				break;
			case 1:
				NET_forceDisconnect();
				REACH("forced");
				if (fd != -1) {
					CHECK(sk[fd - FD0].shut || !sk[fd - FD0].open, "a forced disconnect ends the connection");
					th[TR].failed = fd;
				}
				ok = false;
				break;
			default: {
				bool alive = false, now = false;
				if (fd != -1)
					alive = !sk[fd - FD0].shut && sk[fd - FD0].open;
				ok = NET_checkConnected();
				if (fd != -1)
					now = !sk[fd - FD0].shut && sk[fd - FD0].open;
				if (fd != -1 && alive && now)
					CHECK(ok, "a live connection is reported as connected");
				if (fd != -1 && !alive)
					CHECK(!ok, "an ended connection is reported as disconnected");
				if (!ok)
					REACH("check failed");
			}
			}
		}
	}
}
static void vsT(void * x)
{
	while (true) {
		NET_waitConnected();
		th[TT].fd = -1;
		while (true) {
			vsRest(T_OPS);
			uint8_t b = 0xff;
			vsLast[TT] = 0;
			ssize_t r = NET_receive(&b, 1);
			if (r <= 0) {
				REACH("receive failed");
				vsFailure(vsLast[TT]);
				break;
			}
			vsSuccess(FD0 + b, "the receiver notices the end of a connection");
		}
	}
}
static void vsG(void * x)
{
	while (true) {
		++th[TG].ops;
		/* the position is sent when it was missing at login */
		vsLast[TG] = 0;
		vsGBusy = true;
		NET_send("g", 1);
		vsGBusy = false;
		REACH("second sender");
		th[TG].st = ST_PARK;
		vsBlock();
	}
}
static void vsM(void * x)
{
	NET_comp.main();
	CHECK(0, "the connection loop never ends");
	vsBlock();
}
/** the program starts again: new threads, with the state the old ones left */
static bool vsAgain;
static void (* const vsMain[NT])(void *) = { vsM, vsR, vsT, vsG };
static void vsRestart(void)
{
	vsAgain = true;
	vsGFailed = vsGBusy = false;
	for (int t = TM; t <= TT; ++t) {
		th[t].co = symx_co_create(vsMain[t], NULL);
		th[t].st = ST_RUN;
		th[t].ncl = 0;
		th[t].fd = -1;
		th[t].failed = 0;
		th[t].done = false;
	}
	th[TG].st = ST_PARK;
	vsSwitch(TM);
}
static void vsQuiet(void)
{
	/* nobody can run: everybody rests or waits */
	for (int t = 0; t < NT; ++t)
		CHECK(th[t].st == ST_PARK || th[t].st == ST_WAIT, "no deadlock");
	if (vsCalm) {
		CHECK(th[TR].done && th[TT].done, "after the failures sender and receiver work again");
		CHECK(th[TR].fd == th[TT].fd, "sender and receiver use the same connection");
		struct NET_Statistics s;
		NET_getStatistics(&s);
		CHECK(s.isOnline, "the connection is reported as online");
		REACH("working");
	}
	if (vsAgain) {
		REACH("working after a restart");
		DONE();
	}
	if (vsCalm || nd_bool()) {
		/* the program stops: the other threads are cancelled first */
		for (int t = TR; t < NT; ++t) {
			vsCur = t;
			if (th[t].st == ST_WAIT)
				HELD(th[t].m) = t + 1;
			vsCalm = true;
			while (th[t].ncl)
				vs_cleanup_pop(1);
		}
		vsCur = TM;
		CHECK(th[TM].st == ST_WAIT, "the connection thread waits for a failure");
		HELD(th[TM].m) = TM + 1;
		while (th[TM].ncl)
			vs_cleanup_pop(1);
		for (int i = 0; i < vsNfd; ++i)
			CHECK(!sk[i].open, "every socket is closed");
		REACH("end");
		vsRestart();
	}
	vsCalm = true;
	/* (nobody is resting after the last phase has begun but those that are done) */
	int next = -1;
	for (int t = TR; t <= TT; ++t)
		if (th[t].st == ST_PARK) {
			th[t].st = ST_RUN;
			if (next < 0)
				next = t;
		}
	if (next < 0)
		vsQuiet();
	else if (next != vsCur)
		vsSwitch(next);
}

int main(void)
{
	for (int t = 0; t < NT; ++t) {
		th[t].co = symx_co_create(vsMain[t], NULL);
		th[t].fd = -1;
	}
	th[TG].st = ST_PARK;
	vsSwitch(TM);
	return 0;
}
