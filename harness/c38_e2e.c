/* C38: receiver stream to server connection through the real input parser,
 * filter, buffer, relay, login, position, talkback and transport, with the
 * connection (M), relay (R), talkback (T) and receive (V) threads.
 * ITEMS  items of the receiver stream, BURST of them per read
 * FAILS  connection failures (send, receive, connect), INFAILS input failures
 * CUTS   reads that end within a frame, SHORT  partial writes
 * CMDS   filter commands, IDLES  keep-alive time-outs, SW  switches at sends and
 * reads where the thread could go on (switches at blocking calls are free)
 * STAT HIST  buffer configuration
 * LATEPOS  the position becomes known (thread G) while the others run
 * FREE  any payload bytes and filter settings   VARLOGIN  any login */
#include <config.h>
#include "nd.h"
#define ENV_NO_PTHREAD
#include "env.h"
#include "cfg.h"
#include "core/network.h"
#include "core/relay.h"
#include "core/recv.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "core/login.h"
#include "core/serial.h"
#include "core/gps.h"
#include "core/tb.h"
#include "core/input.h"
#include "core/openskytypes.h"
#include "util/net_common.h"
#include "radarcape/rc-input.h"

#ifdef LATEPOS
enum { TM, TR, TT, TV, TG, NT };
#else
enum { TM, TR, TT, TV, NT, TG };
#endif
enum { ST_RUN, ST_LOCK, ST_WAIT, ST_TWAIT, ST_RECV, ST_IDLE };
static struct {
	int co, st;
	pthread_mutex_t * m;
	pthread_cond_t * c;
	struct { void (*fn)(void *); void * arg; } cl[6];
	unsigned ncl;
} th[NT];
static int vsCur, vsRecvFd;
static unsigned vsSw, vsFails, vsInFails, vsCmds, vsIdles, vsCuts, vsShorts, vsItems, vsExtra;
static bool vsTimedOut, vsStarted;
static pthread_mutex_t * vsNetMutex;
#define HELD(m) ((m)->__data.__lock)

#define FD0 5
#define MAXFD 8
static struct { bool open, dead, shut, logged; } sk[MAXFD];
static int vsNfd;

/* reference ------------------------------------------------------------- */
#define MAXF 12
static struct { uint8_t b[48]; unsigned n; } mF[MAXF];  /* frames to forward */
static unsigned mFn;
static unsigned mq[MAXF], mqn;    /* stored, undelivered */
static int mFly = -1;             /* frame being sent */
static bool mBack;                /* it could not be sent */
static bool mSynced, mSyncOnly, mExtOnly;
static unsigned mDropped, mFlushed, mDone;
/* frames delivered by the receiver but not decided yet */
static struct { uint8_t type, first; uint64_t ts; uint8_t b[48]; unsigned n; } mP[MAXF];
static unsigned mPn;
/* login messages, the message being sent */
static struct { uint8_t b[100]; unsigned n; } mL[4], vsLate;
static unsigned mLn, mLi;
static const uint8_t * mCur;
static unsigned mCurN, mOff;
static int mConn = -1;
/* a position that becomes known later */
static struct { bool begun, done, must; unsigned sent; } mG;

static void mPush(unsigned f)
{
	mq[mqn++] = f;
	/* one element is always needed for the next frame */
	if (mqn + (mFly >= 0) > STAT + HIST - 1) {
		for (unsigned i = 0; i + 1 < mqn; ++i)
			mq[i] = mq[i + 1];
		--mqn;
		++mDropped;
		REACH("dropped");
	}
}
static void mDecide(void)
{
	for (unsigned i = 0; i < mPn; ++i) {
		uint8_t t = mP[i].type, f = mP[i].first / 8;
		if (t == '4' && mP[i].ts)
			mSynced = true;
		if ((t != '2' && t != '3') || (mSyncOnly && !mSynced) || (mExtOnly && f != 17 && f != 18))
			continue;
		CHECK(mFn < MAXF, "env: frames");
		memcpy(mF[mFn].b, mP[i].b, mP[i].n);
		mF[mFn].n = mP[i].n;
		mPush(mFn++);
	}
	mPn = 0;
}

/* scheduler ------------------------------------------------------------- */
static bool vsRunnable(int t)
{
	switch (th[t].st) {
	case ST_RUN: return true;
	case ST_LOCK: return !HELD(th[t].m);
	case ST_TWAIT: return vsIdles < IDLES + vsExtra && !HELD(th[t].m);
	case ST_RECV: return sk[vsRecvFd].dead || sk[vsRecvFd].shut || vsFails < FAILS || vsCmds < CMDS;
	default: return false;
	}
}
static void vsSwitch(int t)
{
	vsCur = t;
	symx_co_switch(th[t].co);
}
static void vsQuiet(void)
{
	/* nobody can go on: the stream has ended and everything was sent */
	CHECK(th[TM].st == ST_WAIT && th[TR].st == ST_TWAIT && th[TT].st == ST_RECV && th[TV].st == ST_IDLE,
		"no thread is stuck");
	if ((mConn != vsNfd - 1 || !sk[mConn].logged) && vsExtra < 3) {
		/* the relay has not noticed yet: the next keep-alive does */
		++vsExtra;
		REACH("late");
		if (vsCur != TR)
			vsSwitch(TR);
		return;
	}
#ifdef LATEPOS
	CHECK(th[TG].st == ST_IDLE, "the position is set");
	CHECK(mG.sent == 1, "the position is sent once, at login or as soon as it is known");
#endif
	CHECK(vsNfd > 0 && sk[vsNfd - 1].open && !sk[vsNfd - 1].dead && !sk[vsNfd - 1].shut, "the connection is up in the end");
	for (int i = 0; i < vsNfd - 1; ++i)
		CHECK(!sk[i].open, "former connections are closed");
	CHECK(mConn == vsNfd - 1 && sk[mConn].logged, "the login was sent on the last connection");
	CHECK(mqn == 0 && mFly < 0, "every frame was sent, dropped or flushed");
	CHECK(mDone + mDropped + mFlushed == mFn, "env: frames are accounted for");
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	CHECK(b.queueSize == 0, "the buffer is empty");
	if (mDone > 1)
		REACH("sent");
	if (vsNfd > 1)
		REACH("again");
	REACH("end");
	DONE();
}
static void vsBlock(void)
{
	int me = vsCur, last = -1;
	for (int t = 0; t < NT; ++t)
		if (t != me && vsRunnable(t))
			last = t;
	if (last < 0) {
		if (!vsRunnable(me))
			vsQuiet();
		return;
	}
	if (vsRunnable(me) && nd_bool())
		return;
	for (int t = 0; t < last; ++t)
		if (t != me && vsRunnable(t) && nd_bool()) {
			vsSwitch(t);
			return;
		}
	vsSwitch(last);
}
static void vsYield(void)
{
	if (vsSw >= SW)
		return;
	int me = vsCur;
	for (int t = 0; t < NT; ++t)
		if (t != me && vsRunnable(t) && nd_bool()) {
			++vsSw;
			vsSwitch(t);
			return;
		}
}
void vs_cleanup_push(void (*fn)(void *), void * arg)
{
	CHECK(th[vsCur].ncl < 6, "env: clean-up stack depth");
	th[vsCur].cl[th[vsCur].ncl].fn = fn;
	th[vsCur].cl[th[vsCur].ncl].arg = arg;
	++th[vsCur].ncl;
}
void vs_cleanup_pop(int run)
{
	--th[vsCur].ncl;
	if (run)
		th[vsCur].cl[th[vsCur].ncl].fn(th[vsCur].cl[th[vsCur].ncl].arg);
}
int vs_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
	HELD(m) = 0;
	return 0;
}
int vs_mutex_lock(pthread_mutex_t * m)
{
	while (HELD(m)) {
		CHECK(HELD(m) != vsCur + 1, "no mutex is locked twice by one thread");
		th[vsCur].st = ST_LOCK;
		th[vsCur].m = m;
		vsBlock();
		th[vsCur].st = ST_RUN;
	}
	HELD(m) = vsCur + 1;
	if (vsStarted && !vsNetMutex)
		vsNetMutex = m;
	if (vsCur == TR && mBack && m != vsNetMutex) {
		/* the frame that could not be sent is not lost: it is the next one */
		for (unsigned i = mqn; i; --i)
			mq[i] = mq[i - 1];
		mq[0] = mFly;
		++mqn;
		mFly = -1;
		mBack = false;
		REACH("put back");
	}
	return 0;
}
int vs_mutex_unlock(pthread_mutex_t * m)
{
	CHECK(HELD(m) == vsCur + 1, "a mutex is unlocked by its owner");
	HELD(m) = 0;
	return 0;
}
static void vsWait(pthread_cond_t * c, pthread_mutex_t * m, int st)
{
	CHECK(HELD(m) == vsCur + 1, "mutex held when waiting");
	HELD(m) = 0;
	th[vsCur].st = st;
	th[vsCur].m = m;
	th[vsCur].c = c;
	do
		vsBlock();
	while (HELD(m));
}
int vs_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	vsWait(c, m, ST_WAIT);
	th[vsCur].st = ST_RUN;
	HELD(m) = vsCur + 1;
	return 0;
}
int vs_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	CHECK(vsCur == TR, "env: only the relay waits with a time-out");
	vsWait(c, m, ST_TWAIT);
	bool out = th[vsCur].st == ST_TWAIT;
	if (out) {
		++vsIdles;
		vsTimedOut = true;
		REACH("idle");
	}
	th[vsCur].st = ST_RUN;
	HELD(m) = vsCur + 1;
	return out ? ETIMEDOUT : 0;
}
int vs_cond_broadcast(pthread_cond_t * c)
{
	for (int t = 0; t < NT; ++t)
		if ((th[t].st == ST_WAIT || th[t].st == ST_TWAIT) && th[t].c == c)
			th[t].st = ST_LOCK;
	return 0;
}
int vs_cond_signal(pthread_cond_t * c)
{
	int last = -1;
	for (int t = 0; t < NT; ++t)
		if ((th[t].st == ST_WAIT || th[t].st == ST_TWAIT) && th[t].c == c)
			last = t;
	for (int t = 0; t <= last; ++t)
		if ((th[t].st == ST_WAIT || th[t].st == ST_TWAIT) && th[t].c == c && (t == last || nd_bool())) {
			th[t].st = ST_LOCK;
			break;
		}
	return 0;
}
int vs_setcancelstate(int s, int * old)
{
	if (old)
		*old = PTHREAD_CANCEL_ENABLE;
	return 0;
}
time_t vs_time(time_t * t) { return 1000; }
unsigned vs_sleep(unsigned s)
{
	vsYield();
	return 0;
}
int vs_clock(clockid_t c, struct timespec * ts)
{
	ts->tv_sec = 1000;
	ts->tv_nsec = 0;
	return 0;
}

/* server ---------------------------------------------------------------- */
static bool vsFail(void)
{
	if (vsFails >= FAILS || !nd_bool())
		return false;
	++vsFails;
	return true;
}
sock_t NETC_connect(const char * p, const char * host, uint16_t port)
{
	vsYield();
	if (vsFail()) {
		REACH("connect failed");
		return -1;
	}
	CHECK(vsNfd < MAXFD, "env: number of sockets");
	sk[vsNfd].open = true;
	return FD0 + vsNfd++;
}
static int vsSock(int fd)
{
	CHECK(fd >= FD0 && fd < FD0 + vsNfd && sk[fd - FD0].open, "only open sockets of the connection are used");
	return fd - FD0;
}
ssize_t vs_send(int fd, const void * b, size_t n, int flags)
{
	CHECK(vsCur == TR || vsCur == TG, "only the relay and the position component send");
	int s = vsSock(fd);
	static const uint8_t alive[] = { 0x1a, '6' };
	static bool mine;
	if (vsCur == TG) {
		if (!mine) {
			CHECK(!mCur, "messages are not mixed");
			CHECK(mLi == mLn, "nothing is sent on a connection before its login");
			mine = true;
			mOff = 0;
			mCur = vsLate.b;
			mCurN = vsLate.n;
			++mG.sent;
			REACH("late position");
		}
	} else
		CHECK(!mine, "messages are not mixed");
	if (!mCur) {
		mOff = 0;
#ifdef LATEPOS
		if (mLi == mLn && !mG.sent && n > 1 && ((const uint8_t *)b)[1] == '7') {
			CHECK(mG.begun, "the position is sent when it is known");
			++mG.sent;
			REACH("position at login");
			mCur = vsLate.b;
			mCurN = vsLate.n;
		} else if (mLi == mLn && mG.must && !mG.sent) {
			CHECK(0, "a known position is sent at login");
		} else
#endif
		if (mLi < mLn) {
			mCur = mL[mLi].b;
			mCurN = mL[mLi].n;
		} else if (mqn) {
			mFly = mq[0];
			for (unsigned i = 0; i + 1 < mqn; ++i)
				mq[i] = mq[i + 1];
			--mqn;
			mCur = mF[mFly].b;
			mCurN = mF[mFly].n;
			REACH("frame");
		} else {
			CHECK(vsTimedOut, "a keep-alive is sent only after the keep-alive interval");
			mCur = alive;
			mCurN = 2;
			REACH("keep-alive");
		}
		vsTimedOut = false;
	}
	CHECK(n == mCurN - mOff, "the rest of the message is sent");
	bool same = true;
	for (unsigned i = 0; i < n; ++i)
		same = symx_and(same, ((const uint8_t *)b)[i] == mCur[mOff + i]);
	CHECK(same, "login, frames and keep-alives are sent unaltered, in order");
	vsYield();
	s = vsSock(fd);
	if (!sk[s].dead && !sk[s].shut && vsFail())
		sk[s].dead = true;
	if (sk[s].dead || sk[s].shut) {
		mBack = mFly >= 0;
		mLi = 0;
		mConn = -1;
		mCur = NULL;
		errno = EPIPE;
		return -1;
	}
	if (mLi == 0 && mOff == 0)
		mConn = s;
	CHECK(mConn == s, "nothing is sent on a connection before its login");
	unsigned k = n;
	if (n > 1 && vsShorts < SHORT && nd_bool()) {
		++vsShorts;
		k = nd_pick(0, 1) ? 1 : n - 1;
	}
	mOff += k;
	if (mOff == mCurN) {
		if (mCur == vsLate.b)
			mine = false;
		else if (mLi < mLn) {
			mG.must = mG.done;
			if (++mLi == mLn) {
				sk[s].logged = true;
				REACH("login");
#if !HIST
				/* old data is flushed */
				mFlushed += mqn;
				if (mqn)
					REACH("flushed");
				mqn = 0;
#endif
			}
		} else if (mFly >= 0) {
			++mDone;
			mFly = -1;
		}
		mCur = NULL;
	}
	return k;
}
ssize_t vs_recv(int fd, void * b, size_t n, int flags)
{
	CHECK(vsCur == TT, "only the talkback receives");
	int s = vsSock(fd);
	vsRecvFd = s;
	th[TT].st = ST_RECV;
	do
		vsBlock();
	while (!vsRunnable(TT));
	th[TT].st = ST_RUN;
	CHECK(sk[s].open, "a socket is not closed while it is in use");
	if (sk[s].dead || sk[s].shut)
		return 0;
	if (vsCmds < CMDS && (vsFails >= FAILS || nd_bool())) {
		++vsCmds;
		REACH("command");
		uint8_t * p = b;
		uint8_t mask = nd_pick(0, 3), cfg = nd_pick(0, 3);
		if (nd_bool())
			mask |= 0x80;
		p[0] = 0;
		p[1] = 4;
		p[2] = 0;
		p[3] = 6;
		p[4] = mask;
		p[5] = cfg;
		if (mask & 1)
			mSyncOnly = cfg & 1;
		if (mask & 2)
			mExtOnly = cfg >> 1 & 1;
		if (mask & 0x80)
			mSynced = false;
		return 6;
	}
	++vsFails;
	sk[s].dead = true;
	REACH("closed by server");
	return nd_bool() ? 0 : -1;
}
int vs_shutdown(int fd, int how)
{
	sk[vsSock(fd)].shut = true;
	return 0;
}
int vs_close(int fd)
{
	sk[vsSock(fd)].open = false;
	return 0;
}
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s)
{
	*s = 0x1a2b1a01;
	return SERIAL_RETURN_SUCCESS;
}

/* receiver -------------------------------------------------------------- */
static uint8_t vsRest[64];
static unsigned vsRestN, vsRestAt;
static bool vsInUp;
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() { vsInUp = false; }
void RC_INPUT_connect()
{
	CHECK(vsCur == TV, "only the receive thread connects the input");
	vsYield();
	vsInUp = true;
	mSynced = false;
}
size_t RC_INPUT_write(uint8_t * b, size_t n) { return n; }
static void vsEsc(uint8_t * b, unsigned * n, uint8_t c)
{
	b[(*n)++] = c;
	if (c == 0x1a)
		b[(*n)++] = c;
}
/** one more item of the stream; returns its length */
static unsigned vsItem(uint8_t * b)
{
	unsigned n = 0, kind = nd_pick(0, KINDS);
	++vsItems;
	if (kind == 4) {
		/* garbage */
		b[n++] = 'x';
		b[n++] = 'y';
		if (nd_bool()) {
			b[n++] = 0x1a;
			b[n++] = 'z';
			b[n++] = 0;
		}
		REACH("garbage");
		return n;
	}
	uint8_t type = kind == 0 ? '2' : kind == 1 ? '3' : kind == 2 ? '4' : '1';
	uint64_t ts = 0x1a0000000000 | vsItems;
	if (type == '4' && nd_bool())
		ts = 0;
	unsigned pl = type == '1' ? 2 : type == '2' ? 7 : 14;
	b[n++] = 0x1a;
	b[n++] = type;
	for (int i = 40; i >= 0; i -= 8)
		vsEsc(b, &n, ts >> i);
	vsEsc(b, &n, 0x80);
#ifdef FREE
	uint8_t first = nd_u8(), end = nd_u8();
#else
	uint8_t first = 0x8d, end = 0x1a;
#endif
	vsEsc(b, &n, first);
	for (unsigned i = 1; i + 1 < pl; ++i)
		vsEsc(b, &n, 16 * i + vsItems);
	vsEsc(b, &n, type == '2' ? end : 0x1a);
	mP[mPn].type = type;
	mP[mPn].first = first;
	mP[mPn].ts = ts;
	mP[mPn].n = n;
	memcpy(mP[mPn].b, b, n);
	++mPn;
	return n;
}
size_t RC_INPUT_read(uint8_t * b, size_t len)
{
	CHECK(vsCur == TV && vsInUp, "only the receive thread reads the connected input");
	bool cutP = vsRestAt < vsRestN;
	if (cutP)
		--mPn; /* the last one is incomplete */
	typeof(mP[0]) last;
	if (cutP)
		last = mP[mPn];
	mDecide();
	vsYield();
	CHECK(len >= 128, "env: read buffer");
	if (vsInFails < INFAILS && nd_bool()) {
		++vsInFails;
		vsInUp = false;
		vsRestN = vsRestAt = 0;
		REACH("input failed");
		return 0;
	}
	unsigned n = 0;
	if (cutP) {
		mP[mPn++] = last;
		n = vsRestN - vsRestAt;
		memcpy(b, vsRest + vsRestAt, n);
		vsRestN = vsRestAt = 0;
		return n;
	}
	if (vsItems >= ITEMS) {
		th[TV].st = ST_IDLE;
		vsBlock();
		CHECK(0, "env: the stream has ended");
	}
	for (unsigned k = 0; k < BURST && vsItems < ITEMS; ++k) {
		unsigned before = mPn;
		vsRestN = vsItem(vsRest);
		vsRestAt = vsRestN;
		if (mPn != before && vsCuts < CUTS && nd_bool()) {
			++vsCuts;
			static const uint8_t at[] = { 1, 2, 9, 0 };
			unsigned c = at[nd_pick(0, 3)];
			vsRestAt = c ? c : vsRestN - 1;
			REACH("cut");
		}
		memcpy(b + n, vsRest, vsRestAt);
		n += vsRestAt;
		if (vsRestAt < vsRestN)
			break;
	}
	return n;
}

static void vsM(void * x) { NET_comp.main(); CHECK(0, "the connection loop never ends"); }
static void vsR(void * x) { RELAY_comp.main(); CHECK(0, "the relay loop never ends"); }
static void vsT(void * x) { TB_comp.main(); CHECK(0, "the talkback loop never ends"); }
static void vsV(void * x) { RECV_comp.main(); CHECK(0, "the receive loop never ends"); }

#ifdef LATEPOS
static void vsG(void * x)
{
	mG.begun = true;
	if (nd_bool()) {
		GPS_setPosition(47.5, 8.25, -2.0);
		vsYield();
		GPS_setHasFix(true);
		REACH("fix later");
	} else
		GPS_setPositionWithFix(47.5, 8.25, -2.0);
	mG.done = true;
	th[TG].st = ST_IDLE;
	vsBlock();
	CHECK(0, "env: thread has ended");
}
#endif
static void vsLogin(uint8_t type, unsigned n, const uint8_t * p)
{
	mL[mLn].b[0] = 0x1a;
	mL[mLn].b[1] = type;
	mL[mLn].n = 2;
	for (unsigned i = 0; i < n; ++i)
		vsEsc(mL[mLn].b, &mL[mLn].n, p[i]);
	++mLn;
}
static void vsPut32(uint8_t * p, uint32_t v)
{
	p[0] = v >> 24;
	p[1] = v >> 16;
	p[2] = v >> 8;
	p[3] = v;
}
static uint32_t vsNum(const char ** p)
{
	uint32_t v = 0;
	while (**p >= '0' && **p <= '9')
		v = v * 10 + (*(*p)++ - '0');
	if (**p == '.')
		++*p;
	return v;
}

int main(void)
{
#ifdef LATEPOS
	static void (* const fn[NT])(void *) = { vsM, vsR, vsT, vsV, vsG };
#else
	static void (* const fn[NT])(void *) = { vsM, vsR, vsT, vsV };
#endif
	const struct CFG_Section * s = BUF_comp.config;
	cfgInt(s, "StaticBacklog", STAT);
	cfgInt(s, "DynamicBacklog", 1);
	cfgInt(s, "DynamicIncrements", 1);
	cfgBool(s, "History", HIST);
	cfgBool(s, "GC", false);
	cfgInt(s, "GCInterval", 120);
	cfgInt(s, "GCLevel", 1);
	s->fix(s);
#ifdef FREE
	mExtOnly = nd_bool();
	mSyncOnly = nd_bool();
#endif
	cfgBool(FILTER_comp.config, "ModeSExtSquitterOnly", mExtOnly);
	cfgBool(FILTER_comp.config, "SyncFilter", mSyncOnly);
	cfgInt(RELAY_comp.config, "Timeout", 1500);
	const char * v = PACKAGE_VERSION;
	uint8_t t[40];
	LOGIN_setDeviceType(OPENSKY_DEVICE_TYPE_RADARCAPE);
	vsPut32(t, OPENSKY_DEVICE_TYPE_RADARCAPE);
	for (unsigned i = 4; i < 16; i += 4)
		vsPut32(t + i, vsNum(&v));
	vsLogin('A', 16, t);
	vsPut32(t, 0x1a2b1a01);
	vsLogin('5', 4, t);
	vsCur = TM;
#ifdef VARLOGIN
	bool pos = nd_bool(), user = nd_bool();
#else
	bool pos = true, user = false;
#endif
	BUF_comp.onReset();
	CHECK(BUF_comp.onConstruct(NULL), "env: construction");
	FILTER_comp.onConstruct(NULL);
	INPUT_comp.onConstruct(NULL);
	if (TB_comp.onConstruct)
		TB_comp.onConstruct(NULL);
#ifdef LATEPOS
	pos = false;
	GPS_reset();
	static const uint8_t w[24] = { 0x40, 0x47, 0xc0, 0, 0, 0, 0, 0, 0x40, 0x20, 0x80, 0, 0, 0, 0, 0, 0xc0 };
	vsLogin('7', 24, w);
	vsLate = mL[--mLn];
#endif
	if (pos) {
		GPS_reset();
		GPS_setPositionWithFix(47.5, 8.25, -2.0);
		static const uint8_t w[24] = { 0x40, 0x47, 0xc0, 0, 0, 0, 0, 0, 0x40, 0x20, 0x80, 0, 0, 0, 0, 0, 0xc0 };
		vsLogin('7', 24, w);
		/* the order on the wire is that of the documentation */
	}
	if (user) {
		LOGIN_setUsername("me\x1a");
		memset(t, 0, sizeof t);
		memcpy(t, "me\x1a", 3);
		vsLogin('C', 40, t);
	}
	for (int i = 0; i < NT; ++i)
		th[i].co = symx_co_create(fn[i], NULL);
	vsStarted = true;
	vsSwitch(TM);
	return 0;
}
