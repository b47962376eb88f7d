/* C36: inputs for receiver and GPS receiver.  NET or UART, RC or TR */
#ifdef UARTIN
#define open vs_open
#define read vs_read
#define write vs_write
#define poll vs_poll
#define tcgetattr vs_tcgetattr
#define tcsetattr vs_tcsetattr
#define tcflush vs_tcflush
#define tcdrain vs_tcdrain
#define cfsetispeed vs_setispeed
#define cfsetospeed vs_setospeed
#define cfsetspeed vs_setspeed
#else
#define recv vs_recv
#define send vs_send
#define shutdown vs_shutdown
#endif
#define close vs_close
#define sleep vs_sleep
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <termios.h>
#include <sys/types.h>
#include <sys/socket.h>
#ifdef TR
#ifdef UARTIN
#include "trimble/trimble_input_uart.c"
#define SPEED B115200
#else
#include "trimble/trimble_input_network.c"
#endif
#define IN(x) TRIMBLE_INPUT_##x
#else
#ifdef UARTIN
#include "radarcape/uart.c"
#define SPEED B3500000
#else
#include "radarcape/network.c"
#endif
#define IN(x) RC_INPUT_##x
#endif
#ifndef STEPS
#define STEPS 3
#endif

#ifndef UARTIN
static const struct CFG_Section * vsSect;
static char * vsHost;
static uint_fast16_t * vsPort;
#endif
static bool vsOpen, vsCanWrite;
static int vsFd;
static bool vsIncomplete;
static unsigned vsOpens, vsBudget = 2, vsSlept, vsFails, vsWaits;
static bool vsConnecting, vsReading, vsWriting, vsTried, vsGone;
static uint8_t vsData[8];
static const uint8_t * vsBuf;
static size_t vsLen, vsGot;

static void vsCancelPoint(void)
{
	if (!vs_cancelDisabled && vsBudget && nd_bool()) {
		vs_cancelDisabled = 1;
		vs_cancel_unwind();
		IN(disconnect)();
		CHECK(!vsOpen, "nothing stays open");
		REACH("cancelled");
		DONE();
	}
}
static int vsOpened(void)
{
	CHECK(!vsOpen && vsConnecting, "one connection at a time");
	CHECK(!vsTried, "waits before trying again");
	vsTried = true;
	vsIncomplete = false;
	vsCancelPoint();
	if (vsBudget && nd_bool()) {
		--vsBudget;
		return -1;
	}
	vsOpen = true;
	vsGone = false;
	return vsFd = vsOpens++ ? 20 + vsOpens : 0;
}
unsigned vs_sleep(unsigned s)
{
	CHECK(vsConnecting && s > 0 && s <= 60, "waits before trying again");
	CHECK(vsTried, "tries before it waits");
	vsTried = false;
	vsCancelPoint();
	return 0;
}
int vs_close(int f)
{
	CHECK(vsOpen && f == vsFd, "an open descriptor is closed");
	vsOpen = false;
	return 0;
}
static void vsUse(int f)
{
	CHECK(vsOpen && f == vsFd, "the open descriptor is used");
	CHECK(!vsGone || vsWriting, "a failed connection is not used again");
}
static ssize_t vsDeliver(int f, void * b, size_t l)
{
	CHECK(vsReading && (uint8_t *)b >= vsBuf && (uint8_t *)b + l <= vsBuf + vsLen && l, "reads into the buffer");
	vsUse(f);
	vsCancelPoint();
	size_t n = nd_pick(1, 3);
	ASSUME(n <= l);
	memcpy(b, vsData + vsGot, n);
	vsGot += n;
	return n;
}
static ssize_t vsSent(int f, const void * b, size_t l)
{
	vsUse(f);
	vsCancelPoint();
	if (vsBudget && nd_bool()) {
		--vsBudget;
		++vsFails;
		vsIncomplete = true;
		return nd_pick(0, 1) ? -1 : 0;
	}
	if (!vsWriting)
		return l;
	CHECK(b == vsBuf && l == vsLen, "the given bytes are written");
	return vsGot = nd_pick(1, vsLen);
}
#ifdef UARTIN
static struct termios vsSet;
static bool vsIsSet;
int vs_open(const char * n, int flags, ...)
{
	CHECK(!strncmp(n, "/dev/tty", 8) && (flags & O_ACCMODE) == O_RDWR, "the serial port is opened");
	CHECK(flags & O_CLOEXEC, "the serial port is not inherited by other programs");
	vsIsSet = false;
	return vsOpened();
}
int vs_setispeed(struct termios * t, speed_t s) { t->c_ispeed = s; return 0; }
int vs_setospeed(struct termios * t, speed_t s) { t->c_ospeed = s; return 0; }
int vs_setspeed(struct termios * t, speed_t s) { t->c_ospeed = t->c_ispeed = s; return 0; }
static bool vsFailsNow(void)
{
	if (!vsBudget || !nd_bool())
		return false;
	--vsBudget;
	return true;
}
int vs_tcgetattr(int f, struct termios * t)
{
	vsUse(f);
	memset(t, 0, sizeof *t);
	t->c_iflag = nd_u32();
	t->c_oflag = nd_u32();
	t->c_lflag = nd_u32();
	t->c_cflag = B38400;
	return vsFailsNow() ? -1 : 0;
}
int vs_tcsetattr(int f, int o, const struct termios * t)
{
	vsUse(f);
	vsSet = *t;
	if (vsFailsNow())
		return -1;
	vsIsSet = true;
	return 0;
}
int vs_tcflush(int f, int w) { vsUse(f); return 0; }
int vs_tcdrain(int f) { vsUse(f); vsCancelPoint(); return 0; }
int vs_poll(struct pollfd * p, nfds_t n, int t)
{
	CHECK(n == 1 && (p->events & POLLIN) && t, "waits for data");
	vsUse(p->fd);
	vsCancelPoint();
	return 1;
}
ssize_t vs_read(int f, void * b, size_t l)
{
	if (vsBudget && nd_bool()) {
		--vsBudget;
		vsUse(f);
		switch (nd_pick(0, 2)) {
		case 0:
			errno = EAGAIN;
			return -1;
		case 1:
			return 0;
		}
		vsGone = true;
		errno = EIO;
		return -1;
	}
	return vsDeliver(f, b, l);
}
ssize_t vs_write(int f, const void * b, size_t l) { errno = EIO; return vsSent(f, b, l); }
#else
sock_t NETC_connect(const char * prefix, const char * host, uint16_t port)
{
	CHECK(host == vsHost && port == *vsPort, "the configured host and port");
	return vsOpened();
}
ssize_t vs_recv(int f, void * b, size_t l, int fl)
{
	CHECK(!(fl & MSG_PEEK), "data are consumed");
	if (vsBudget && nd_bool()) {
		--vsBudget;
		vsUse(f);
		vsGone = true;
		errno = EPIPE;
		return nd_pick(0, 1) ? -1 : 0;
	}
	return vsDeliver(f, b, l);
}
ssize_t vs_send(int f, const void * b, size_t l, int fl)
{
	CHECK(fl & MSG_NOSIGNAL, "a closed connection does not end the program");
	return vsSent(f, b, l);
}
int vs_shutdown(int f, int how)
{
	CHECK(vsOpen && f == vsFd, "an open descriptor is shut down");
	return 0;
}
void CFG_registerSection(const struct CFG_Section * s)
{
	CHECK(!vsSect && s->check, "configuration is registered");
	vsSect = s;
	for (size_t i = 0; i < s->n_opt; ++i)
		if (!strcasecmp(s->options[i].name, "Host"))
			vsHost = s->options[i].var;
		else if (!strcasecmp(s->options[i].name, "Port"))
			vsPort = s->options[i].var;
	CHECK(vsHost && vsPort, "options");
	vsCanWrite = true;
}
#endif

static void vsConnect(void)
{
	vsConnecting = true;
	vsTried = false;
	IN(connect)();
	vsConnecting = false;
	CHECK(vsOpen && vsTried, "connecting ends with a connection");
	CHECK(!vsIncomplete, "connecting is tried again if a write failed");
#ifdef UARTIN
	CHECK(vsIsSet && !(vsSet.c_iflag & (ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | PARMRK)) && !(vsSet.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)) && !(vsSet.c_oflag & OPOST),
		"bytes are transferred unchanged");
	CHECK(vsSet.c_ospeed == SPEED && vsSet.c_ispeed == SPEED, "speed");
	CHECK(SPEED != B3500000 || (vsSet.c_cflag & CRTSCTS), "flow control of the receiver");
#endif
	REACH("connected");
}

int main(void)
{
	for (unsigned i = 0; i < sizeof vsData; ++i)
		vsData[i] = nd_u8();
	IN(register)();
#ifndef UARTIN
	CHECK(vsCanWrite, "configuration is registered");
	vsHost[0] = nd_u8();
	*vsPort = nd_u16();
	bool ok = vsSect->check(vsSect);
	CHECK(ok == (vsHost[0] && *vsPort), "a missing host or port is rejected");
	if (!ok) {
		REACH("rejected");
		return 0;
	}
#endif
	IN(init)();
	vsConnect();
	for (unsigned s = 0; s < STEPS; ++s) {
		uint8_t buf[4];
		size_t r = 0;
		for (unsigned i = 0; i < 4; ++i)
			buf[i] = 0xe0 + i;
		vsGot = 0;
		vsBuf = buf;
		switch (nd_pick(0, 3)) {
		case 0:
			vsLen = nd_pick(1, 3);
			vsReading = true;
			r = IN(read)(buf, vsLen);
			vsReading = false;
			CHECK(r == vsGot, "the number of bytes delivered is returned");
			for (unsigned i = 0; i < 4; ++i)
				CHECK(buf[i] == (i < r ? vsData[i] : 0xe0 + i), "exactly the bytes delivered are returned");
			CHECK(!r == vsGone, "zero exactly on failure");
			if (!r) {
				REACH("lost");
				vsConnect();
			} else
				REACH("delivered");
			break;
		case 1:
			vsLen = nd_pick(1, 4);
			vsWriting = true;
			vsFails = 0;
			r = IN(write)(buf, vsLen);
			vsWriting = false;
#if !defined UARTIN && defined TR
			CHECK(r == vsLen, "nothing is written");
#else
			CHECK(r == (vsFails ? 0 : vsGot), "the number of bytes written is returned");
#endif
			if (!r)
				vsConnect();
			break;
		case 2:
			vsConnect();
			break;
		case 3:
			IN(disconnect)();
			CHECK(!vsOpen, "closed");
			if (nd_pick(0, 1))
				IN(disconnect)();
			vsConnect();
			break;
		}
		OBS(r);
	}
	IN(disconnect)();
	CHECK(!vsOpen, "nothing stays open");
	return 0;
}
