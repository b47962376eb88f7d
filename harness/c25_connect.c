/* C25: connecting to a host.  N  addresses
 * MANY  exactly N, of one family, no other fault than a refused connection */
#define socket vs_socket
#define connect vs_connect
#define close vs_close
#define shutdown vs_shutdown
#define getaddrinfo vs_getaddrinfo
#define freeaddrinfo vs_freeaddrinfo
#define gai_strerror vs_gai
#define inet_ntop vs_ntop
#include "nd.h"
#include "env.h"
#include <stdlib.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "heap.h"
#include "heap_end.h"
#define malloc vs_malloc
#define free vs_free
#include "util/net_common-posix.c"
#undef malloc
#undef free
#ifndef N
#define N 3
#endif

static struct addrinfo vsInfo[N];
static union { struct sockaddr_in a; struct sockaddr_in6 b; struct sockaddr s; } vsAddr[N];
static unsigned vsN, vsTried;
static bool vsUsed[N], vsResolved, vsOpen[N + 1], vsList, vsFree, vsSockFailed[N];
static int vsWith[N + 1], vsGood = -1;
static uint16_t vsPort;
static const char vsHost[] = "host";
static unsigned vsSocks;
static struct addrinfo * vsLast;
static bool vsCancel;

/* every blocking call may be where the thread is cancelled */
static void vsPoint(void)
{
#ifdef MANY
	return;
#endif
	if (!vs_cancelDisabled && nd_bool()) {
		vs_cancelDisabled = 1;
		vs_cancel_unwind();
		for (unsigned i = 0; i < vsSocks; ++i)
			CHECK(!vsOpen[i], "cancellation closes the socket");
		CHECK(!vsList && heapLive == 0, "cancellation releases the addresses");
		REACH("cancelled");
		DONE();
	}
}
uint32_t UTIL_randInt(uint32_t n)
{
	CHECK(n > 0, "random number in a range");
	return nd_pick(0, n - 1);
}
int vs_getaddrinfo(const char * node, const char * service, const struct addrinfo * hints, struct addrinfo ** res)
{
	CHECK(node == vsHost && !vsResolved, "the host is resolved once");
	CHECK(hints && hints->ai_family == AF_UNSPEC && hints->ai_socktype == SOCK_STREAM, "all kinds of addresses of stream sockets");
	vsResolved = true;
	vsPoint();
#ifdef MANY
	vsN = N;
#else
	if (nd_bool()) {
		vsN = 0;
		return EAI_NONAME;
	}
	vsN = nd_pick(1, N);
#endif
	for (unsigned i = 0; i < vsN; ++i) {
		static const int f[] = { AF_INET, AF_INET6, AF_UNIX };
#ifdef MANY
		vsInfo[i].ai_family = f[1];
#else
		vsInfo[i].ai_family = f[nd_pick(0, 2)];
#endif
		vsInfo[i].ai_socktype = SOCK_STREAM;
		vsInfo[i].ai_protocol = IPPROTO_TCP;
		vsInfo[i].ai_addr = &vsAddr[i].s;
		vsInfo[i].ai_addrlen = vsInfo[i].ai_family == AF_INET ? sizeof vsAddr[i].a : sizeof vsAddr[i].b;
		vsInfo[i].ai_next = i + 1 < vsN ? &vsInfo[i + 1] : NULL;
		vsAddr[i].s.sa_family = vsInfo[i].ai_family;
		if (vsInfo[i].ai_family == AF_INET)
			vsAddr[i].a.sin_addr.s_addr = i + 1;
		else
			vsAddr[i].b.sin6_addr.s6_addr[15] = i + 1;
	}
	*res = vsInfo;
	vsList = true;
	return 0;
}
void vs_freeaddrinfo(struct addrinfo * a)
{
	CHECK(vsList && a == vsInfo, "the addresses are released once");
	vsList = false;
}
const char * vs_gai(int e) { return "no"; }
const char * vs_ntop(int af, const void * a, char * b, socklen_t l)
{
	CHECK(l >= INET6_ADDRSTRLEN, "room for the text");
	b[0] = b[l - 1] = 0;
#ifndef MANY
	if (nd_bool())
		return NULL;
#endif
	return b;
}
static int vsNextFd(void) { return vsSocks == 1 ? 0 : 10 + vsSocks; }
static int vsFd[N + 1];
int vs_socket(int af, int type, int proto)
{
	CHECK(vsList && vsGood < 0, "sockets are opened while trying");
	CHECK((af == AF_INET || af == AF_INET6) && (type & 0xf) == SOCK_STREAM && (proto == IPPROTO_TCP || !proto), "kind of socket");
	CHECK(type & SOCK_CLOEXEC, "not inherited by other programs");
	for (unsigned i = 0; i < vsSocks; ++i)
		CHECK(!vsOpen[i], "one socket at a time");
	CHECK(vsSocks <= vsN, "one socket for each address");
#ifndef MANY
	if (nd_bool()) {
		++vsTried;
		return -1;
	}
#endif
	vsWith[vsSocks] = af;
	vsOpen[vsSocks] = true;
	++vsSocks;
	return vsFd[vsSocks - 1] = vsNextFd();
}
int vs_connect(int s, const struct sockaddr * a, socklen_t l)
{
	unsigned i, k;
	for (i = 0; i < vsSocks && (!vsOpen[i] || vsFd[i] != s); ++i)
		;
	CHECK(i < vsSocks, "an open socket is connected");
	CHECK(vsList, "addresses are still there");
	for (k = 0; k < vsN && a != &vsAddr[k].s; ++k)
		;
	CHECK(k < vsN && !vsUsed[k], "each address is tried once");
	vsUsed[k] = true;
	CHECK(l == vsInfo[k].ai_addrlen && vsWith[i] == vsInfo[k].ai_family, "address and socket match");
	uint16_t port = vsWith[i] == AF_INET ? vsAddr[k].a.sin_port : vsAddr[k].b.sin6_port;
	CHECK((uint16_t)(port << 8 | port >> 8) == vsPort, "port");
	if (vsWith[i] == AF_INET)
		CHECK(vsAddr[k].a.sin_addr.s_addr == k + 1, "address");
	else
		CHECK(vsAddr[k].b.sin6_addr.s6_addr[15] == k + 1, "address");
	vsPoint();
	++vsTried;
	if (nd_bool()) {
		errno = ECONNREFUSED;
		return -1;
	}
	vsGood = i;
	return 0;
}
int vs_close(int s)
{
	unsigned i;
	for (i = 0; i < vsSocks && (!vsOpen[i] || vsFd[i] != s); ++i)
		;
	CHECK(i < vsSocks, "an open socket is closed");
	/* a thread which is cancelled in close() leaves it open */
	vsPoint();
	vsOpen[i] = false;
	return 0;
}
int vs_shutdown(int s, int how) { return 0; }

int main(void)
{
	vsPort = nd_u16();
	int s = NETC_connect("X", vsHost, vsPort);
	CHECK(vsResolved, "the host is resolved");
	CHECK(!vsList && heapLive == 0, "the addresses are released");
	CHECK(!vs_cn, "clean-up handlers");
	unsigned usable = 0;
	for (unsigned i = 0; i < vsN; ++i)
		if (vsInfo[i].ai_family != AF_UNIX)
			++usable;
	if (s == -1) {
		CHECK(vsGood < 0, "a connected socket is returned");
		CHECK(vsTried == usable, "fails only after trying all addresses");
		for (unsigned i = 0; i < vsSocks; ++i)
			CHECK(!vsOpen[i], "all sockets are closed");
		REACH("failed");
	} else {
		CHECK(vsGood >= 0 && vsOpen[vsGood] && s == vsFd[vsGood], "the connected socket is returned");
		for (unsigned i = 0; i < vsSocks; ++i)
			CHECK((int)i == vsGood || !vsOpen[i], "all other sockets are closed");
		REACH("connected");
	}
	OBS(s);
	OBS(vsTried);
	return 0;
}
