/* Fallback contracts for calls into other modules of the daemon that a
 * harness does not define itself: the environment may answer anything, and
 * nothing else happens.  Weak, so that a harness' own stub wins; on the
 * current tree none of these is called. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>

uint64_t symx_nd(unsigned width);
void symx_assume(int c);

#define W __attribute__((weak))
#define ANY (symx_nd(1) != 0)

W void NET_waitConnected(void) {}
W void NET_forceDisconnect(void) {}
W bool NET_checkConnected(void) { return ANY; }
W bool NET_send(const void * buf, size_t len)
{
	(void)(len ? ((const volatile uint8_t *)buf)[0] + ((const volatile uint8_t *)buf)[len - 1] : 0);
	return ANY;
}
W ssize_t NET_receive(uint8_t * buf, size_t len) { return symx_nd(1) ? -1 : 0; }
W void NET_getStatistics(uint64_t * s) { for (int i = 0; i < 6; ++i) s[i] = 0; }

W void BUF_flush(void) {}
W void BUF_flushUnlessHistoryEnabled(void) {}
W void BUF_runGC(void) {}
W const void * BUF_getFrame(void) { symx_assume(0); return NULL; }
W const void * BUF_getFrameTimeout(uint_fast32_t ms) { return NULL; }
W void BUFFER_getStatistics(uint64_t * s) { for (int i = 0; i < 12; ++i) s[i] = 0; }

W void FILTER_reset(void) {}
W void FILTER_setSynchronized(bool s) {}
W void FILTER_setSynchronizedFilter(bool s) {}
W void FILTER_setModeSExtSquitter(bool s) {}
W bool FILTER_filter(unsigned type, uint8_t first) { return ANY; }

W void GPS_reset(void) {}
W void GPS_resetNeedFlag(void) {}
W void GPS_setPositionWithFix(double a, double b, double c) {}
W void GPS_setPosition(double a, double b, double c) {}
W void GPS_setHasFix(bool f) {}
W bool GPS_sendPosition(void) { return ANY; }

W bool LOGIN_login(void) { return ANY; }
W void LOGIN_setDeviceType(unsigned t) {}
W void LOGIN_setUsername(const char * u) {}

W void INPUT_connect(void) {}
W void INPUT_disconnect(void) {}
W void INPUT_reconfigure(void) {}

W void TB_register(uint32_t t, size_t n, void * fn) {}
W void TB_unregister(uint32_t t) {}

W uint32_t UTIL_randInt(uint32_t n)
{
	uint32_t v = symx_nd(32);
	symx_assume(v < n);
	return v;
}

/* time passes unobserved */
W unsigned sleep(unsigned s) { return 0; }
W int usleep(unsigned us) { return 0; }
W int nanosleep(const void * a, void * b) { return 0; }
W int sched_yield(void) { return 0; }
