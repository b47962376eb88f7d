/* Preemption at memory accesses.  A harness compiled with specs option
 * preempt=True gets a call-back before every load and store of the code (the
 * compiler's thread-sanitizer instrumentation, with these functions instead of
 * its run-time).  preemptRun(a, b) runs a() and, at one symbolic point of it,
 * b() as if on another thread; if b() needs a mutex a() holds there, that point
 * is no candidate. */
#ifndef VERIF_PREEMPT_H
#define VERIF_PREEMPT_H
#include "nd.h"
#define NOTSAN __attribute__((no_sanitize("thread")))
#ifndef PREEMPT_OWN /* harness has a preemptPoint of its own */
static bool preemptArmed, preemptNested, preemptDone;
static void (*preemptB)(void);
NOTSAN static void preemptPoint(void)
{
	if (!preemptArmed)
		return;
	preemptArmed = false;
	if (nd_bool()) {
		preemptNested = true;
		preemptDone = true;
		preemptB();
		preemptNested = false;
	} else
		preemptArmed = true;
}
NOTSAN static void preemptRun(void (*a)(void), void (*b)(void))
{
	preemptB = b;
	preemptDone = false;
	preemptArmed = true;
	a();
	preemptArmed = false;
	if (!preemptDone)
		b();
}
#endif
#define TSANF(n) NOTSAN void __tsan_##n(void * p) { preemptPoint(); }
TSANF(read1) TSANF(read2) TSANF(read4) TSANF(read8) TSANF(read16)
TSANF(write1) TSANF(write2) TSANF(write4) TSANF(write8) TSANF(write16)
TSANF(unaligned_read2) TSANF(unaligned_read4) TSANF(unaligned_read8) TSANF(unaligned_read16)
TSANF(unaligned_write2) TSANF(unaligned_write4) TSANF(unaligned_write8) TSANF(unaligned_write16)
TSANF(vptr_read)
NOTSAN void __tsan_init(void) {}
NOTSAN void __tsan_func_entry(void * p) {}
NOTSAN void __tsan_func_exit(void) {}
void * memcpy(void *, const void *, size_t);
void * memmove(void *, const void *, size_t);
void * memset(void *, int, size_t);
/* copies are interrupted in between, too */
NOTSAN static size_t preemptPart(size_t n)
{
	return n < 16 ? n : ((n + 3) / 4 + 7) & ~(size_t)7;
}
NOTSAN void * __tsan_memcpy(void * d, const void * s, size_t n)
{
	for (size_t i = 0, k = preemptPart(n); i < n; i += k) {
		preemptPoint();
		memcpy((char *)d + i, (const char *)s + i, n - i < k ? n - i : k);
	}
	return d;
}
NOTSAN void * __tsan_memmove(void * d, const void * s, size_t n) { preemptPoint(); return memmove(d, s, n); }
NOTSAN void * __tsan_memset(void * d, int c, size_t n)
{
	for (size_t i = 0, k = preemptPart(n); i < n; i += k) {
		preemptPoint();
		memset((char *)d + i, c, n - i < k ? n - i : k);
	}
	return d;
}
#endif
