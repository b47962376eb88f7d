/* C39: running until the program is told to stop */
#define sigwait vs_sigwait
#define pthread_sigmask vs_sigmask
#include "nd.h"
#include "env.h"
#include <signal.h>
/* sets of signals, one bit each */
#define SET(s) (*(uint64_t *)(s))
#define BIT(n) (UINT64_C(1) << (n))
#undef sigemptyset
#undef sigfillset
#undef sigaddset
#undef sigdelset
#define sigemptyset(s) (SET(s) = 0, 0)
#define sigfillset(s) (SET(s) = ~UINT64_C(0), 0)
#define sigaddset(s, n) (SET(s) |= BIT(n), 0)
#define sigdelset(s, n) (SET(s) &= ~BIT(n), 0)
#include "util/util.c"

static uint64_t vsMask, vsMask0;
static unsigned vsWaits;
static bool vsFail;
int vs_sigmask(int how, const sigset_t * set, sigset_t * old)
{
	if (!vsWaits && nd_bool()) {
		vsFail = true;
		return EINVAL;
	}
	if (old)
		SET(old) = vsMask;
	if (set)
		switch (how) {
		case SIG_BLOCK: vsMask |= SET(set); break;
		case SIG_UNBLOCK: vsMask &= ~SET(set); break;
		case SIG_SETMASK: vsMask = SET(set); break;
		default: CHECK(0, "mode of the mask");
		}
	return 0;
}
int vs_sigwait(const sigset_t * set, int * sig)
{
	CHECK(SET(set) & BIT(SIGINT), "the program waits for being interrupted");
	CHECK((SET(set) & ~vsMask) == 0, "signals waited for are blocked");
	for (int i = 1; i < 32; ++i)
		if (i != SIGINT && i != SIGTERM && i != SIGQUIT && i != SIGHUP)
			CHECK(!(SET(set) & BIT(i)), "other signals do not stop the program regularly");
	++vsWaits;
	if (nd_bool()) {
		vsFail = true;
		return EINVAL;
	}
	*sig = nd_pick(0, 31);
	ASSUME(*sig && (SET(set) & BIT(*sig)));
	return 0;
}
static void vsEmerg(void)
{
	CHECK(vsFail, "the program is not stopped without need");
	REACH("failed");
}

int main(void)
{
	env_onEmerg = vsEmerg;
	vsMask = vsMask0 = nd_bool() ? 0 : BIT(SIGINT) | BIT(SIGPIPE);
	UTIL_waitSigInt();
	CHECK(vsWaits == 1 && !vsFail, "the program runs until it is interrupted");
	CHECK(vsMask == vsMask0, "the mask of signals is restored");
	REACH("end");
	return 0;
}
