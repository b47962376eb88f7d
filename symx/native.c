/* Native side of shim/nd.h: replays recorded values (file in $ND_REPLAY). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/resource.h>

/* a replay that loops ends even if nobody waits for it any more */
__attribute__((constructor)) static void cpuLimit(void)
{
	struct rlimit l = { 60, 60 };
	setrlimit(RLIMIT_CPU, &l);
}

uint64_t symx_nd(unsigned width)
{
	static FILE * f;
	unsigned long long v;
	char line[256];
	if (!f) {
		const char * p = getenv("ND_REPLAY");
		f = p ? fopen(p, "r") : NULL;
		if (!f) {
			fprintf(stderr, "ND_REPLAY missing\n");
			_exit(4);
		}
	}
	do {
		if (!fgets(line, sizeof line, f))
			return 0;
	} while (line[0] == '#' || sscanf(line, "%llu", &v) != 1);
	return width >= 64 ? v : v & ((1ull << width) - 1);
}
void symx_assume(int c)
{
	if (!c) {
		fprintf(stderr, "ASSUME failed\n");
		_exit(3);
	}
}
void symx_check(int c, const char * m)
{
	if (!c) {
		fprintf(stderr, "CHECK failed: %s\n", m);
		_exit(66);
	}
}
void symx_reach(const char * l) { fprintf(stderr, "REACHED %s\n", l); }
void symx_obs(uint64_t v) { fprintf(stderr, "OBS %llu\n", (unsigned long long)v); }
void symx_done(void)
{
	fprintf(stderr, "PATH END\n");
	_exit(0);
}
uint64_t symx_conc(uint64_t v) { return v; }
int symx_and(int a, int b) { return a && b; }
int symx_or(int a, int b) { return a || b; }

#define MAXCO 16
#define STK (1 << 20)
static ucontext_t co[MAXCO];
static struct { void (*fn)(void *); void * arg; } coFn[MAXCO];
static int nco = 1, cur;
static void coMain(int i)
{
	coFn[i].fn(coFn[i].arg);
	fprintf(stderr, "CHECK failed: env: coroutine returned\n");
	_exit(66);
}
int symx_co_create(void (*fn)(void *), void * arg)
{
	int i = nco++;
	coFn[i].fn = fn;
	coFn[i].arg = arg;
	getcontext(&co[i]);
	co[i].uc_stack.ss_sp = malloc(STK);
	co[i].uc_stack.ss_size = STK;
	co[i].uc_link = NULL;
	makecontext(&co[i], (void (*)(void))coMain, 1, i);
	return i;
}
void symx_co_switch(int to)
{
	int from = cur;
	if (to == from)
		return;
	cur = to;
	swapcontext(&co[from], &co[to]);
}
int symx_co_self(void) { return cur; }
