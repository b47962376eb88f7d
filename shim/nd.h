/* Symbolic-input layer of the harnesses.  The symx_* functions are built into
 * the symbolic engine (symx/); symx/native.c implements them for the native
 * replay build, which takes the values from a recorded counterexample.
 *
 *  nd_*()     symbolic value (natively: next recorded value)
 *  ASSUME(c)  restricts what is explored (natively: exit 3 = "not this input")
 *  CHECK(c,m) the property (natively: message + exit 66)
 *  REACH(n)   witness n: some path must get here
 *  OBS(v)     value compared between the symbolic path and its native replay
 *  DONE()     regular end of this path
 */
#ifndef VERIF_ND_H
#define VERIF_ND_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef __cplusplus
extern "C" {
#endif
uint64_t symx_nd(unsigned width);
void symx_assume(int c);
void symx_check(int c, const char * msg);
void symx_reach(const char * label);
void symx_obs(uint64_t v);
void symx_done(void) __attribute__((noreturn));
uint64_t symx_conc(uint64_t v);          /* fork on every value of v */
int symx_co_create(void (*fn)(void *), void * arg);
void symx_co_switch(int co);
int symx_co_self(void);
int symx_and(int a, int b);              /* like && and ||, without forking */
int symx_or(int a, int b);
#ifdef __cplusplus
}
#endif

static inline uint8_t nd_u8(void) { return (uint8_t)symx_nd(8); }
static inline uint16_t nd_u16(void) { return (uint16_t)symx_nd(16); }
static inline uint32_t nd_u32(void) { return (uint32_t)symx_nd(32); }
static inline uint64_t nd_u64(void) { return symx_nd(64); }
static inline bool nd_bool(void) { return symx_nd(1) != 0; }
static inline double nd_f64(void)
{
	union { uint64_t u; double d; } x;
	x.u = symx_nd(64);
	return x.d;
}
#define ASSUME(c) symx_assume(!!(c))
#define CHECK(c, m) symx_check(!!(c), m)
#define REACH(n) symx_reach(n)
#define OBS(v) symx_obs((uint64_t)(v))
#define DONE() symx_done()

static inline uint32_t nd_range(uint32_t lo, uint32_t hi)
{
	uint32_t v = nd_u32();
	ASSUME(symx_and(v >= lo, v <= hi));
	return v;
}
/** value in lo..hi, one path for each of them */
static inline uint32_t nd_pick(uint32_t lo, uint32_t hi)
{
	return (uint32_t)symx_conc(nd_range(lo, hi));
}
#endif
