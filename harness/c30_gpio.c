/* C30, C37: access to the pins */
#define open vs_open
#define close vs_close
#define mmap vs_mmap
#define munmap vs_munmap
#include "nd.h"
#include "env.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include "radarcape/gpio.c"
#ifndef STEPS
#define STEPS 3
#endif

static const uint32_t vsBase[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
static union { char c[4096]; uint32_t r[1024]; } vsPage[4];
static bool vsMapped[4], vsOpen, vsOpenFailed, vsMapFailed;

int vs_open(const char * n, int flags, ...)
{
	CHECK(!strcmp(n, "/dev/mem") && (flags & O_ACCMODE) == O_RDWR && !vsOpen, "the memory device is opened once");
	if (nd_bool()) {
		vsOpenFailed = true;
		return -1;
	}
	vsOpen = true;
	return nd_pick(0, 1) ? 7 : 0;
}
int vs_close(int fd)
{
	CHECK(vsOpen, "closed once");
	vsOpen = false;
	return 0;
}
void * vs_mmap(void * a, size_t l, int prot, int flags, int fd, off_t off)
{
	CHECK(vsOpen && !a && l == 4096 && (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED), "shared mapping");
	int i;
	for (i = 0; i < 4 && vsBase[i] != off; ++i)
		;
	CHECK(i < 4 && !vsMapped[i], "each controller is mapped once");
	if (nd_bool()) {
		vsMapFailed = true;
		return MAP_FAILED;
	}
	vsMapped[i] = true;
	return vsPage[i].c;
}
int vs_munmap(void * p, size_t l)
{
	int i;
	for (i = 0; i < 4 && (!vsMapped[i] || (void *)vsPage[i].c != p); ++i)
		;
	CHECK(i < 4 && l == 4096, "only mapped memory is released");
	vsMapped[i] = false;
	return 0;
}

enum { OE = 0x134 / 4, IN = 0x138 / 4, CLEAR = 0x190 / 4, SET = 0x194 / 4 };

int main(void)
{
	bool r = GPIO_comp.onConstruct(NULL);
	CHECK(!vsOpen, "the memory device is closed");
	CHECK(r == (!vsOpenFailed && !vsMapFailed), "success exactly if all controllers are mapped");
	for (int i = 0; i < 4; ++i)
		CHECK(vsMapped[i] == r, "all or nothing is mapped");
	if (!r) {
		REACH("failed");
		return 0;
	}
	uint32_t reg[4][4];
	static const uint16_t idx[4] = { OE, IN, CLEAR, SET };
	for (int c = 0; c < 4; ++c)
		for (int i = 0; i < 4; ++i)
			reg[c][i] = vsPage[c].r[idx[i]] = nd_u32();
	unsigned pin = 0;
	for (int s = 0; s < STEPS; ++s) {
		if (s && pin != 31 && pin != 32 && pin != 61)
			break;
		pin = s == 0 ? nd_pick(0, 127) : nd_pick(0, 1) ? 61 : 32;
		unsigned c = pin >> 5;
		uint32_t bit = UINT32_C(1) << (pin & 31), o;
		switch (nd_pick(0, 4)) {
		case 0:
			GPIO_set(pin);
			o = reg[c][3];
			reg[c][3] = vsPage[c].r[SET];
			CHECK(reg[c][3] == bit, "exactly the pin is set");
			break;
		case 1:
			GPIO_clear(pin);
			o = reg[c][2];
			reg[c][2] = vsPage[c].r[CLEAR];
			CHECK(reg[c][2] == bit, "exactly the pin is cleared");
			break;
		case 2:
			reg[c][1] = vsPage[c].r[IN] = nd_u32();
			o = GPIO_read(pin);
			CHECK(o == !!(reg[c][1] & bit), "the pin is read");
			break;
		case 3:
			GPIO_setDirection(pin, GPIO_DIRECTION_OUT);
			reg[c][0] &= ~bit;
			break;
		case 4:
			GPIO_setDirection(pin, GPIO_DIRECTION_IN);
			reg[c][0] |= bit;
			break;
		}
		for (int k = 0; k < 4; ++k)
			for (int i = 0; i < 4; ++i)
				CHECK(vsPage[k].r[idx[i]] == reg[k][i], "nothing else changes");
	}
	for (int k = 0; k < 4; ++k) {
		uint32_t any = 0;
		for (int i = 0; i < 4; ++i)
			vsPage[k].r[idx[i]] = 0;
		for (int i = 0; i < 1024; ++i)
			any |= vsPage[k].r[i];
		CHECK(!any, "no other register is written");
	}
	GPIO_comp.onDestruct(NULL);
	for (int i = 0; i < 4; ++i)
		CHECK(!vsMapped[i], "nothing stays mapped");
	REACH("worked");
	return 0;
}
