/* C01: escaping of outgoing messages */
#include "nd.h"
#include <stdlib.h>
#include "core/beast.c"

#ifndef N
#define N 6
#endif

int main(void)
{
	uint8_t in[N], out[2 * N + 2];
	size_t len = nd_range(0, N);
	size_t i;
	for (i = 0; i < N; ++i)
		in[i] = nd_u8();
	/* the input ends where its array ends, so any access past it is an error */
	const uint8_t * src = in + (N - len);
	uint8_t copy[N];
	size_t esc = 0;
	for (i = 0; i < N; ++i) {
		copy[i] = in[i];
		if (i >= N - len)
			esc += in[i] == 0x1a;
	}
	for (i = 0; i < sizeof out; ++i)
		out[i] = 0xa5;

	size_t r = BEAST_encode(out + 1, src, len);

	CHECK(r == len + esc, "encoded length is input length plus one per SYNC");
	CHECK(out[0] == 0xa5, "nothing written before the output buffer");
	/* every SYNC doubled, everything else verbatim */
	size_t o = 1;
	for (i = 0; i < N; ++i) {
		if (i >= N - len) {
			CHECK(out[o] == copy[i], "bytes are copied in order");
			++o;
			if (copy[i] == 0x1a) {
				CHECK(out[o] == 0x1a, "SYNC is doubled");
				++o;
			}
			CHECK(in[i] == copy[i], "input is left alone");
		}
	}
	for (i = 0; i < sizeof out; ++i)
		if (i >= o)
			CHECK(out[i] == 0xa5, "nothing written after the encoding");
	if (len == N && esc == N)
		REACH("all-sync");
	if (len == N && esc == 0)
		REACH("no-sync");
	if (len == 0)
		REACH("empty");
	return 0;
}
