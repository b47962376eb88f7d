/* C23: lists behave like sequences.  T  list variant (D, DC, S, SC),
 * K  operations after an initial pair of lists, N  elements */
#ifndef NOGENERIC
#include <config.h>
#endif
#include "nd.h"
#include <stdlib.h>
#include <string.h>
#include "util/list.h"

#define CC(a, b) a ## b
#define CAT(a, b) CC(a, b)
typedef struct CAT(LIST_List, T) List;
#ifdef DOUBLE
typedef struct LIST_LinkD Link;
#else
typedef struct LIST_LinkS Link;
#endif
struct Item {
	uint32_t before;
	Link link;
	uint32_t after;
};
static struct Item vsItem[N];
static List vsL[2];
/* reference */
static unsigned vsSeq[2][N], vsLen[2];
static bool vsIn[N];

static unsigned vsIndex(const Link * l)
{
	for (unsigned i = 0; i < N; ++i)
		if (l == &vsItem[i].link)
			return i;
	return N;
}
static void vsInsert(unsigned l, unsigned at, unsigned item)
{
	for (unsigned i = vsLen[l]++; i > at; --i)
		vsSeq[l][i] = vsSeq[l][i - 1];
	vsSeq[l][at] = item;
	vsIn[item] = true;
}
static unsigned vsRemove(unsigned l, unsigned at)
{
	unsigned r = vsSeq[l][at];
	--vsLen[l];
	for (unsigned i = at; i < vsLen[l]; ++i)
		vsSeq[l][i] = vsSeq[l][i + 1];
	vsIn[r] = false;
	return r;
}
static void vsVerify(void)
{
	for (unsigned l = 0; l < 2; ++l) {
		CHECK(LIST_empty(&vsL[l]) == !vsLen[l], "emptiness");
		unsigned i = 0;
		Link * k, * n;
		LIST_foreach(&vsL[l], k) {
			CHECK(i < vsLen[l] && vsIndex(k) == vsSeq[l][i], "forward order");
			CHECK(LIST_at(&vsL[l], i) == k, "element by position");
			CHECK(LIST_forward(LIST_begin(&vsL[l]), i) == k, "stepping forward");
			++i;
		}
		CHECK(i == vsLen[l], "forward iteration is complete");
		CHECK(LIST_at(&vsL[l], i) == LIST_end(&vsL[l]), "the end follows the last element");
		CHECK(LIST_next(LIST_end(&vsL[l])) == LIST_begin(&vsL[l]), "lists are circular");
		i = 0;
		LIST_foreachSafe(&vsL[l], k, n) {
			CHECK(i < vsLen[l] && vsIndex(k) == vsSeq[l][i], "forward order (safe)");
			++i;
		}
		CHECK(i == vsLen[l], "forward iteration is complete (safe)");
		i = 0;
		struct Item * item;
		LIST_foreachItem(&vsL[l], item, link) {
			CHECK(i < vsLen[l] && item == &vsItem[vsSeq[l][i]], "forward order (items)");
			++i;
		}
		CHECK(i == vsLen[l], "forward iteration is complete (items)");
		if (vsLen[l]) {
			i = 1;
			item = &vsItem[vsSeq[l][0]];
			LIST_foreachItem_continue(&vsL[l], item, link) {
				CHECK(i < vsLen[l] && item == &vsItem[vsSeq[l][i]], "forward order (continued)");
				++i;
			}
			CHECK(i == vsLen[l], "forward iteration is complete (continued)");
		}
		CHECK(LIST_itemSafe(&vsL[l], LIST_end(&vsL[l]), struct Item, link) == NULL, "the end is no item");
		CHECK(LIST_itemSafe(&vsL[l], LIST_begin(&vsL[l]), struct Item, link) == (vsLen[l] ? &vsItem[vsSeq[l][0]] : NULL), "first item");
#ifdef DOUBLE
		Link * link;
		i = vsLen[l];
		LIST_foreachRev(&vsL[l], link) {
			CHECK(i > 0 && vsIndex(link) == vsSeq[l][i - 1], "backward order");
			CHECK(LIST_rewind(LIST_beginRev(&vsL[l]), vsLen[l] - i) == link, "stepping backward");
			--i;
		}
		CHECK(i == 0, "backward iteration is complete");
		i = vsLen[l];
		LIST_foreachRevSafe(&vsL[l], link, n) {
			CHECK(i > 0 && vsIndex(link) == vsSeq[l][i - 1], "backward order (safe)");
			--i;
		}
		CHECK(i == 0, "backward iteration is complete (safe)");
		i = vsLen[l];
		LIST_foreachItemRev(&vsL[l], item, link) {
			CHECK(i > 0 && item == &vsItem[vsSeq[l][i - 1]], "backward order (items)");
			--i;
		}
		CHECK(i == 0, "backward iteration is complete (items)");
		if (vsLen[l]) {
			i = vsLen[l] - 1;
			item = &vsItem[vsSeq[l][i]];
			LIST_foreachItemRev_continue(&vsL[l], item, link) {
				CHECK(i > 0 && item == &vsItem[vsSeq[l][i - 1]], "backward order (continued)");
				--i;
			}
			CHECK(i == 0, "backward iteration is complete (continued)");
		}
#endif
	}
	for (unsigned i = 0; i < N; ++i)
		CHECK(vsItem[i].before == i && vsItem[i].after == ~i, "items are not altered");
}
static void vsLength(unsigned l)
{
#ifdef COUNT
	CHECK(LIST_length(&vsL[l]) == vsLen[l], "length");
#endif
}
static unsigned vsFree(void)
{
	unsigned i;
	for (i = 0; i < N; ++i)
		if (!vsIn[i])
			break;
	return i;
}

static void vsStep(void)
{
	unsigned l = nd_pick(0, 1), o = !l, at, i;
	List * const a = &vsL[l], * const b = &vsL[o];
	Link * r;
	switch (nd_pick(0, 12)) {
	case 0:
		i = vsFree();
		ASSUME(i < N);
		LIST_push(a, &vsItem[i].link);
		vsInsert(l, vsLen[l], i);
		break;
	case 1:
		i = vsFree();
		ASSUME(i < N);
		LIST_unshift(a, &vsItem[i].link);
		vsInsert(l, 0, i);
		break;
	case 2:
		r = LIST_shift(a);
		if (vsLen[l])
			CHECK(vsIndex(r) == vsRemove(l, 0), "shift returns the first element");
		else
			CHECK(r == LIST_end(a), "shift returns the end of an empty list");
		break;
	case 3:
		LIST_concatenatePush(a, b);
		while (vsLen[o])
			vsInsert(l, vsLen[l], vsRemove(o, 0));
		break;
	case 4:
		LIST_concatenateUnshift(a, b);
		while (vsLen[o])
			vsInsert(l, 0, vsRemove(o, vsLen[o] - 1));
		break;
	case 5:
		LIST_init(a);
		while (vsLen[l])
			vsRemove(l, 0);
		break;
	case 6:
		vsLength(l);
		break;
	case 7: {
		/* from a vector of unused items */
		ASSUME(vsLen[l] == 0);
		unsigned f = nd_pick(0, N), n = nd_pick(0, 3);
		ASSUME(f + n <= N);
		for (i = 0; i < n; ++i)
			ASSUME(!vsIn[f + i]);
		LIST_fromVector(a, vsItem + f, link, n);
		for (i = 0; i < n; ++i)
			vsInsert(l, i, f + i);
		break;
	}
#ifdef DOUBLE
	case 8:
		r = LIST_pop(a);
		if (vsLen[l])
			CHECK(vsIndex(r) == vsRemove(l, vsLen[l] - 1), "pop returns the last element");
		else
			CHECK(r == LIST_end(a), "pop returns the end of an empty list");
		break;
	case 9:
		ASSUME(vsLen[l]);
		at = nd_pick(0, vsLen[l] - 1);
		i = vsRemove(l, at);
		LIST_unlink(a, &vsItem[i].link);
		break;
	case 10:
		i = vsFree();
		ASSUME(i < N);
		at = nd_pick(0, vsLen[l]);
		LIST_insert(a, at < vsLen[l] ? &vsItem[vsSeq[l][at]].link : LIST_end(a), &vsItem[i].link);
		vsInsert(l, at, i);
		break;
	case 11: {
		/* the other list is overwritten */
		ASSUME(vsLen[o] == 0);
		at = nd_pick(0, vsLen[l]);
		r = at < vsLen[l] ? &vsItem[vsSeq[l][at]].link : LIST_end(a);
		memset(b, nd_bool() ? 0 : 0xa5, sizeof *b);
		switch (nd_pick(0, 5)) {
		case 0: LIST_separateFrom(a, b, r); goto from;
		case 1: LIST_separateUntil(a, b, r); goto until;
#ifdef COUNT
		case 2: LIST_separateFromFixDC(a, b, r); goto from;
		case 3: LIST_separateUntilFixDC(a, b, r); goto until;
		case 4: LIST_separateFromDC(a, b, r); goto from;
		case 5: LIST_separateUntilDC(a, b, r); goto until;
#endif
		default: ASSUME(0);
		}
from:
		while (vsLen[l] > at)
			vsInsert(o, vsLen[o], vsRemove(l, at));
		break;
until:
		for (; at; --at)
			vsInsert(o, vsLen[o], vsRemove(l, 0));
		break;
	}
#endif
	case 12: {
		/* unlink while iterating */
#ifdef DOUBLE
		Link * n;
		unsigned k = nd_pick(0, N - 1), j = 0;
		ASSUME(k < vsLen[l]);
		LIST_foreachSafe(a, r, n)
			if (j++ == k)
				LIST_unlink(a, r);
		CHECK(j == vsLen[l], "iteration continues after unlinking");
		vsRemove(l, k);
		break;
#endif
	}
	default:
		ASSUME(0);
	}
	vsVerify();
}

int main(void)
{
	for (unsigned i = 0; i < N; ++i) {
		vsItem[i].before = i;
		vsItem[i].after = ~i;
	}
	/* initial lists */
	LIST_init(&vsL[0]);
	LIST_init(&vsL[1]);
	unsigned n = nd_pick(0, N), m = nd_pick(0, N);
	ASSUME(n + m <= N);
	for (unsigned i = 0; i < n + m; ++i) {
		LIST_push(&vsL[i < n], &vsItem[i].link);
		vsInsert(i < n, vsLen[i < n], i);
	}
	vsVerify();
	for (unsigned k = 0; k < K; ++k)
		vsStep();
	vsLength(0);
	vsLength(1);
	REACH("end");
	return 0;
}
