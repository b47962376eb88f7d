/* counted (and optionally failing) allocation for the code included after it;
 * #include "heap_end.h" afterwards.  HEAP_FAIL: allocations may fail */
#ifndef VERIF_HEAP_H
#define VERIF_HEAP_H
#include "nd.h"
#include <stdlib.h>
#include <string.h>
static unsigned heapLive;
static bool heapFailed, heapFailOn;
static bool vs_allocFails(void)
{
	if (heapFailOn && nd_bool()) {
		heapFailed = true;
		return true;
	}
	++heapLive;
	return false;
}
static void * vs_malloc(size_t n) { return vs_allocFails() ? NULL : malloc(n); }
static void * vs_calloc(size_t n, size_t m) { return vs_allocFails() ? NULL : calloc(n, m); }
static char * vs_strdup(const char * s) { return vs_allocFails() ? NULL : strdup(s); }
static void * vs_realloc(void * p, size_t n)
{
	if (p) {
		if (heapFailOn && nd_bool()) {
			heapFailed = true;
			return NULL;
		}
		return realloc(p, n);
	}
	return vs_malloc(n);
}
static void vs_free(void * p)
{
	if (p)
		--heapLive;
	free(p);
}
#endif
#undef strdup
#define malloc vs_malloc
#define calloc vs_calloc
#define realloc vs_realloc
#define strdup vs_strdup
#define free vs_free
