/* access to a component's configuration variables by their documented names */
#ifndef VERIF_CFG_H
#define VERIF_CFG_H
#include "nd.h"
#include "util/component.h"
#include "util/cfgfile.h"
static inline const struct CFG_Option * vs_opt(const struct CFG_Section * s, const char * name)
{
	for (size_t i = 0; i < s->n_opt; ++i) {
		const char * a = s->options[i].name, * b = name;
		while (*a && *a == *b)
			++a, ++b;
		if (*a == *b)
			return &s->options[i];
	}
	CHECK(0, "env: configuration option exists");
	return NULL;
}
static inline void cfgInt(const struct CFG_Section * s, const char * name, uint32_t v) { *(uint32_t *)vs_opt(s, name)->var = v; }
static inline void cfgBool(const struct CFG_Section * s, const char * name, bool v) { *(bool *)vs_opt(s, name)->var = v; }
static inline uint32_t cfgGetInt(const struct CFG_Section * s, const char * name) { return *(uint32_t *)vs_opt(s, name)->var; }
static inline bool cfgGetBool(const struct CFG_Section * s, const char * name) { return *(bool *)vs_opt(s, name)->var; }
#endif
