#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
