/* Included in front of every library source: routes the library's use of the
 * system allocator through functions of the harness. */
#ifndef HOOK_MALLOC_H
#define HOOK_MALLOC_H
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *mon_malloc(size_t size);
void *mon_calloc(size_t n, size_t size);
void *mon_realloc(void *block, size_t size);
void mon_free(void *block);
#ifdef __cplusplus
}
#else
#define malloc mon_malloc
#define calloc mon_calloc
#define realloc mon_realloc
#define free mon_free
#endif
#endif
