/* Included before every source of the library in the instrumented build: allocation and bulk-copy calls go to
   the checking runtime, exit() and assert() failures are reported as such. */
#ifndef VP_SHIM_H
#define VP_SHIM_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
#include <stddef.h>
void *vp_malloc(size_t n); void *vp_calloc(size_t n, size_t m); void *vp_realloc(void *p, size_t n);
void vp_free(void *p); int vp_posix_memalign(void **p, size_t al, size_t n);
void *vp_memcpy(void *d, const void *s, size_t n); void *vp_memset(void *d, int c, size_t n);
void *vp_memmove(void *d, const void *s, size_t n);
void vp_exit(int) __attribute__((noreturn));
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define posix_memalign vp_posix_memalign
#define memcpy vp_memcpy
#define memmove vp_memmove
#define memset vp_memset
#define exit vp_exit
#endif
