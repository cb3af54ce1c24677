// Included before every library source in the "fault" flavour: the library's requests for memory go through the monitor,
// which can refuse one of them (see tree.cpp).
#ifndef __cplusplus
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
void *vf_malloc(size_t);
void *vf_calloc(size_t, size_t);
void *vf_realloc(void *, size_t);
int vf_memalign(void **, size_t, size_t);
void *vf_mmap(void *, size_t, int, int, int, off_t);
unsigned vf_sleep(unsigned);
#define malloc(n) vf_malloc(n)
#define calloc(n, m) vf_calloc(n, m)
#define realloc(p, n) vf_realloc(p, n)
#define posix_memalign(p, a, n) vf_memalign(p, a, n)
#define mmap(a, n, p, f, d, o) vf_mmap(a, n, p, f, d, o)
#define sleep(n) vf_sleep(n)
#endif
