/* Memory of crypto_scrypt.c is a model. */
#ifndef ENV_KDF_H_
#define ENV_KDF_H_
#include <sys/types.h>
#include <sys/mman.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
int vf_memalign(void **, size_t, size_t);
void * vf_mmap(void *, size_t, int, int, int, off_t);
int vf_munmap(void *, size_t);
void * vf_malloc(size_t);
void * vf_aligned_alloc(size_t, size_t);
void vf_free(void *);
void vf_abort(void) __attribute__((noreturn));
#define posix_memalign(a, b, c) vf_memalign(a, b, c)
#define aligned_alloc(a, b) vf_aligned_alloc(a, b)
#define mmap(a, b, c, d, e, f) vf_mmap(a, b, c, d, e, f)
#define munmap(a, b) vf_munmap(a, b)
#define malloc(a) vf_malloc(a)
#define free(a) vf_free(a)
#define abort() vf_abort()
#endif
