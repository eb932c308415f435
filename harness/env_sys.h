/* System calls become models (see w_sys.c / the harness). */
#ifndef ENV_SYS_H_
#define ENV_SYS_H_
#include <sys/types.h>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"
int vf_open(const char *, int, ...);
ssize_t vf_read(int, void *, size_t);
int vf_close(int);
void * vf_malloc(size_t);
void vf_free(void *);
#undef open
#define open vf_open
#undef open64
#define open64 vf_open
#undef read
#define read vf_read
#undef close
#define close vf_close
#undef malloc
#define malloc vf_malloc
#undef free
#define free vf_free
#endif
