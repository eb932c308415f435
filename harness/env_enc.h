/* Environment of the scryptenc-level harnesses: libc stream and heap calls become models. */
#ifndef ENV_ENC_H_
#define ENV_ENC_H_
#include <sys/types.h>
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"

size_t vf_fread(void *, size_t, size_t, FILE *);
size_t vf_fwrite(const void *, size_t, size_t, FILE *);
int vf_ferror(FILE *);
int vf_feof(FILE *);
void vf_clearerr(FILE *);
int vf_fgetc(FILE *);
int vf_fputc(int, FILE *);
int vf_fflush(FILE *);
int vf_fprintf(FILE *, const char *, ...);
void * vf_malloc(size_t);
void * vf_calloc(size_t, size_t);
void vf_free(void *);
void vf_memzero(volatile void *, size_t);
#define fread vf_fread
#define fwrite vf_fwrite
#undef ferror
#define ferror vf_ferror
#undef feof
#define feof vf_feof
#undef clearerr
#define clearerr vf_clearerr
#undef fgetc
#undef getc
#define fgetc vf_fgetc
#define getc vf_fgetc
#undef fputc
#undef putc
#define fputc vf_fputc
#define putc vf_fputc
#define fflush vf_fflush
#undef fprintf
#define fprintf vf_fprintf
#undef stderr
#define stderr ((FILE *)&vf_stderr_obj)
extern char vf_stderr_obj;
#ifndef VF_OWN_MALLOC
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#endif
#endif
