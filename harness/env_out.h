/* Output is captured. */
#ifndef ENV_OUT_H_
#define ENV_OUT_H_
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include "vf.h"
int vf_fprintf(FILE *, const char *, ...);
int vf_vfprintf(FILE *, const char *, va_list);
int vf_vsnprintf(char *, size_t, const char *, va_list);
int vf_snprintf(char *, size_t, const char *, ...);
int vf_fputs(const char *, FILE *);
int vf_fputc(int, FILE *);
size_t vf_fwrite(const void *, size_t, size_t, FILE *);
void vf_syslog(int, const char *, ...);
void vf_lock(FILE *, int);
char * vf_strerror(int);
char * vf_strdup(const char *);
void * vf_malloc(size_t);
void vf_free(void *);
int vf_atexit(void (*)(void));
extern char vf_stderr_obj[16];
#undef stderr
#define stderr ((FILE *)(void *)vf_stderr_obj)
#define fprintf(...) vf_fprintf(__VA_ARGS__)
#define vfprintf(a, b, c) vf_vfprintf(a, b, c)
#define vsnprintf(a, b, c, d) vf_vsnprintf(a, b, c, d)
#define snprintf(...) vf_snprintf(__VA_ARGS__)
#define fputs(a, b) vf_fputs(a, b)
#undef putc
#define fputc(a, b) vf_fputc(a, b)
#define putc(a, b) vf_fputc(a, b)
#define fwrite(a, b, c, d) vf_fwrite(a, b, c, d)
#define syslog(...) vf_syslog(__VA_ARGS__)
#define openlog(a, b, c) do { } while (0)
#define closelog() do { } while (0)
#define flockfile(f) vf_lock(f, 1)
#define funlockfile(f) vf_lock(f, -1)
#define strerror(e) vf_strerror(e)
#undef strdup
#define strdup(a) vf_strdup(a)
#define malloc(a) vf_malloc(a)
#define free(a) vf_free(a)
#define atexit(f) vf_atexit(f)
#endif
