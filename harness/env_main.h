/* The program, with the system around it replaced by models. */
#ifndef ENV_MAIN_H_
#define ENV_MAIN_H_
#define __NO_CTYPE 1
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"
#define main scrypt_main
void vf_exit(int) __attribute__((noreturn));
FILE * vf_fopen(const char *, const char *);
FILE * vf_reopen(const char *, const char *, FILE *);
int vf_fclose(FILE *);
int vf_fflush(FILE *);
int vf_ferror(FILE *);
int vf_open(const char *, int, ...);
int vf_fprintf(FILE *, const char *, ...);
int vf_printf(const char *, ...);
int vf_fputs(const char *, FILE *);
int vf_puts(const char *);
int vf_atexit(void (*)(void));
int vf_access(const char *, int);
int vf_unlink(const char *);
uintmax_t vf_strtoumax(const char *, char **, int);
intmax_t vf_strtoimax(const char *, char **, int);
double vf_strtod(const char *, char **);
char * vf_getenv(const char *);
char * vf_strdup(const char *);
void vf_free(void *);
extern char vf_stdin_obj[16], vf_stdout_obj[16], vf_stderr_obj[16];
#undef stdin
#undef stdout
#undef stderr
#define stdin ((FILE *)(void *)vf_stdin_obj)
#define stdout ((FILE *)(void *)vf_stdout_obj)
#define stderr ((FILE *)(void *)vf_stderr_obj)
#define free(p) vf_free(p)
#define exit(c) vf_exit(c)
#define _exit(c) vf_exit(c)
#define fopen(a, b) vf_fopen(a, b)
#define freopen(a, b, c) vf_reopen(a, b, c)
#define fclose(a) vf_fclose(a)
#define fflush(a) vf_fflush(a)
#undef ferror
#define ferror(a) vf_ferror(a)
#define open(...) vf_open(__VA_ARGS__)
#define creat(a, b) vf_open(a, 01101, b)
#define truncate(a, b) vf_open(a, 01101, 0)
#define access(a, b) vf_access(a, b)
#define unlink(a) vf_unlink(a)
#define remove(a) vf_unlink(a)
#define fprintf(...) vf_fprintf(__VA_ARGS__)
#define printf(...) vf_printf(__VA_ARGS__)
#undef fputs
#undef puts
#define fputs(a, b) vf_fputs(a, b)
#define puts(a) vf_puts(a)
#define atexit(f) vf_atexit(f)
#define strtoumax(a, b, c) vf_strtoumax(a, b, c)
#define strtoimax(a, b, c) vf_strtoimax(a, b, c)
#define strtod(a, b) vf_strtod(a, b)
#define strtoul(a, b, c) ((unsigned long)vf_strtoumax(a, b, c))
#define strtoull(a, b, c) ((unsigned long long)vf_strtoumax(a, b, c))
#define strtol(a, b, c) ((long)vf_strtoimax(a, b, c))
#define strtoll(a, b, c) ((long long)vf_strtoimax(a, b, c))
#define atoi(a) ((int)vf_strtoimax(a, NULL, 10))
#define atol(a) ((long)vf_strtoimax(a, NULL, 10))
#define atof(a) vf_strtod(a, NULL)
#undef getenv
#define getenv(a) vf_getenv(a)
#undef strdup
#define strdup(a) vf_strdup(a)
#endif
