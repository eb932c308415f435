/* Streams, the terminal, signals and the environment become models. */
#ifndef ENV_PASS_H_
#define ENV_PASS_H_
#define __NO_CTYPE 1
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include <unistd.h>
#include "vf.h"
FILE * vf_fopen(const char *, const char *);
char * vf_fgets(char *, int, FILE *);
int vf_fgetc(FILE *);
size_t vf_fread(void *, size_t, size_t, FILE *);
int vf_ferror(FILE *);
int vf_feof(FILE *);
int vf_fclose(FILE *);
int vf_fileno(FILE *);
int vf_isatty(int);
int vf_tcgetattr(int, struct termios *);
int vf_tcsetattr(int, int, const struct termios *);
int vf_sigaction(int, const struct sigaction *, struct sigaction *);
int vf_raise(int);
int vf_printf(FILE *, const char *, ...);
char * vf_getenv(const char *);
char * vf_strdup(const char *);
void * vf_malloc(size_t);
extern char vf_stdin_obj[16], vf_stderr_obj[16];
#undef stdin
#undef stderr
#define stdin ((FILE *)(void *)vf_stdin_obj)
#define stderr ((FILE *)(void *)vf_stderr_obj)
#define fopen(a, b) vf_fopen(a, b)
#define fgets(a, b, c) vf_fgets(a, b, c)
#undef getc
#define fgetc(a) vf_fgetc(a)
#define getc(a) vf_fgetc(a)
#define fread(a, b, c, d) vf_fread(a, b, c, d)
#undef ferror
#undef feof
#define ferror(a) vf_ferror(a)
#define feof(a) vf_feof(a)
#define fclose(a) vf_fclose(a)
#define fileno(a) vf_fileno(a)
#define isatty(a) vf_isatty(a)
#define tcgetattr(a, b) vf_tcgetattr(a, b)
#define tcsetattr(a, b, c) vf_tcsetattr(a, b, c)
#ifndef VF_HARNESS
#define sigaction(a, b, c) vf_sigaction(a, b, c)
#endif
#define raise(a) vf_raise(a)
#define fprintf vf_printf
#define fputs(s, f) vf_printf(f, "%s", s)
#define getenv(a) vf_getenv(a)
#undef strdup
#define strdup(a) vf_strdup(a)
#define malloc(a) vf_malloc(a)
#endif
