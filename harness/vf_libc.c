/* C library string functions for the LLVM IR engine (the C standard's definitions).
 * memcmp-like functions are branch-free so that they do not split paths per byte. */
#ifdef VF_IRX
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
int vf_symbolic(uint64_t);
size_t strlen(const char * s) { size_t n; for (n = 0; s[n] != 0; n++) continue; return (n); }
static int
cmpn(const unsigned char * a, const unsigned char * b, size_t n)
{
	int r = 0;
	size_t i;
	for (i = n; i > 0; i--) {
		int d = (int)a[i - 1] - (int)b[i - 1];
		r = d != 0 ? d : r;
	}
	return (r);
}
int memcmp(const void * a, const void * b, size_t n) { return (cmpn(a, b, n)); }
int bcmp(const void * a, const void * b, size_t n) { return (cmpn(a, b, n)); }
int
strcmp(const char * a, const char * b)
{
	size_t i;
	for (i = 0; a[i] == b[i] && a[i] != 0; i++) continue;
	return ((int)(unsigned char)a[i] - (int)(unsigned char)b[i]);
}
int
strncmp(const char * a, const char * b, size_t n)
{
	size_t i;
	for (i = 0; i < n && a[i] == b[i] && a[i] != 0; i++) continue;
	return (i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i]);
}
char * strchr(const char * s, int c)
{
	for (;; s++) {
		if (*s == (char)c) return ((char *)(uintptr_t)s);
		if (*s == 0) return (NULL);
	}
}
char * strrchr(const char * s, int c)
{
	const char * r = NULL;
	for (;; s++) {
		if (*s == (char)c) r = s;
		if (*s == 0) return ((char *)(uintptr_t)r);
	}
}
size_t strcspn(const char * s, const char * set)
{
	size_t i, k;
	for (i = 0; s[i] != 0; i++)
		for (k = 0; set[k] != 0; k++)
			if (s[i] == set[k]) return (i);
	return (i);
}
size_t strspn(const char * s, const char * set)
{
	size_t i, k;
	for (i = 0; s[i] != 0; i++) {
		for (k = 0; set[k] != 0; k++)
			if (s[i] == set[k]) break;
		if (set[k] == 0) return (i);
	}
	return (i);
}
void * memchr(const void * p, int c, size_t n)
{
	const unsigned char * s = p;
	size_t i;
	for (i = 0; i < n; i++)
		if (s[i] == (unsigned char)c) return ((void *)(uintptr_t)(s + i));
	return (NULL);
}
char * strcpy(char * d, const char * s) { size_t i; for (i = 0; (d[i] = s[i]) != 0; i++) continue; return (d); }
char * stpcpy(char * d, const char * s) { size_t i; for (i = 0; (d[i] = s[i]) != 0; i++) continue; return (d + i); }
#undef malloc
#undef strdup
#undef isspace
#undef sigemptyset
#undef sigaddset
#undef sigfillset
#undef isdigit
#undef memcpy
void * malloc(size_t);
void * memcpy(void *, const void *, size_t);
#ifndef VF_NO_STRDUP
char * strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = malloc(n);
	if (p != NULL) memcpy(p, s, n);
	return (p);
}
#endif
int sigemptyset(sigset_t * s) { size_t i; for (i = 0; i < 128; i++) ((unsigned char *)s)[i] = 0; return (0); }
int sigfillset(sigset_t * s) { size_t i; for (i = 0; i < 128; i++) ((unsigned char *)s)[i] = 255; return (0); }
int sigaddset(sigset_t * s, int n) { ((unsigned char *)s)[(n - 1) / 8] |= (unsigned char)(1 << ((n - 1) % 8)); return (0); }
int isspace(int c) { return (c == ' ' || (c >= 9 && c <= 13)); }
int isdigit(int c) { return (c >= '0' && c <= '9'); }
int abs(int x) { return (x < 0 ? -x : x); }
#endif
