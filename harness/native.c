/* Native replay runtime for the harnesses (see vf.h). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE * rf;
static int exhausted;

static uint64_t
next(const char * type)
{
	char t[16];
	unsigned long long v;

	if (rf == NULL)
		return (0);
	if (exhausted || fscanf(rf, "%15s %llu", t, &v) != 2) {
		/* Inputs the solver never had to choose: any value will do. */
		exhausted = 1;
		return (0);
	}
	if (strcmp(t, type)) {
		(fprintf)(stderr, "VF-DESYNC: wanted %s got %s\n", type, t);
		_exit(77);
	}
	return (v);
}
uint8_t vf_u8(void) { return ((uint8_t)next("u8")); }
uint16_t vf_u16(void) { return ((uint16_t)next("u16")); }
uint32_t vf_u32(void) { return ((uint32_t)next("u32")); }
uint64_t vf_u64(void) { return ((uint64_t)next("u64")); }
double vf_double(void) { uint64_t v = next("dbl"); double d; memcpy(&d, &v, 8); return (d); }
double vf_lindouble(double lo, double hi) { double v = vf_double(); return (v < lo ? lo : v > hi ? hi : v); }
double vf_posdouble(double lo, double hi) { double v = vf_double(); return (v < lo ? lo : v > hi ? hi : v); }
void
vf_native_assume(int c, const char * s)
{
	if (!c) {
		(fprintf)(stderr, "VF-ASSUME-FAILED: %s\n", s);
		_exit(78);
	}
}
void
vf_native_assert(int c, const char * s)
{
	if (!c) {
		(fprintf)(stderr, "VF-ASSERT-FAILED: %s\n", s);
		_exit(99);
	}
}
void vf_native_stop(void) { _exit(0); }
void
vf_array(void * p, size_t n)
{
	unsigned long long dflt, cnt, i, v;
	char t[16];
	uint8_t * b = p;

	if (n > 0)
		memset(b, 0, n);
	if (rf == NULL || exhausted)
		return;
	if (fscanf(rf, "%15s %llu %llu", t, &dflt, &cnt) != 3) {
		exhausted = 1;
		return;
	}
	if (strcmp(t, "arr")) {
		(fprintf)(stderr, "VF-DESYNC: wanted arr got %s\n", t);
		_exit(77);
	}
	if (n > 0 && dflt != 0)
		memset(b, (int)dflt, n);
	while (cnt-- > 0) {
		if (fscanf(rf, "%llu %llu", &i, &v) != 2)
			_exit(77);
		if (i < n)
			b[i] = (uint8_t)v;
	}
}
void
vf_assert_same(const void * p, const void * q, size_t n, const char * m)
{
	vf_native_assert(n == 0 || (memcmp)(p, q, n) == 0, m);
}
void
vf_xorpad(void * d, const void * s, size_t n, const void * pad)
{
	size_t i;
	for (i = 0; i < n; i++)
		((uint8_t *)d)[i] = ((const uint8_t *)s)[i] ^ ((const uint8_t *)pad)[i];
}
int vf_same(const void * p, const void * q, size_t n) { (void)p; (void)q; (void)n; return (next("u8") != 0); }
int vf_must(int c) { (void)c; return (next("u8") != 0); }
void vf_secret(void * p, size_t n) { vf_array(p, n); }
void vf_watch_secrets(int v) { (void)v; }
int vf_fork(int c) { return (c != 0); }
uint64_t vf_concrete(uint64_t v) { return (v); }
int vf_symbolic(uint64_t v) { (void)v; return (0); }
int vf_heap_live(void) { return (0); }
int vf_is_freed(const void * p) { (void)p; return (1); }
size_t vf_obj_size(const void * p) { (void)p; return (0); }
/* Natively: some fixed mixing function of the input. */
void
vf_uf(const char * name, void * out, size_t nw, const void * in, size_t n)
{
	size_t i, k;
	for (k = 0; k < nw; k++) {
		uint64_t h = 0xcbf29ce484222325ULL ^ (k * 0x9e3779b97f4a7c15ULL);
		uint32_t w;
		for (i = 0; name[i]; i++)
			h = (h ^ (uint8_t)name[i]) * 0x100000001b3ULL;
		for (i = 0; i < n; i++) {
			h = (h ^ ((const uint8_t *)in)[i]) * 0x100000001b3ULL;
			h ^= h >> 29;
		}
		h *= 0xbf58476d1ce4e5b9ULL;
		w = (uint32_t)(h >> 32);
		memcpy((uint8_t *)out + 4 * k, &w, 4);
	}
}
extern void vf_harness(void);
int
main(void)
{
	const char * p = getenv("VF_REPLAY");

	if (p != NULL && (rf = (fopen)(p, "r")) == NULL) {
		(fprintf)(stderr, "VF: cannot open %s\n", p);
		return (76);
	}
	vf_harness();
	return (0);
}
