/*
 * vf.h: dual-mode harness support.
 *
 * Under CBMC (goto-cc) every vf_uN() call is a fresh solver variable,
 * VASSUME/VASSERT/VREACH are solver assumptions and obligations.  Under a
 * native compiler (VF_NATIVE) the same harness replays the values of a solver
 * counterexample, read in order from the file named by $VF_REPLAY, against the
 * real code; VASSERT failures end the program with status 99.
 */
#ifndef VF_H_
#define VF_H_
#include <stddef.h>
#include <stdint.h>

#if defined(VF_IRX) || defined(VF_NATIVE)
uint8_t vf_u8(void);
uint16_t vf_u16(void);
uint32_t vf_u32(void);
uint64_t vf_u64(void);
double vf_double(void);
double vf_lindouble(double lo, double hi);	/* the same, for values that are scaled rather than multiplied */
double vf_posdouble(double lo, double hi);	/* a value in [lo, hi], 0 < lo */
/* Fill n bytes at p with unconstrained bytes; n may be symbolic. */
void vf_array(void *, size_t);
/* Every byte of two ranges of n bytes is equal. */
void vf_assert_same(const void *, const void *, size_t, const char *);
/* d[i] = s[i] ^ pad[i] for i < n. */
void vf_xorpad(void *, const void *, size_t, const void *);
/* Decide a condition (fork), or split on all values. */
int vf_fork(int);
uint64_t vf_concrete(uint64_t);
int vf_symbolic(uint64_t);
/* out = F(in) with F an uninterpreted function of its input bytes. */
void vf_uf(const char *, void *, size_t, const void *, size_t);
/* Provably equal (all n bytes) / provably true; 0 when not provable. */
int vf_same(const void *, const void *, size_t);
int vf_must(int);
/* Like vf_array, and the bytes are secret: released storage must not contain them (after vf_watch_secrets). */
void vf_secret(void *, size_t);
void vf_watch_secrets(int);
int vf_heap_live(void);
int vf_is_freed(const void *);
size_t vf_obj_size(const void *);
#endif
#if defined(VF_IRX)
void vf_sym_assert(int, const char *);
void vf_sym_assume(int);
void vf_sym_reach(const char *);
void vf_sym_stop(void) __attribute__((noreturn));
#define VASSERT(c, m) vf_sym_assert((c) ? 1 : 0, m)
#define VASSUME(c) vf_sym_assume((c) ? 1 : 0)
#define VREACH(m) vf_sym_reach("REACH:" m)
#define VSTOP() vf_sym_stop()
#define VF_SYMBOLIC 1
#elif !defined(VF_NATIVE)
uint8_t nondet_vf_u8(void);
uint16_t nondet_vf_u16(void);
uint32_t nondet_vf_u32(void);
uint64_t nondet_vf_u64(void);
double nondet_vf_double(void);
static inline uint8_t vf_u8(void) { uint8_t vf_inval_u8 = nondet_vf_u8(); return (vf_inval_u8); }
static inline uint16_t vf_u16(void) { uint16_t vf_inval_u16 = nondet_vf_u16(); return (vf_inval_u16); }
static inline uint32_t vf_u32(void) { uint32_t vf_inval_u32 = nondet_vf_u32(); return (vf_inval_u32); }
static inline uint64_t vf_u64(void) { uint64_t vf_inval_u64 = nondet_vf_u64(); return (vf_inval_u64); }
static inline double vf_double(void) { double vf_inval_dbl = nondet_vf_double(); return (vf_inval_dbl); }
#define VASSUME(c) __CPROVER_assume(c)
#define VASSERT(c, m) __CPROVER_assert((c), "VF:" m)
#ifdef VF_NOREACH
#define VREACH(m) do { } while (0)
#else
#define VREACH(m) __CPROVER_assert(0, "REACH:" m)
#endif
#define VSTOP() __CPROVER_assume(0)
#define VF_SYMBOLIC 1
#else
void vf_native_assume(int, const char *);
void vf_native_assert(int, const char *);
void vf_native_stop(void);
#define VASSUME(c) vf_native_assume((c) ? 1 : 0, #c)
#define VASSERT(c, m) vf_native_assert((c) ? 1 : 0, m)
#define VREACH(m) do { } while (0)
#define VSTOP() vf_native_stop()
#define VF_SYMBOLIC 0
#endif

static inline int vf_bool(void) { return (vf_u8() & 1); }
static inline int vf_int(void) { return ((int)vf_u32()); }

/* Fill a buffer with symbolic bytes (small, constant sizes only). */
static inline void
vf_bytes(void * p, size_t n)
{
	for (size_t vf_i = 0; vf_i < n; vf_i++)
		((uint8_t *)p)[vf_i] = vf_u8();
}

/* The harness entry point. */
void vf_harness(void);
#endif
