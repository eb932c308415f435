/*
 * The world around lib/scryptenc/scryptenc.c.
 *
 * Everything scryptenc.c calls is a model obeying its documented contract
 * with symbolic results.  The primitives are ideal functions: a hash, MAC or
 * key derivation over the same input yields the same output, any other input
 * yields an unrelated arbitrary value.  Data have symbolic lengths.
 */
#ifndef W_ENC_H_
#define W_ENC_H_
#include "vf.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "crypto_verify_bytes.h"
#include "humansize.h"
#include "insecure_memzero.h"
#include "memlimit.h"
#include "scryptenc.h"
#include "scryptenc_cpuperf.h"
#include "sha256.h"
#include "sysendian.h"
#include "warnp.h"

struct wfile {
	uint8_t * data;
	uint64_t len;		/* input: total length */
	uint64_t pos;		/* bytes read or accepted */
	int err, eof;
	unsigned int calls;
};
extern struct wfile win, wout;
extern FILE * const FIN;
extern FILE * const FOUT;
extern int w_faults;		/* streams may fail */
extern int w_xfaults;		/* library calls may fail */
extern unsigned int w_maxin, w_maxinfault;	/* bound on the number of reads */
extern int in_fault, out_fault;	/* a fault happened */
extern int malloc_failed, entropy_failed, expand_failed, ctr_failed, kdf_failed, mem_failed, perf_rc;
extern int live_keys, live_ctrs, live_mallocs;
extern unsigned int n_kdf, n_entropy, n_mem, n_perf, n_warn;
extern uint64_t w_memlimit;
extern double w_opps;
extern uint8_t w_salt[32];	/* the last entropy handed out */
extern size_t mt_maxmem;
extern double mt_frac;
/* The most recent key derivation. */
struct wkdf {
	const uint8_t * pw;
	uint64_t pwlen;
	uint8_t salt[32];
	uint64_t N;
	uint32_t r, p;
	uint8_t dk[64];
	int ok;
	uint8_t * where;
	int wiped;
};
extern struct wkdf kdf[4];

void w_init(void);
void w_input(uint64_t);
void w_check_wiped(void);
/* References: the ideal functions themselves. */
void ref_sha256(const uint8_t *, uint64_t, uint8_t[32]);
void ref_hmac(const uint8_t *, uint64_t, const uint8_t *, uint64_t, uint8_t[32]);
void ref_scrypt(const uint8_t *, uint64_t, const uint8_t *, uint64_t, uint64_t, uint32_t, uint32_t, uint8_t *, uint64_t);
const uint8_t * ref_keystream(const uint8_t key[32], uint64_t nonce);
#endif
