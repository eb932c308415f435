/*
 * C01-C06, C11: the encryption and decryption entry points of scryptenc.c, for
 * data, passphrases and parameters of symbolic content and length.
 * PROP selects the assertions, MODE the entry point.
 */
#include <string.h>
#include "w_enc.h"
#undef malloc
#undef free

#define ENCBUF 1
#define DECBUF 2
#define ENCFILE 3
#define DECFILE 4
#define RT_BB 5		/* round trips: buffer/stream to buffer/stream */
#define RT_BF 6
#define RT_FB 7
#define RT_FF 8
#define INFO 9
#define PREPONLY 10

#ifndef MAXL
#define MAXL (1 << 24)
#endif
#define MAXPW (1 << 20)
#ifndef MAXINFAULT
#define MAXINFAULT 1	/* at most this many read errors (the caller may go on reading after one) */
#endif

static uint8_t * pw;
static uint64_t pwlen;
static struct scryptenc_params P;
static int verbose, force;
static int rc;

static void
common(void)
{

	w_init();
	pwlen = vf_u64();
	VASSUME(pwlen <= MAXPW);
	pw = malloc(pwlen);
	vf_array(pw, pwlen);
	P.maxmem = vf_u64();
	P.maxmemfrac = 0.5;
	P.maxtime = 300.0;
	w_memlimit = vf_u64();
	w_opps = 1000000.0;
#ifdef VERBOSE
	verbose = VERBOSE;
#else
	verbose = vf_fork(vf_bool());
#endif
#ifdef FORCE
	force = FORCE;
#else
	force = vf_fork(vf_bool());
#endif
}

/* Explicit parameters; valid ones if wanted. */
static void
explicit_params(int valid)
{

	P.logN = vf_int();
	P.r = vf_u32();
	P.p = vf_u32();
	VASSUME(P.logN != 0 && P.r != 0 && P.p != 0);
	if (valid) {
		VASSUME(P.logN >= 1 && P.logN <= 63);
		VASSUME((uint64_t)P.r * P.p < 0x40000000);
	}
}
static int
params_ok(uint64_t logN, uint32_t r, uint32_t p)
{

	return (vf_fork(logN >= 1 && logN <= 63) && vf_fork((uint64_t)r * p < 0x40000000) && vf_fork(r != 0) && vf_fork(p != 0));
}

/* The documented layout of o[0, olen) as the encryption of in[0, L). */
static void
check_layout(const uint8_t * o, uint64_t olen, const uint8_t * in, uint64_t L)
{
	uint8_t h[96], dk[64], t[32];
	const uint8_t * ks;
	uint8_t * e;

	VASSERT(olen == L + 128, "output is exactly 128 bytes longer than the input");
	VASSERT(n_entropy >= 1, "a fresh salt is obtained");
	memcpy(h, "scrypt", 7);
	h[7] = (uint8_t)P.logN;
	h[8] = (uint8_t)(P.r >> 24); h[9] = (uint8_t)(P.r >> 16); h[10] = (uint8_t)(P.r >> 8); h[11] = (uint8_t)P.r;
	h[12] = (uint8_t)(P.p >> 24); h[13] = (uint8_t)(P.p >> 16); h[14] = (uint8_t)(P.p >> 8); h[15] = (uint8_t)P.p;
	memcpy(h + 16, w_salt, 32);
	ref_sha256(h, 48, t);
	memcpy(h + 48, t, 16);
	ref_scrypt(pw, pwlen, w_salt, 32, (uint64_t)1 << P.logN, P.r, P.p, dk, 64);
	ref_hmac(dk + 32, 32, h, 64, t);
	memcpy(h + 64, t, 32);
	vf_assert_same(o, h, 16, "magic, version and parameters");
	vf_assert_same(o + 16, h + 16, 32, "salt");
	vf_assert_same(o + 48, h + 48, 16, "header checksum");
	vf_assert_same(o + 64, h + 64, 32, "header signature");
	ks = ref_keystream(dk, 0);
	e = malloc(L);
	vf_xorpad(e, in, L, ks);
	vf_assert_same(o + 96, e, L, "payload is the AES256-CTR encryption of the input");
	ref_hmac(dk + 32, 32, o, 96 + L, t);
	vf_assert_same(o + 96 + L, t, 32, "trailing signature covers everything before it");
	VREACH("a successful encryption");
}

/* What an encryption must return, given what its environment did. */
static int
expect_enc(int isfile)
{

	if (P.logN == 0 || !force) {
		if (mem_failed)
			return (SCRYPT_ELIMIT);
		if (perf_rc)
			return (perf_rc);
	}
	if (entropy_failed)
		return (SCRYPT_ESALT);
	if (kdf_failed)
		return (SCRYPT_EKEY);
	if (expand_failed)
		return (SCRYPT_EOPENSSL);
	if (ctr_failed)
		return (SCRYPT_ENOMEM);
	(void)isfile;
	return (SCRYPT_OK);
}

/* Release discipline (C11) after an operation returned. */
static void
check_clean(void)
{

	w_check_wiped();
	vf_watch_secrets(0);
	if (PROP == 11) {
		VASSERT(live_keys == 0, "every expanded key is released");
		VASSERT(live_ctrs == 0, "every cipher stream is released");
		VASSERT(live_mallocs == 0, "every allocation is released");
	}
}

/*
 * What decrypting in[0, len) must give: the documented classification in the
 * documented order.  On success (or a bad trailing signature) *plain is the
 * expected plaintext.
 */
static int
expect_dec(const uint8_t * in, uint64_t len, int isfile, uint8_t ** plain)
{
	uint8_t t[32], dk[64];
	uint64_t hdr = isfile ? 96 : 128, logN;
	uint32_t r, p;

	*plain = NULL;
	if (vf_fork(len < 7) || vf_fork((memcmp)(in, "scrypt", 6) != 0)) {
		VASSERT(PROP != 4 || n_kdf == 0, "no key derivation without the magic");
		return (SCRYPT_EINVAL);
	}
	if (vf_fork(in[6] != 0)) {
		VASSERT(PROP != 4 || n_kdf == 0, "no key derivation for another version");
		return (SCRYPT_EVERSION);
	}
	if (vf_fork(len < hdr)) {
		VASSERT(PROP != 4 || n_kdf == 0, "no key derivation for a short input");
		return (SCRYPT_EINVAL);
	}
	logN = in[7];
	r = ((uint32_t)in[8] << 24) | ((uint32_t)in[9] << 16) | ((uint32_t)in[10] << 8) | in[11];
	p = ((uint32_t)in[12] << 24) | ((uint32_t)in[13] << 16) | ((uint32_t)in[14] << 8) | in[15];
	ref_sha256(in, 48, t);
	if (vf_fork((memcmp)(in + 48, t, 16) != 0)) {
		VASSERT(PROP != 4 || n_kdf == 0, "no key derivation with a bad header checksum");
		return (SCRYPT_EINVAL);
	}
	if (!params_ok(logN, r, p)) {
		VASSERT(PROP != 4 || n_kdf == 0, "no key derivation with invalid parameters");
		return (SCRYPT_EINVAL);
	}
	if (!force) {
		if (mem_failed)
			return (SCRYPT_ELIMIT);
		if (perf_rc)
			return (perf_rc);
		/* The resource verdicts themselves are the subject of C08. */
		if (rc == SCRYPT_ETOOBIG || rc == SCRYPT_ETOOSLOW || rc == SCRYPT_EBIGSLOW) {
			VASSERT(PROP != 4 || n_kdf == 0, "no key derivation when a resource limit is exceeded");
			return (rc);
		}
	}
	if (kdf_failed)
		return (SCRYPT_EKEY);
	ref_scrypt(pw, pwlen, in + 16, 32, (uint64_t)1 << logN, r, p, dk, 64);
	ref_hmac(dk + 32, 32, in, 64, t);
	if (vf_fork((memcmp)(in + 64, t, 32) != 0)) {
		VREACH("wrong passphrase");
		return (SCRYPT_EPASS);
	}
#ifdef PREP_STOPS
	return (SCRYPT_OK);
#endif
	if (expand_failed)
		return (SCRYPT_EOPENSSL);
	if (ctr_failed)
		return (SCRYPT_ENOMEM);
	if (vf_fork(len < 128))
		return (SCRYPT_EINVAL);
	*plain = malloc(len - 128);
	vf_xorpad(*plain, in + 96, len - 128, ref_keystream(dk, 0));
	ref_hmac(dk + 32, 32, in, len - 32, t);
	if (vf_fork((memcmp)(in + len - 32, t, 32) != 0)) {
		VREACH("bad trailing signature");
		return (SCRYPT_EINVAL);
	}
	return (SCRYPT_OK);
}

static void
dec_verdict(int e)
{

	if (PROP == 2)
		VASSERT(rc != SCRYPT_OK || e == SCRYPT_OK, "decryption succeeds only for authentic data");
	if (PROP == 4)
		VASSERT(rc == e || (malloc_failed && rc == SCRYPT_ENOMEM), "documented error code");
	if (rc == SCRYPT_OK)
		VREACH("a successful decryption");
	if (rc == SCRYPT_EPASS)
		VREACH("EPASS");
}

void
vf_harness(void)
{
	uint64_t L, outlen = 0;
	uint8_t * in, * incopy, * out, * plain, * dec;
	struct scryptenc_params P2;
	int e;

	common();
#ifdef XFAULTS
	w_xfaults = 1;
#endif
#if MODE == ENCBUF || MODE == RT_BB || MODE == RT_BF
	L = vf_u64();
	VASSUME(L <= MAXL);
	in = malloc(L);
	vf_array(in, L);
	incopy = malloc(L);
	memcpy(incopy, in, L);
	out = malloc(L + 128);
	if (MODE != ENCBUF)
		explicit_params(1);
#ifdef AUTO
	P.maxtime = vf_double();
#else
	else
		explicit_params(0);
#endif
	rc = scryptenc_buf(in, L, out, pw, pwlen, &P, verbose, force);
	check_clean();
	if (PROP == 5) {
		vf_assert_same(in, incopy, L, "the input is not modified");
		if (rc == 0)
			VREACH("encrypted");
	}
	if (PROP == 4 || PROP == 3) {
#ifndef AUTO
		if (!vf_fork(P.logN >= 1 && P.logN <= 63) || !vf_fork((uint64_t)P.r * P.p < 0x40000000)) {
			VASSERT(rc == SCRYPT_EPARAM && n_kdf == 0, "invalid explicit parameters are refused");
			VREACH("EPARAM");
			return;
		}
#endif
		VASSERT(rc == expect_enc(0), "documented error code");
	}
	if (PROP == 3 && rc == SCRYPT_OK)
		check_layout(out, L + 128, in, L);
#endif
#if MODE == RT_BB || MODE == RT_BF
	VASSERT(rc == SCRYPT_OK || n_kdf == 0 || w_xfaults, "encryption succeeds");
	if (rc != SCRYPT_OK)
		return;
	VASSERT(n_mem == 0 || !force, "no limits are applied when forced");
#endif
#if MODE == ENCFILE || MODE == RT_FB || MODE == RT_FF
	L = vf_u64();
	VASSUME(L <= MAXL);
	w_input(L);
	in = win.data;
	w_faults = 0;
#ifdef FAULTS
	w_faults = 1;
#endif
	w_maxin = MAXIN;
	w_maxinfault = MAXINFAULT;
	if (MODE != ENCFILE)
		explicit_params(1);
	else
		explicit_params(0);
	rc = scryptenc_file(FIN, FOUT, pw, pwlen, &P, verbose, force);
	check_clean();
	if (PROP == 6) {
		VASSERT(rc != SCRYPT_OK || (!in_fault && !out_fault), "no stream fault is reported as success");
		if (in_fault || out_fault) {
			VASSERT((rc == SCRYPT_ERDFILE && in_fault) || (rc == SCRYPT_EWRFILE && out_fault), "stream faults get their error code");
			if (rc == SCRYPT_ERDFILE)
				VREACH("read error");
			if (rc == SCRYPT_EWRFILE)
				VREACH("write error");
		}
		if (rc == SCRYPT_OK)
			VASSERT(win.pos == L && win.eof, "the whole input was read");
	}
	if (PROP == 3) {
		if (!vf_fork(P.logN >= 1 && P.logN <= 63) || !vf_fork((uint64_t)P.r * P.p < 0x40000000)) {
			VASSERT(rc == SCRYPT_EPARAM && n_kdf == 0 && wout.pos == 0, "invalid explicit parameters are refused");
			VREACH("EPARAM");
			return;
		}
		VASSERT(rc == expect_enc(1), "documented error code");
	}
	if ((PROP == 3 || PROP == 6) && rc == SCRYPT_OK)
		check_layout(wout.data, wout.pos, in, L);
#endif
#if MODE == RT_FB || MODE == RT_FF
	if (rc != SCRYPT_OK)
		return;
	out = wout.data;
	if (PROP == 1)
		VASSERT(wout.pos == L + 128, "length of the encrypted stream");
#endif
#if MODE == RT_BB || MODE == RT_FB
	/* Decrypt the result from a buffer of exactly its length. */
	memset(&P2, 0, sizeof(P2));
	P2.maxmemfrac = 0.5;
	P2.maxtime = 300.0;
#if MODE == RT_FB
	dec = malloc(L + 128);
	memcpy(dec, out, L + 128);
	out = dec;
#endif
	dec = malloc(L);
	rc = scryptdec_buf(out, L + 128, dec, &outlen, pw, pwlen, &P2, verbose, 1);
	VASSERT(rc == SCRYPT_OK, "decryption of what was encrypted succeeds");
	VASSERT(outlen == L, "decrypted length");
	vf_assert_same(dec, in, L, "decrypted bytes");
	VREACH("round trip");
#endif
#if MODE == RT_BF || MODE == RT_FF
	memset(&P2, 0, sizeof(P2));
	P2.maxmemfrac = 0.5;
	P2.maxtime = 300.0;
	win.data = out;
	win.len = L + 128;
	win.pos = 0;
	win.eof = win.err = 0;
	win.calls = 0;
	w_maxin = MAXIN + 2;
	wout.data = malloc((uint64_t)1 << 28);
	wout.pos = 0;
	rc = scryptdec_file(FIN, FOUT, pw, pwlen, &P2, verbose, 1);
	VASSERT(rc == SCRYPT_OK, "decryption of what was encrypted succeeds");
	VASSERT(wout.pos == L, "decrypted length");
	vf_assert_same(wout.data, in, L, "decrypted bytes");
	VREACH("round trip");
#endif
#if MODE == DECBUF
	L = vf_u64();
	VASSUME(L <= MAXL);
	in = malloc(L);
	vf_array(in, L);
	incopy = malloc(L);
	memcpy(incopy, in, L);
	/* Only the documented part of the output exists. */
	out = malloc(L < 128 ? 0 : L - 128);
	outlen = 12345;
	rc = scryptdec_buf(in, L, out, &outlen, pw, pwlen, &P, verbose, force);
	check_clean();
	if (PROP == 5) {
		vf_assert_same(in, incopy, L, "the input is not modified");
		VASSERT(outlen == 12345 || (L >= 128 && outlen == L - 128), "the output length is only set to inbuflen - 128");
		VASSERT(rc != SCRYPT_OK || (L >= 128 && outlen == L - 128), "the output length is set on success");
		if (rc == SCRYPT_OK)
			VREACH("decrypted");
		if (rc == SCRYPT_EINVAL)
			VREACH("refused");
	}
	if (PROP == 2 || PROP == 4) {
		e = expect_dec(incopy, L, 0, &plain);
		dec_verdict(e);
		if (PROP == 2 && rc == SCRYPT_OK) {
			VASSERT(outlen == L - 128, "plaintext length");
			vf_assert_same(out, plain, L - 128, "plaintext");
		}
	}
	if (PROP == 11 && rc == SCRYPT_EPASS)
		VREACH("EPASS");
#endif
#if MODE == DECFILE
	L = vf_u64();
	VASSUME(L <= MAXL);
#ifdef MINL
	VASSUME(L >= MINL);
#endif
	w_input(L);
	w_maxin = MAXIN;
	w_maxinfault = MAXINFAULT;
#ifdef FAULTS
	w_faults = 1;
#endif
	rc = scryptdec_file(FIN, FOUT, pw, pwlen, &P, verbose, force);
	check_clean();
	if (PROP == 6) {
		VASSERT(rc != SCRYPT_OK || (!in_fault && !out_fault), "no stream fault is reported as success");
		if (in_fault || out_fault) {
			VASSERT((rc == SCRYPT_ERDFILE && in_fault) || (rc == SCRYPT_EWRFILE && out_fault), "stream faults get their error code");
			if (rc == SCRYPT_ERDFILE)
				VREACH("read error");
			if (rc == SCRYPT_EWRFILE)
				VREACH("write error");
		}
		if (rc == SCRYPT_OK)
			VASSERT(win.pos == L && win.eof, "the whole input was read");
	}
	if (PROP == 2 || PROP == 4 || (PROP == 6 && rc == SCRYPT_OK)) {
		e = expect_dec(win.data, L, 1, &plain);
		dec_verdict(e);
		if (PROP == 6)
			VASSERT(e == SCRYPT_OK, "success only for the authentic stream");
		if (PROP != 4 && rc == SCRYPT_OK) {
			VASSERT(wout.pos == L - 128, "plaintext length");
			vf_assert_same(wout.data, plain, L - 128, "plaintext, in order and once");
		}
	}
	if (PROP == 11 && rc == SCRYPT_EPASS)
		VREACH("EPASS");
#endif
#if MODE == PREPONLY
	{
		struct scryptdec_file_cookie * C = NULL;

		L = vf_u64();
		VASSUME(L <= MAXL);
		w_input(L);
		w_maxin = MAXIN;
		w_maxinfault = MAXINFAULT;
#ifdef FAULTS
		w_faults = 1;
#endif
		rc = scryptdec_file_prep(FIN, pw, pwlen, &P, verbose, force, &C);
		if (PROP == 7 || PROP == 4)
			VASSERT(wout.pos == 0 && wout.calls == 0, "preparation does not touch the output");
		if (rc != SCRYPT_OK) {
			VASSERT(C == NULL, "no handle on failure");
			check_clean();
		}
		if (PROP == 6) {
			VASSERT(!in_fault || rc == SCRYPT_ERDFILE, "a read error is reported as such");
			if (in_fault)
				VREACH("read error");
		} else {
			e = expect_dec(win.data, L, 1, &plain);
			dec_verdict(e);
		}
		if (rc == SCRYPT_OK) {
			VASSERT(C != NULL, "a handle on success");
			vf_watch_secrets(1);
			scryptdec_file_cookie_free(C);
			check_clean();
		}
		scryptdec_file_cookie_free(NULL);
	}
#endif
#if MODE == INFO
	L = vf_u64();
	VASSUME(L <= MAXL);
	w_input(L);
	w_maxin = MAXIN;
	w_maxinfault = MAXINFAULT;
#ifdef FAULTS
	w_faults = 1;
#endif
	rc = scryptdec_file_printparams(FIN);
	VASSERT(n_kdf == 0, "info derives no key");
	if (PROP == 6) {
		VASSERT(!in_fault || rc == SCRYPT_ERDFILE, "a read error is reported as such");
		VASSERT(in_fault || rc != SCRYPT_ERDFILE, "no invented read error");
		if (in_fault)
			VREACH("read error");
	}
	if (PROP == 4) {
		in = win.data;
		if (vf_fork(L < 7) || vf_fork((memcmp)(in, "scrypt", 6) != 0))
			VASSERT(rc == SCRYPT_EINVAL, "documented error code");
		else if (vf_fork(in[6] != 0))
			VASSERT(rc == SCRYPT_EVERSION, "documented error code");
		else if (vf_fork(L < 96))
			VASSERT(rc == SCRYPT_EINVAL, "documented error code");
		else if (vf_fork(rc == SCRYPT_OK))
			VREACH("info printed");
	}
#endif
}
