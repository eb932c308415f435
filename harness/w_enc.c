#include <string.h>
#include "w_enc.h"
#undef malloc
#undef free
#undef calloc

#ifdef VF_NATIVE
#define BIG ((uint64_t)1 << 33)
#else
#define BIG ((uint64_t)1 << 36)
#endif

struct wfile win, wout;
FILE * const FIN = (FILE *)&win;
FILE * const FOUT = (FILE *)&wout;
char vf_stderr_obj;
int w_faults, w_xfaults;
unsigned int w_maxin = 8, w_maxinfault = 100;
static unsigned int n_infault;
int in_fault, out_fault;
int malloc_failed, entropy_failed, expand_failed, ctr_failed, kdf_failed, mem_failed, perf_rc;
int live_keys, live_ctrs, live_mallocs;
unsigned int n_kdf, n_entropy, n_mem, n_perf, n_warn;
uint64_t w_memlimit;
double w_opps;
uint8_t w_salt[32];
size_t mt_maxmem;
double mt_frac;
struct wkdf kdf[4];

static int
xfault(void)
{

	return (w_xfaults && vf_fork(vf_bool()));
}

/* --- heap ---------------------------------------------------------------- */
void *
vf_malloc(size_t n)
{
	void * p;

	if (xfault()) {
		malloc_failed = 1;
		return (NULL);
	}
	p = malloc(n);
	live_mallocs++;
	return (p);
}
void *
vf_calloc(size_t a, size_t b)
{
	void * p;

	if (xfault()) {
		malloc_failed = 1;
		return (NULL);
	}
	p = calloc(a, b);
	live_mallocs++;
	return (p);
}
void
vf_free(void * p)
{

	if (p == NULL)
		return;
	live_mallocs--;
	free(p);
}

/* --- streams ------------------------------------------------------------- */
size_t
vf_fread(void * p, size_t sz, size_t nm, FILE * f)
{
	uint64_t req = (uint64_t)sz * nm, n;

	VASSERT(f == FIN, "reads come from the input stream");
	if (req == 0)
		return (0);
	if (win.calls++ >= w_maxin)
		VSTOP();
	if (vf_fork(req <= win.len - win.pos)) {
		n = req;
	} else {
		n = win.len - win.pos;
		win.eof = 1;
	}
	if (n_infault < w_maxinfault && w_faults && vf_fork(vf_bool())) {
		n_infault++;
		/* A read error after k bytes. */
		uint64_t k = vf_u64();

		VASSUME(k <= n && k < req);
		n = k;
		win.err = 1;
		win.eof = 0;
		in_fault = 1;
	}
	memcpy(p, win.data + win.pos, n);
	win.pos += n;
	if (sz == 1)
		return (n);
	if (vf_fork(n == req))
		return (nm);
	if (nm == 1)
		return (0);
	return (n / sz);
}
size_t
vf_fwrite(const void * p, size_t sz, size_t nm, FILE * f)
{
	uint64_t req = (uint64_t)sz * nm, n = req;

	VASSERT(f == FOUT, "writes go to the output stream");
	if (req == 0)
		return (0);
	wout.calls++;
	if (w_faults && vf_fork(vf_bool())) {
		n = vf_u64();
		VASSUME(n < req);
		wout.err = 1;
		out_fault = 1;
	}
	memcpy(wout.data + wout.pos, p, n);
	wout.pos += n;
	if (sz == 1)
		return (n);
	if (vf_fork(n == req))
		return (nm);
	if (nm == 1)
		return (0);
	return (n / sz);
}
int vf_ferror(FILE * f) { return (((struct wfile *)f)->err); }
int vf_feof(FILE * f) { return (((struct wfile *)f)->eof); }
void vf_clearerr(FILE * f) { ((struct wfile *)f)->err = ((struct wfile *)f)->eof = 0; }
int
vf_fgetc(FILE * f)
{
	uint8_t c;

	return (vf_fread(&c, 1, 1, f) == 1 ? c : EOF);
}
int
vf_fputc(int c, FILE * f)
{
	uint8_t b = (uint8_t)c;

	return (vf_fwrite(&b, 1, 1, f) == 1 ? b : EOF);
}
int
vf_fflush(FILE * f)
{

	if (f == (FILE *)&vf_stderr_obj)
		return (0);
	if (w_faults && vf_fork(vf_bool())) {
		((struct wfile *)f)->err = 1;
		out_fault = 1;
		return (EOF);
	}
	return (0);
}
#ifndef W_CAPTURE
int vf_fprintf(FILE * f, const char * fmt, ...)
{
	(void)fmt;
	VASSERT(f == (FILE *)&vf_stderr_obj, "messages go to standard error");
	return (0);
}
#endif
void libcperciva_warn(const char * fmt, ...) { (void)fmt; n_warn++; }
void libcperciva_warnx(const char * fmt, ...) { (void)fmt; n_warn++; }
#ifndef W_CAPTURE
char *
humansize(uint64_t v)
{
	char * s;

	(void)v;
	if ((s = vf_malloc(8)) == NULL)
		return (NULL);
	s[0] = '0';
	s[1] = '\0';
	return (s);
}
#endif

/* --- ideal hash functions ------------------------------------------------ */
#define MAXH 24
static struct wh {
	int kind;		/* 1 SHA-256, 2 HMAC */
	int done;
	uint8_t * data;
	uint64_t len;
	uint8_t * key;
	uint64_t keylen;
	uint8_t out[32];
} wh[MAXH];
static unsigned int nh;

static unsigned int
h_new(int kind, const void * K, size_t Klen)
{
	struct wh * h = &wh[nh];

	VASSERT(nh < MAXH, "harness: hash table full");
	h->kind = kind;
	h->done = 0;
	h->len = 0;
	h->data = malloc(BIG);
	h->keylen = Klen;
	h->key = NULL;
	if (kind == 2) {
		h->key = malloc(Klen + 1);
		memcpy(h->key, K, Klen);
	}
	return (nh++);
}
static void
h_update(struct wh * h, const void * p, size_t n)
{

	VASSERT(h->len <= BIG && n <= BIG - h->len, "harness: message too long");
	memcpy(h->data + h->len, p, n);
	h->len += n;
}
static void
h_final(struct wh * h, uint8_t * out)
{
	unsigned int i;

	for (i = 0; i < nh; i++) {
		struct wh * o = &wh[i];

		if (o == h || !o->done || o->kind != h->kind)
			continue;
		if (!vf_must(o->len == h->len && o->keylen == h->keylen))
			continue;
		if (h->kind == 2 && !vf_same(o->key, h->key, h->keylen))
			continue;
		if (!vf_same(o->data, h->data, h->len))
			continue;
		memcpy(out, o->out, 32);
		memcpy(h->out, o->out, 32);
		h->done = 1;
		return;
	}
	vf_array(h->out, 32);
	memcpy(out, h->out, 32);
	h->done = 1;
}
#define MAGIC 0x57a11f1e
static struct wh *
h_get(const void * ctx)
{
	uint32_t t[2];

	memcpy(t, ctx, 8);
	VASSERT(t[0] == MAGIC && t[1] < nh, "hash context is initialised");
	return (&wh[t[1]]);
}
static void
h_put(void * ctx, unsigned int k)
{
	uint32_t t[2] = {MAGIC, k};

	memcpy(ctx, t, 8);
}
void SHA256_Init(SHA256_CTX * c) { h_put(c, h_new(1, NULL, 0)); }
void SHA256_Update(SHA256_CTX * c, const void * p, size_t n) { h_update(h_get(c), p, n); }
void
SHA256_Final(uint8_t out[32], SHA256_CTX * c)
{

	h_final(h_get(c), out);
	memset(c, 0, sizeof(*c));
}
void
SHA256_Buf(const void * p, size_t n, uint8_t out[32])
{
	unsigned int k = h_new(1, NULL, 0);

	h_update(&wh[k], p, n);
	h_final(&wh[k], out);
}
void HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * K, size_t Klen) { h_put(c, h_new(2, K, Klen)); }
void HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * p, size_t n) { h_update(h_get(c), p, n); }
void
HMAC_SHA256_Final(uint8_t out[32], HMAC_SHA256_CTX * c)
{

	h_final(h_get(c), out);
	memset(c, 0, sizeof(*c));
}
void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * p, size_t n, uint8_t out[32])
{
	unsigned int k = h_new(2, K, Klen);

	h_update(&wh[k], p, n);
	h_final(&wh[k], out);
}
void ref_sha256(const uint8_t * p, uint64_t n, uint8_t out[32]) { SHA256_Buf(p, n, out); }
void ref_hmac(const uint8_t * K, uint64_t Klen, const uint8_t * p, uint64_t n, uint8_t out[32]) { HMAC_SHA256_Buf(K, Klen, p, n, out); }

/* --- key derivation ------------------------------------------------------ */
static unsigned int nkdf_rec;
static struct wkdf *
kdf_rec(const uint8_t * pw, uint64_t pwlen, const uint8_t * salt, uint64_t N, uint32_t r, uint32_t p)
{
	struct wkdf * k = &kdf[nkdf_rec];
	uint8_t * pc;
	unsigned int i;

	VASSERT(nkdf_rec < 4, "harness: too many key derivations");
	pc = malloc(pwlen + 1);
	memcpy(pc, pw, pwlen);
	k->pw = pc;
	k->pwlen = pwlen;
	memcpy(k->salt, salt, 32);
	k->N = N;
	k->r = r;
	k->p = p;
	for (i = 0; i < nkdf_rec; i++) {
		if (vf_must(kdf[i].pwlen == pwlen && kdf[i].N == N && kdf[i].r == r && kdf[i].p == p) &&
		    vf_same(kdf[i].pw, pc, pwlen) && vf_same(kdf[i].salt, k->salt, 32)) {
			memcpy(k->dk, kdf[i].dk, 64);
			break;
		}
	}
	if (i == nkdf_rec)
		vf_secret(k->dk, 64);
	nkdf_rec++;
	return (k);
}
int
crypto_scrypt(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen,
    uint64_t N, uint32_t r, uint32_t p, uint8_t * buf, size_t buflen)
{
	struct wkdf * k;

	n_kdf++;
#ifdef W_NOKDF
	/* It fails, always. */
	(void)pw; (void)pwlen; (void)salt; (void)buf; (void)k;
	kdf[0].N = N;
	kdf[0].r = r;
	kdf[0].p = p;
	kdf_failed = 1;
	errno = ENOMEM;
	return (-1);
#endif
	VASSERT(saltlen == 32, "key derivation: the salt has 32 bytes");
	VASSERT(buflen == 64, "key derivation: 64 bytes are derived");
	k = kdf_rec(pw, pwlen, salt, N, r, p);
	k->where = buf;
	if (xfault()) {
		/* A failed derivation may leave anything behind. */
		kdf_failed = 1;
		k->ok = 0;
		errno = ENOMEM;
		return (-1);
	}
	k->ok = 1;
	memcpy(buf, k->dk, 64);
	return (0);
}
void
ref_scrypt(const uint8_t * pw, uint64_t pwlen, const uint8_t * salt, uint64_t saltlen,
    uint64_t N, uint32_t r, uint32_t p, uint8_t * buf, uint64_t buflen)
{
	struct wkdf * k = kdf_rec(pw, pwlen, salt, N, r, p);

	(void)saltlen;
	memcpy(buf, k->dk, buflen);
}

/* --- AES-CTR ------------------------------------------------------------- */
static struct wks {
	uint8_t key[32];
	uint64_t nonce;
	uint8_t * ks;
} wks[4];
static unsigned int nks;
struct crypto_aes_key { uint8_t k[32]; uint64_t live; };
struct crypto_aesctr { const uint8_t * ks; uint64_t pos; uint64_t live; };

const uint8_t *
ref_keystream(const uint8_t key[32], uint64_t nonce)
{
	unsigned int i;

	for (i = 0; i < nks; i++) {
		if (vf_must(wks[i].nonce == nonce) && vf_same(wks[i].key, key, 32))
			return (wks[i].ks);
	}
	VASSERT(nks < 4, "harness: too many key streams");
	memcpy(wks[nks].key, key, 32);
	wks[nks].nonce = nonce;
	wks[nks].ks = malloc(BIG);
	vf_array(wks[nks].ks, BIG);
	return (wks[nks++].ks);
}
struct crypto_aes_key *
crypto_aes_key_expand(const uint8_t * key, size_t len)
{
	struct crypto_aes_key * k;

	VASSERT(len == 32, "the AES key has 32 bytes");
	if (xfault()) {
		expand_failed = 1;
		return (NULL);
	}
	k = malloc(sizeof(*k));
	memcpy(k->k, key, 32);
	k->live = 1;
	live_keys++;
	return (k);
}
void
crypto_aes_key_free(struct crypto_aes_key * k)
{

	if (k == NULL)
		return;
	VASSERT(k->live == 1, "AES key is released once");
	k->live = 0;
	memset(k->k, 0, 32);
	free(k);
	live_keys--;
}
struct crypto_aesctr *
crypto_aesctr_alloc(void)
{
	struct crypto_aesctr * c;

	if (xfault()) {
		ctr_failed = 1;
		return (NULL);
	}
	c = malloc(sizeof(*c));
	c->ks = NULL;
	c->live = 1;
	live_ctrs++;
	return (c);
}
void
crypto_aesctr_init2(struct crypto_aesctr * c, const struct crypto_aes_key * k, uint64_t nonce)
{

	VASSERT(k->live == 1, "AES key is alive");
	c->ks = ref_keystream(k->k, nonce);
	c->pos = 0;
}
struct crypto_aesctr *
crypto_aesctr_init(const struct crypto_aes_key * k, uint64_t nonce)
{
	struct crypto_aesctr * c;

	VASSERT(k != NULL, "cipher stream is created with a key");
	if ((c = crypto_aesctr_alloc()) != NULL)
		crypto_aesctr_init2(c, k, nonce);
	return (c);
}
void
crypto_aesctr_stream(struct crypto_aesctr * c, const uint8_t * in, uint8_t * out, size_t n)
{

	VASSERT(c->live == 1 && c->ks != NULL, "cipher stream is alive");
	VASSERT(c->pos <= BIG && n <= BIG - c->pos, "harness: stream too long");
	vf_xorpad(out, in, n, c->ks + c->pos);
	c->pos += n;
}
void
crypto_aesctr_free(struct crypto_aesctr * c)
{

	if (c == NULL)
		return;
	VASSERT(c->live == 1, "cipher stream is released once");
	c->live = 0;
	free(c);
	live_ctrs--;
}
void
crypto_aesctr_buf(const struct crypto_aes_key * k, uint64_t nonce, const uint8_t * in, uint8_t * out, size_t n)
{

	VASSERT(k->live == 1, "AES key is alive");
	vf_xorpad(out, in, n, ref_keystream(k->k, nonce));
}

/* --- the rest ------------------------------------------------------------ */
int
crypto_entropy_read(uint8_t * buf, size_t n)
{

	n_entropy++;
	if (xfault()) {
		entropy_failed = 1;
		return (-1);
	}
	VASSERT(n <= 32, "at most 32 random bytes are requested");
	vf_array(w_salt, n);
	memcpy(buf, w_salt, n);
	return (0);
}
int
memtouse(size_t maxmem, double maxmemfrac, size_t * memlimit)
{

	n_mem++;
	mt_maxmem = maxmem;
	mt_frac = maxmemfrac;
	if (xfault()) {
		mem_failed = 1;
		return (1);
	}
	*memlimit = w_memlimit;
	return (0);
}
int
scryptenc_cpuperf(double * opps)
{

	n_perf++;
	if (xfault()) {
		perf_rc = vf_bool() ? SCRYPT_ECLOCK : SCRYPT_EKEY;
		return (perf_rc);
	}
	*opps = w_opps;
	return (0);
}

/* --- erasure ------------------------------------------------------------- */
#ifdef VF_NATIVE
static void
rec_memzero(volatile void * p, size_t n)
{
	volatile uint8_t * b = p;
	unsigned int i;
	size_t j;

	for (j = 0; j < n; j++)
		b[j] = 0;
	for (i = 0; i < nkdf_rec; i++) {
		if (kdf[i].where != NULL && (uint8_t *)p <= kdf[i].where && (uint8_t *)p + n >= kdf[i].where + 64)
			kdf[i].wiped = 1;
	}
}
#endif
void
w_init(void)
{

#ifdef VF_NATIVE
	insecure_memzero_ptr = rec_memzero;
#else
	vf_watch_secrets(1);
#endif
	wout.data = malloc(BIG);
}
void
w_input(uint64_t len)
{

	win.data = malloc(len);
	win.len = len;
	vf_array(win.data, len);
}
/* Derived keys that were handed out have been erased (symbolically: checked when their storage is released). */
void
w_check_wiped(void)
{
#ifdef VF_NATIVE
	unsigned int i;

	for (i = 0; i < nkdf_rec; i++) {
		if (kdf[i].where != NULL && kdf[i].ok)
			VASSERT(kdf[i].wiped, "derived keys are erased");
	}
#endif
}
