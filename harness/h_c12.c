/*
 * C12, C13, C30: crypto_scrypt.  The mixing functions and PBKDF2 are models.
 * MODE 0: parameters and memory; 1: composition; 2: choice of the mixing code.
 */
#include <sys/mman.h>
#include "crypto_scrypt.h"
#include "crypto_scrypt_smix.h"
#include "crypto_scrypt_smix_sse2.h"
#include "sha256.h"
#include "vf.h"
#undef posix_memalign
#undef aligned_alloc
#undef mmap
#undef munmap
#undef malloc
#undef free
#undef abort

/* RFC 7914 values for the vectors a self-test may use (computed independently). */
static const struct {
	const char * pw, * salt;
	uint64_t N;
	uint32_t r, p;
	uint8_t out[64];
} vec[] = {
	{"pleaseletmein", "SodiumChloride", 16, 8, 1, {
		0x25, 0xa9, 0xfa, 0x20, 0x7f, 0x87, 0xca, 0x09, 0xa4, 0xef, 0x8b, 0x9f, 0x77, 0x7a, 0xca, 0x16,
		0xbe, 0xb7, 0x84, 0xae, 0x18, 0x30, 0xbf, 0xbf, 0xd3, 0x83, 0x25, 0xaa, 0xbb, 0x93, 0x77, 0xdf,
		0x1b, 0xa7, 0x84, 0xd7, 0x46, 0xea, 0x27, 0x3b, 0xf5, 0x16, 0xa4, 0x6f, 0xbf, 0xac, 0xf5, 0x11,
		0xc5, 0xbe, 0xba, 0x4c, 0x4a, 0xb3, 0xac, 0xc7, 0xfa, 0x6f, 0x46, 0x0b, 0x6c, 0x0f, 0x47, 0x7b}},
	{"", "", 16, 1, 1, {
		0x77, 0xd6, 0x57, 0x62, 0x38, 0x65, 0x7b, 0x20, 0x3b, 0x19, 0xca, 0x42, 0xc1, 0x8a, 0x04, 0x97,
		0xf1, 0x6b, 0x48, 0x44, 0xe3, 0x07, 0x4a, 0xe8, 0xdf, 0xdf, 0xfa, 0x3f, 0xed, 0xe2, 0x14, 0x42,
		0xfc, 0xd0, 0x06, 0x9d, 0xed, 0x09, 0x48, 0xf8, 0x32, 0x6a, 0x75, 0x3a, 0x0f, 0xc8, 0x1f, 0x17,
		0xe8, 0xd3, 0xe0, 0xfb, 0x2e, 0x0d, 0x36, 0x28, 0xcf, 0x35, 0xe2, 0x0c, 0x38, 0xd1, 0x89, 0x06}},
};

static int mayfail = 1;
static int selftest;		/* a self-test (not a request) is running */
static const uint8_t * rpw, * rsalt;	/* the request */
static size_t rpwlen, rsaltlen, rbuflen;
static uint64_t rN;
static uint32_t rr, rp;
static uint8_t * rbuf;

/* Memory. */
static struct blk { uint8_t * p; size_t n; int live, mapped; } blk[16];
static int nblk, nfail, nunmapfail;
static void *
take(size_t n, size_t align, int mapped)
{
	struct blk * b = &blk[nblk];
	uint8_t * p;
#if MODE == 1
	size_t room = n;
#else
	size_t room = selftest ? n : 64;
#endif

	VASSERT(nblk < 16, "few allocations");
	if (selftest == 0 && mayfail && vf_fork(vf_bool())) {
		nfail++;
		return (NULL);
	}
	/* no better aligned than it has to be */
	if ((p = aligned_alloc(4096, (room + 64 + 4095) & ~(size_t)4095)) == NULL)
		VSTOP();
	if (!mapped && align < 64)
		p += align;
	b->p = p;
	b->n = n;
	b->live = 1;
	b->mapped = mapped;
	nblk++;
	return (p);
}
int
vf_memalign(void ** pp, size_t align, size_t n)
{
	void * p;

	VASSERT(align >= 8 && (align & (align - 1)) == 0, "a valid alignment");
	if ((p = take(n, align, 0)) == NULL)
		return (ENOMEM);
	*pp = p;
	return (0);
}
void *
vf_malloc(size_t n)
{
	void * p;

	if ((p = take(n, 16, 0)) == NULL)
		errno = ENOMEM;
	return (p);
}
void *
vf_aligned_alloc(size_t align, size_t n)
{
	void * p;

	if ((p = take(n, align, 0)) == NULL)
		errno = ENOMEM;
	return (p);
}
void *
vf_mmap(void * a, size_t n, int prot, int flags, int fd, off_t off)
{
	void * p;

	(void)a;
	(void)off;
	VASSERT(prot == (PROT_READ | PROT_WRITE) && (flags & MAP_ANON) && (flags & MAP_PRIVATE) && !(flags & MAP_FIXED) && fd == -1, "a private anonymous mapping");
	VASSERT(n > 0, "a mapping is not empty");
	if ((p = take(n, 4096, 1)) == NULL) {
		errno = ENOMEM;
		return (MAP_FAILED);
	}
	return (p);
}
int
vf_munmap(void * p, size_t n)
{
	int i;

	for (i = 0; i < nblk; i++)
		if (blk[i].live && blk[i].mapped && blk[i].p == p)
			break;
	VASSERT(i < nblk && blk[i].n == n, "exactly the mapping is unmapped");
	if (!selftest && mayfail && vf_fork(vf_bool())) {
		nunmapfail++;
		errno = EINVAL;
		return (-1);
	}
	blk[i].live = 0;
	return (0);
}
void
vf_free(void * p)
{
	int i;

	if (p == NULL)
		return;
	for (i = 0; i < nblk; i++)
		if (blk[i].live && !blk[i].mapped && blk[i].p == p)
			break;
	VASSERT(i < nblk, "only what was allocated is freed");
	blk[i].live = 0;
}
static int
live(void)
{
	int i, n = 0;

	for (i = 0; i < nblk; i++)
		n += blk[i].live && !(blk[i].mapped && nunmapfail);
	return (n);
}
/* The block that p starts n bytes of. */
static struct blk *
within(const void * p, size_t n)
{
	int i;

	for (i = 0; i < nblk; i++)
		if (blk[i].live && (const uint8_t *)p - blk[i].p >= 0 && (const uint8_t *)p - blk[i].p < 64 * 1024 && ((uintptr_t)p >> 32) == ((uintptr_t)blk[i].p >> 32)) {
			VASSERT((size_t)((const uint8_t *)p - blk[i].p) + n <= blk[i].n && n <= blk[i].n, "the working area is large enough");
			return (&blk[i]);
		}
	VASSERT(0, "a working area is allocated memory");
	return (NULL);
}

/* Mixing and PBKDF2. */
static int npb, nmix, ntest, which, nwarn;
static int good[2], mixbad;
static uint8_t * B;
static size_t blen;
#define BMAX (128 * 2 * 3)
#if MODE == 1
static uint8_t want[BMAX], fin[64], mixed[8];
#endif

static int
streq(const uint8_t * a, size_t n, const char * b)
{
	size_t i;

	if (n != strlen(b))
		return (0);
	for (i = 0; i < n; i++)
		if (a[i] != (uint8_t)b[i])
			return (0);
	return (1);
}
static uint64_t tN;
static size_t tr;
static int tmix;
void
PBKDF2_SHA256(const uint8_t * pw, size_t pwlen, const uint8_t * salt, size_t saltlen, uint64_t c, uint8_t * buf, size_t n)
{
	size_t i, k;

	VASSERT(c == 1, "one iteration");
	if (selftest) {
		if (npb++ % 2 == 0) {
			tmix = 0;
			mixbad = 0;
			B = buf;
			blen = n;
			for (k = 0; k < sizeof(vec) / sizeof(vec[0]); k++)
				if (streq(pw, pwlen, vec[k].pw) && streq(salt, saltlen, vec[k].salt))
					break;
			which = (int)k;
			return;
		}
		k = (size_t)which;
		if (salt != B || saltlen != blen || k == sizeof(vec) / sizeof(vec[0]) || tmix != (int)vec[k].p || tN != vec[k].N || tr != vec[k].r || n > 64)
			VSTOP();	/* a vector the harness does not know */
		for (i = 0; i < n; i++)
			buf[i] = vec[k].out[i];
		if (mixbad)
			buf[vf_fork(vf_bool()) ? 0 : vf_fork(vf_bool()) ? n / 2 : n - 1] ^= vf_fork(vf_bool()) ? 1 : 0x80;
		return;
	}
	VASSERT(pw == rpw && pwlen == rpwlen, "PBKDF2 of the password");
	if (npb++ == 0) {
		VASSERT(salt == rsalt && saltlen == rsaltlen, "first PBKDF2: of the salt");
		VASSERT(n == (size_t)rp * 128 * rr, "first PBKDF2: p * 128 * r bytes");
		within(buf, n);
		B = buf;
#if MODE == 1
		vf_array(buf, n);
		memcpy(want, buf, n);
#endif
	} else {
		VASSERT(npb == 2, "two PBKDF2 computations");
		VASSERT(nmix == (int)rp, "every block is mixed before the result is computed");
		VASSERT(saltlen == (size_t)rp * 128 * rr, "second PBKDF2: of all blocks");
		within(salt, saltlen);
		VASSERT(buf == rbuf && n == rbuflen, "the result goes to the output");
#if MODE == 1
		vf_assert_same(salt, want, saltlen, "second PBKDF2: of the mixed blocks, in order");
		vf_array(buf, n);
		memcpy(fin, buf, n);
#endif
	}
}
static void
mix(int w, uint8_t * b, size_t r, uint64_t N, void * V, void * XY)
{
	struct blk * x, * y, * z;
	size_t i;

	VASSERT(((uintptr_t)b & 63) == 0 && ((uintptr_t)V & 63) == 0 && ((uintptr_t)XY & 63) == 0, "working areas are 64-byte aligned");
	if (selftest) {
		tN = N;
		tr = r;
		tmix++;
		mixbad |= !good[w];
		ntest |= 1 << w;
		return;
	}
	VASSERT(npb == 1, "mixing follows the first PBKDF2");
	VASSERT(r == rr && N == rN, "mixing with the given r and N");
	VASSERT(good[w], "only mixing code that passed its test is used");
#if MODE == 0
	/* Any p: look at the first blocks. */
	VASSERT((uintptr_t)b - (uintptr_t)B == (uintptr_t)nmix * 128 * r, "blocks are mixed one by one");
	VASSERT((size_t)nmix < rp, "p blocks");
	x = within(B, (size_t)rp * 128 * r);
	y = within(V, 128 * r * N);
	z = within(XY, 256 * r + 64);
	(void)i;
#else
	VASSERT(((uintptr_t)b - (uintptr_t)B) % (128 * r) == 0 && b >= B, "a block");
	i = ((uintptr_t)b - (uintptr_t)B) / (128 * r);
	VASSERT(i < rp, "a block");
	x = within(b, 128 * r);
	y = within(V, 128 * r * N);
	z = within(XY, 256 * r + 64);
#if MODE == 1
	VASSERT(!mixed[i], "each block is mixed once");
	mixed[i] = 1;
	vf_assert_same(b, &want[i * 128 * r], 128 * r, "the block that PBKDF2 made is mixed");
	vf_array(b, 128 * r);
	memcpy(&want[i * 128 * r], b, 128 * r);
	memset(V, 0x11, 128 * r * N);
	memset(XY, 0x22, 256 * r + 64);
#endif
#endif
	VASSERT(x != y && y != z && x != z, "working areas are separate");
	nmix++;
#if MODE == 0
	if (nmix == 3) {
		VREACH("third block");
		VSTOP();
	}
#endif
}
void crypto_scrypt_smix(uint8_t * b, size_t r, uint64_t N, void * V, void * XY) { mix(0, b, r, N, V, XY); }
void crypto_scrypt_smix_sse2(uint8_t * b, size_t r, uint64_t N, void * V, void * XY) { mix(1, b, r, N, V, XY); }
void libcperciva_warnx(const char * f, ...) { (void)f; nwarn++; }
void libcperciva_warn(const char * f, ...) { (void)f; nwarn++; }

#if MODE == 2 || defined(SSE2)
int feature = 1;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;
int
cpusupport_x86_sse2_detect_1(void)
{

	return (feature);
}
#endif
#if MODE != 2
void
vf_abort(void)
{

	VASSERT(0, "no abort");
	VSTOP();
}
/* One request. */
static int
request(uint64_t N, uint32_t r, uint32_t p, size_t pwlen, size_t saltlen, size_t buflen)
{
	static uint8_t pw[4], salt[4], buf[80];
	int rc;

	rpw = pw;
	rpwlen = pwlen;
	rsalt = salt;
	rsaltlen = saltlen;
	rN = N;
	rr = r;
	rp = p;
	rbuf = buf;
	rbuflen = buflen;
	npb = nmix = nfail = nunmapfail = 0;
	nblk = 0;
	B = NULL;
#if MODE == 1
	memset(mixed, 0, sizeof(mixed));
#endif
	memset(buf, 0x77, sizeof(buf));
	errno = 0;
	rc = crypto_scrypt(pw, pwlen, salt, saltlen, N, r, p, buf, buflen);
	VASSERT(rc == 0 || rc == -1, "success or failure");
	VASSERT(live() == 0, "every working area is released");
	return (rc);
}
static void
warmup(void)
{
	static uint8_t o[1];

	good[0] = good[1] = 1;
	selftest = 1;
	/* an invalid request: makes the choice, nothing else */
	VASSERT(crypto_scrypt(o, 0, o, 0, 3, 1, 1, o, 1) == -1, "invalid N");
	VASSERT(live() == 0, "every working area is released");
	selftest = 0;
}
#endif

#if MODE == 0
void
vf_harness(void)
{
	unsigned k = (unsigned)vf_concrete(vf_u8() % 65);
	uint64_t N = k < 64 ? (uint64_t)1 << k : vf_u64();
	uint32_t r = vf_u32(), p = vf_u32();
	size_t buflen = vf_u64(), pwlen = vf_u64(), saltlen = vf_u64();
	int valid, rc;

	if (k == 64)
		VASSUME((N & (N - 1)) != 0 || N == 0);
	valid = k > 0 && k < 64;
	valid = valid && vf_fork(r != 0) && vf_fork(p != 0) && vf_fork((uint64_t)r * p < ((uint64_t)1 << 30));
	valid = valid && vf_fork(buflen <= (((uint64_t)1 << 32) - 1) * 32);
	/* 128 * r * N bytes exist */
	valid = valid && (k <= 25 || vf_fork(r <= (UINT64_MAX >> k) / 128));
	warmup();
	rc = request(N, r, p, pwlen, saltlen, buflen);
	if (!valid) {
		VASSERT(rc == -1, "invalid parameters are refused");
		VASSERT(errno != 0, "errno tells why");
		VASSERT(npb == 0 && nmix == 0, "nothing is computed from invalid parameters");
		VREACH("refused");
	} else if (nfail) {
		VASSERT(rc == -1, "failed allocation: failure");
		VASSERT(errno != 0, "errno tells why");
		VASSERT(npb == 0 || rbuf[0] == 0x77, "nothing is written");
		VASSERT(npb < 2, "nothing is written");
		VREACH("no memory");
	} else if (nunmapfail) {
		VASSERT(rc == -1, "a failed release is a failure");
	} else {
		VASSERT(rc == 0, "valid parameters are accepted");
		VASSERT(npb == 2 && nmix == (int)p, "computed");
		VREACH("accepted");
	}
}
#elif MODE == 1
static void
one(uint64_t N, uint32_t r, uint32_t p, size_t buflen)
{
	size_t i;
	int rc;

	rc = request(N, r, p, vf_u64(), vf_u64(), buflen);
	if (nfail || nunmapfail) {
		VASSERT(rc == -1, "failure");
		return;
	}
	VASSERT(rc == 0, "success");
	VASSERT(npb == 2 && nmix == (int)p, "computed");
	for (i = 0; i < 80; i++)
		if (i < buflen)
			VASSERT(rbuf[i] == fin[i], "the output is PBKDF2's");
		else
			VASSERT(rbuf[i] == 0x77, "nothing beyond the output is written");
	VREACH("computed");
}
void
vf_harness(void)
{

	uint64_t N = (uint64_t)1 << (1 + vf_concrete(vf_u8() % 3));
	uint32_t r = 1 + (uint32_t)vf_concrete(vf_u8() % 2), p = 1 + (uint32_t)vf_concrete(vf_u8() % 3);

	warmup();
	one(N, r, p, vf_fork(vf_bool()) ? 0 : 61);
	/* no dependence on earlier calls */
	mayfail = 0;
	one(4, 2, 2, 64);
}
#else
void
vf_abort(void)
{

	VASSERT(!good[0], "no abort while the portable code works");
	VASSERT(!(good[1] && feature), "no abort while the SSE2 code works");
	VREACH("abort");
	VSTOP();
}
void
vf_harness(void)
{
	static uint8_t pw[1], buf[64];
	int i, rc;

	feature = vf_fork(vf_bool()) ? 1 : 0;
	good[0] = vf_fork(vf_bool()) ? 1 : 0;
	good[1] = vf_fork(vf_bool()) ? 1 : 0;
	rpw = rsalt = pw;
	rN = 4;
	rr = rp = 1;
	rbuf = buf;
	rbuflen = 64;
	selftest = 1;
	/* an invalid request makes the choice */
	rc = crypto_scrypt(pw, 0, pw, 0, 3, 1, 1, buf, 64);
	VASSERT(rc == -1, "invalid");
	selftest = 0;
	VASSERT(good[0] || (good[1] && feature), "nothing is computed when no implementation works");
	VASSERT(feature || !(ntest & 2), "SSE2 code does not run without SSE2");
	i = ntest;
	/* the choice is kept */
	npb = 0;
	nblk = 0;
	rc = crypto_scrypt(pw, 0, pw, 0, 4, 1, 1, buf, 64);
	VASSERT(ntest == i, "the choice is made once");
	if (!nfail && !nunmapfail)
		VASSERT(rc == 0 && nmix == 1, "computed");
	VREACH("used");
}
#endif
