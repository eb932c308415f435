/*
 * C32: what is said about a header.
 * MODE 0: info; 1: verbose decryption; 2: verbose encryption with explicit parameters.
 * Numbers given to fprintf are recorded and appear in the text as '#' ('@'
 * for floating point), sizes made by humansize as <a>, <b>...
 */
#include <string.h>
#include "w_enc.h"
#undef malloc
#undef free

#ifdef SOMEN
#define ISN(n) ((n) == 1 || (n) == 14 || (n) == 24 || (n) == 25 || (n) == 31 || (n) == 32 || (n) == 33 || (n) == 56 || (n) == 57 || (n) == 63)
#else
#define ISN(n) 1
#endif
#define NO 8
static char out[512];
static size_t outlen;
static uint64_t nums[NO], sizes[NO];
static double fps[NO];
static unsigned int nnums, nsizes, nfps;

char *
humansize(uint64_t v)
{
	char * s;

	VASSERT(nsizes < NO, "sizes are formatted at most once or twice");
	if ((s = vf_malloc(4)) == NULL)
		return (NULL);
	memcpy(s, "<a>", 4);
	s[1] = (char)('a' + nsizes);
	sizes[nsizes++] = v;
	return (s);
}
static void
putch(char c)
{

	VASSERT(outlen < sizeof(out) - 1, "output of reasonable length");
	out[outlen++] = c;
	out[outlen] = '\0';
}
static void
put(const char * f, va_list ap)
{
	const char * s;
	int l;

	for (; *f != '\0'; f++) {
		if (*f != '%') {
			putch(*f);
			continue;
		}
		f++;
		while ((*f >= '0' && *f <= '9') || *f == '.')
			f++;
		for (l = 0; *f == 'l' || *f == 'j' || *f == 'z'; f++)
			l = 1;
		if (*f == 'u' || *f == 'd' || *f == 'i') {
			VASSERT(nnums < NO, "numbers printed once");
			if (l)
				nums[nnums++] = va_arg(ap, uint64_t);
			else if (*f == 'u')
				nums[nnums++] = va_arg(ap, unsigned int);
			else
				nums[nnums++] = (uint64_t)(int64_t)va_arg(ap, int);
			putch('#');
		} else if (*f == 's') {
			for (s = va_arg(ap, const char *); *s != '\0'; s++)
				putch(*s);
		} else if (*f == 'f' || *f == 'g') {
			VASSERT(nfps < NO, "numbers printed once");
			fps[nfps++] = va_arg(ap, double);
			putch('@');
		} else {
			VASSERT(*f == '%', "a format the harness knows");
			putch('%');
		}
	}
}
int
vf_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;

	VASSERT(f == (FILE *)&vf_stderr_obj || f == stdout, "messages go to standard error or output");
	va_start(ap, fmt);
	put(fmt, ap);
	va_end(ap);
	return (0);
}

static const char * at;
static int
eat(const char * s)
{
	size_t i;

	for (i = 0; s[i] != '\0'; i++)
		if (at[i] != s[i])
			return (0);
	at += i;
	return (1);
}
static uint64_t
size(void)
{
	uint64_t v;

	VASSERT(at[0] == '<' && at[1] >= 'a' && at[1] < (char)('a' + nsizes) && at[2] == '>', "a size");
	v = sizes[at[1] - 'a'];
	at += 3;
	return (v);
}
static void
check_text(uint64_t logN, uint32_t r, uint32_t p, int limits)
{
	uint64_t N = (uint64_t)1 << logN, m;

	at = out;
	VASSERT(eat("Parameters used: N = #; r = #; p = #;\n    Decrypting this file requires at least "), "the documented text");
	VASSERT(nnums == 3, "three numbers");
	VASSERT(nums[0] == N, "N as recorded");
	VASSERT(nums[1] == r, "r as recorded");
	VASSERT(nums[2] == p, "p as recorded");
	m = size();
	if (vf_fork(logN + 7 >= 64) || vf_fork(r > (UINT64_MAX >> (logN + 7))))
		VASSERT(m == UINT64_MAX, "a size that cannot be expressed saturates");
	else
		VASSERT(m == (uint64_t)r << (logN + 7), "the memory is 128*N*r");
	VASSERT(eat(" of memory"), "the documented text");
	if (limits && vf_fork(w_memlimit > 0)) {
		VASSERT(eat(" ("), "the documented text");
		m = size();
		VASSERT(m == w_memlimit, "the memory available");
		VASSERT(eat(" available)"), "the documented text");
	}
	if (limits) {
		VASSERT(eat(",\n    and will take approximately @ seconds (limit: @ seconds)"), "the documented text");
		VASSERT(nfps == 2 && fps[1] == 300.0, "the time limit");
	}
	VASSERT(eat(".\n"), "the documented text");
	VASSERT(*at == '\0', "and nothing else");
	VREACH("text");
}

void
vf_harness(void)
{
	static struct scryptenc_params P;
	const uint8_t * h;
	uint64_t L, logN;
	uint32_t r, p;
	int rc, ok;
#if MODE == 1
	size_t olen;
#endif

	w_init();
	P.maxmem = vf_u64();
	P.maxmemfrac = 0.5;
	P.maxtime = 300.0;
	w_memlimit = vf_u64();
	w_opps = 1000000.0;
#if MODE == 2
	static uint8_t pw[4], in[4], o[132];

	(void)h; (void)L;
	P.logN = vf_int();
	VASSUME(P.logN > 0);
	if (vf_fork(P.logN <= 63)) {
		VASSUME(ISN(P.logN));
		P.logN = (int)vf_concrete((uint64_t)P.logN);
	}
	logN = (uint64_t)P.logN;
	r = P.r = vf_u32();
	p = P.p = vf_u32();
	VASSUME(r != 0 && p != 0);
#else
	L = MODE == 0 ? vf_u64() : 130;
	VASSUME(L <= 1000);
	w_input(L);
	h = win.data;
	if (!vf_fork(L >= 96))
		h = NULL;
	logN = r = p = 0;
	if (h != NULL) {
		logN = h[7];
		if (vf_fork(logN >= 1 && logN <= 63)) {
			VASSUME(ISN(logN));
			logN = vf_concrete(logN);
		}
		r = (uint32_t)h[8] << 24 | (uint32_t)h[9] << 16 | (uint32_t)h[10] << 8 | h[11];
		p = (uint32_t)h[12] << 24 | (uint32_t)h[13] << 16 | (uint32_t)h[14] << 8 | h[15];
	}
#endif
	ok = vf_fork(logN >= 1 && logN <= 63) && vf_fork((uint64_t)r * p < 0x40000000) && vf_fork(r != 0) && vf_fork(p != 0);
#if MODE == 0
	w_maxin = 4;
	w_maxinfault = 1;
	rc = scryptdec_file_printparams(FIN);
	VASSERT(n_kdf == 0, "info derives no key");
	if (vf_fork(rc == SCRYPT_OK)) {
		VASSERT(ok, "parameters that are not valid are refused");
		check_text(logN, r, p, 0);
	} else {
		VASSERT(outlen == 0, "nothing is said about what is refused");
		VASSERT(!ok || rc != SCRYPT_EINVAL || (memcmp)(h, "scrypt", 6) != 0, "a valid header is not refused");
	}
#else
#if MODE == 1
	static uint8_t o[130];

	rc = scryptdec_buf(h, 130, o, &olen, (const uint8_t *)"pw", 2, &P, 1, FORCE);
#else
	rc = scryptenc_buf(in, 4, o, pw, 4, &P, 1, FORCE);
#endif
	VASSERT(outlen == 0 || ok, "nothing is said about parameters that are not valid");
	VASSERT(n_kdf == 0 || outlen != 0, "the parameters used are shown");
	VASSERT(rc != SCRYPT_OK || outlen != 0, "the parameters used are shown");
	if (outlen != 0)
		check_text(logN, r, p, !FORCE);
#endif
}
