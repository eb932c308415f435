/*
 * C34: messages.  MODE 0: scryptenc_print_error; 1: warn/warnx/warnp/warn0
 * and warnp_setprogname; 2: asprintf.
 */
#define VF_HARNESS 1
#include "scryptenc.h"
#include "scryptenc_print_error.h"
#include "warnp.h"
#include "vf.h"
#undef malloc
#undef free
#if MODE == 1
#define OUTCAP (2 * 4200)
#endif
#include "vf_out.h"

static int nalloc_failed, live;
void *
vf_malloc(size_t n)
{
	void * p;

	if (vf_fork(vf_bool()) || (p = malloc(n)) == NULL) {
		nalloc_failed++;
		errno = ENOMEM;
		return (NULL);
	}
	live++;
	return (p);
}
void
vf_free(void * p)
{

	if (p != NULL)
		live--;
	free(p);
}
char *
vf_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = vf_malloc(n);

	if (p != NULL)
		memcpy(p, s, n);
	return (p);
}
int vf_atexit(void (*f)(void)) { (void)f; return (0); }
static int
streq(const char * a, const char * b, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			return (0);
	return (b[n] == '\0');
}

#if MODE == 0
static int nmsg, sys;
static void
message(int withsys, const char * f, va_list ap)
{

	outlen = vf_format(out, OUTCAP, f, ap);
	nmsg++;
	sys = withsys;
}
void
libcperciva_warn(const char * f, ...)
{
	va_list ap;

	va_start(ap, f);
	message(1, f, ap);
	va_end(ap);
}
void
libcperciva_warnx(const char * f, ...)
{
	va_list ap;

	va_start(ap, f);
	message(0, f, ap);
	va_end(ap);
}
/* Every code: is there a system error, and the message (%i, %o: file names). */
static const struct { int rc; int sys; const char * msg; const char * which; } tab[] = {
	{SCRYPT_ELIMIT, 1, "Error determining amount of available memory", NULL},
	{SCRYPT_ECLOCK, 1, "Error reading clocks", NULL},
	{SCRYPT_EKEY, 1, "Error computing derived key", NULL},
	{SCRYPT_ESALT, 1, "Error reading salt", NULL},
	{SCRYPT_EOPENSSL, 1, "OpenSSL error", NULL},
	{SCRYPT_ENOMEM, 1, "Error allocating memory", NULL},
	{SCRYPT_EINVAL, 0, "Input is not valid scrypt-encrypted block", NULL},
	{SCRYPT_EVERSION, 0, "Unrecognized scrypt format version", NULL},
	{SCRYPT_ETOOBIG, 0, "Decrypting file would require too much memory", NULL},
	{SCRYPT_ETOOSLOW, 0, "Decrypting file would take too much CPU time", NULL},
	{SCRYPT_EBIGSLOW, 0, "Decrypting file would require too much memory and CPU time", NULL},
	{SCRYPT_EPASS, 0, "Passphrase is incorrect", NULL},
	{SCRYPT_EWRFILE, 1, "Error writing file: ", "o"},
	{SCRYPT_ERDFILE, 1, "Error reading file: ", "i"},
	{SCRYPT_EPARAM, 0, "Error in explicit parameters", NULL},
};
void
vf_harness(void)
{
	int rc = vf_int(), k, err = vf_int();
	char in[4], of[4];
	const char * inp = vf_fork(vf_bool()) ? in : NULL, * outp = vf_fork(vf_bool()) ? of : NULL;
	const char * w;
	size_t i, n;

	VASSUME(rc != SCRYPT_OK);
	for (i = 0; i < 3; i++) {
		in[i] = (char)vf_u8();
		of[i] = (char)vf_u8();
		VASSUME(in[i] != '\0' && of[i] != '\0');
	}
	in[3] = of[3] = '\0';
	for (k = 0; k < 15 && !vf_fork(rc == tab[k].rc); k++)
		continue;
	vf_fork(err != 0);
	errno = err;
	scryptenc_print_error(rc, inp, outp);
	VASSERT(nmsg == 1, "one message");
	VASSERT(errno == 0, "errno is reset");
	if (k == 15) {
		VASSERT(!sys && outlen > 0, "an unknown code is reported without a system error");
	}
	if (k == 15)
		return;
	VASSERT(sys == (tab[k].sys && err != 0), "the system error is named for exactly the codes that have one");
	n = strlen(tab[k].msg);
	VASSERT(outlen >= n, "the code's message");
	for (i = 0; i < n; i++)
		VASSERT(out[i] == tab[k].msg[i], "the code's message");
	if (tab[k].which == NULL)
		VASSERT(outlen == n, "the code's message, complete");
	else {
		w = tab[k].which[0] == 'i' ? (inp != NULL ? inp : "standard input") : (outp != NULL ? outp : "standard output");
		VASSERT(outlen == n + strlen(w), "the file's name");
		for (i = 0; w[i] != '\0'; i++)
			VASSERT(out[n + i] == w[i], "the file's name");
		VREACH("file named");
	}
}
#endif

#if MODE == 1
static int locked, logs, logprio;
#define SYS "system error text"
char * vf_strerror(int e);
static int errwanted;
char *
vf_strerror(int e)
{
	static char s[] = SYS, t[] = "another error";

	return (vf_fork(e == errwanted) ? s : t);
}
static void
clobber(void)
{

	errno = EINTR;
}
void
vf_lock(FILE * f, int d)
{

	VASSERT(f == stderr, "standard error is locked");
	locked += d;
	VASSERT(locked == 0 || locked == 1, "locked once");
	clobber();
}
int
vf_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	size_t n;

	VASSERT(f == stderr, "messages go to standard error");
	VASSERT(locked == 1, "pieces of a message are not separated");
	n = vf_format(&out[outlen], OUTCAP - outlen, fmt, ap);
	outlen += n;
	clobber();
	return ((int)n);
}
int
vf_fprintf(FILE * f, const char * fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = vf_vfprintf(f, fmt, ap);
	va_end(ap);
	return (r);
}
int vf_fputs(const char * s, FILE * f) { return (vf_fprintf(f, "%s", s)); }
int vf_fputc(int c, FILE * f) { return (vf_fprintf(f, "%c", c)); }
size_t vf_fwrite(const void * p, size_t a, size_t b, FILE * f) { (void)p; (void)a; (void)f; VASSERT(0, "fwrite unexpected"); return (b); }
int
vf_vsnprintf(char * s, size_t n, const char * fmt, va_list ap)
{
	size_t k;

	VASSERT(n >= 1, "room");
	k = vf_format(s, n - 1, fmt, ap);
	s[k < n - 1 ? k : n - 1] = '\0';
	clobber();
	return ((int)k);
}
int vf_snprintf(char * s, size_t n, const char * fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = vf_vsnprintf(s, n, fmt, ap);
	va_end(ap);
	return (r);
}
void
vf_syslog(int prio, const char * fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	outlen = vf_format(out, OUTCAP, fmt, ap);
	va_end(ap);
	logs++;
	logprio = prio;
	clobber();
}
static size_t epos;
static void
expect(const char * s)
{
	size_t i;

	for (i = 0; s[i] != '\0'; i++, epos++)
		VASSERT(epos < outlen && out[epos] == s[i], "the message is complete and unaltered");
}
/* The longest message that must come through to the system log. */
#ifndef BIG
#define BIG 0
#endif
void
vf_harness(void)
{
	char prog[6], arg[BIG + 5];
	const char * base;
	size_t i;
	int kind = (int)vf_concrete(vf_u8() % 4), err = vf_int(), setname = 1, fmtnull = 0, slog = 0, prio = LOG_WARNING, withsys;

#ifndef NAMES
	for (i = 0; i < 4; i++) {
		arg[i] = (char)vf_u8();
		VASSUME(i > 0 || BIG == 0 || arg[i] != '\0');
	}
	for (; i < BIG; i++)
		arg[i] = 'x';
	arg[i] = '\0';
	if (BIG)
		VASSUME(arg[1] != '\0' && arg[2] != '\0' && arg[3] != '\0');
#if BIG >= 1000
	kind = 0;
#endif
	slog = vf_fork(vf_bool());
#if BIG < 1000
	setname = vf_fork(vf_bool());
	fmtnull = vf_fork(vf_bool());
#endif
	strcpy(prog, "a/b");
#else
	arg[0] = 'm';
	arg[1] = '\0';
	for (i = 0; i < 5; i++)
		prog[i] = (char)vf_u8();
	prog[5] = '\0';
#endif
	errwanted = err;
	base = prog;
	for (i = 0; vf_fork(prog[i] != '\0'); i++)
		if (vf_fork(prog[i] == '/'))
			base = &prog[i + 1];
	if (setname) {
		/* twice: the later name counts */
		warnp_setprogname("x/old");
		warnp_setprogname(prog);
	}
	if (slog) {
		warnp_syslog(1);
		if (vf_fork(vf_bool()))
			warnp_syslog_priority(prio = LOG_INFO);
	}
	nalloc_failed = nalloc_failed || !setname;
	vf_fork(err != 0);
	errno = err;
	withsys = 0;
	if (kind == 0) {
		libcperciva_warn(fmtnull ? NULL : "<%s|%d>", arg, -17);
		VASSERT(errno == err, "errno is preserved");
		withsys = 1;
	} else if (kind == 1) {
		libcperciva_warnx(fmtnull ? NULL : "<%s|%d>", arg, -17);
		VASSERT(errno == err, "errno is preserved");
	} else if (kind == 2) {
		fmtnull = 0;
		warnp("<%s|%d>", arg, -17);
		VASSERT(errno == 0, "errno is reset");
		withsys = err != 0;
	} else {
		fmtnull = 0;
		warn0("<%s|%d>", arg, -17);
		VASSERT(errno == 0, "errno is reset");
	}
	VASSERT(locked == 0, "the lock is released");
	if (!slog) {
		VASSERT(logs == 0, "not to the log");
		/* the name, unless it could not be kept */
		if (nalloc_failed)
			VSTOP();
		expect(base);
		if (!fmtnull) {
			expect(": <");
			expect(arg);
			expect("|-17>");
		}
		if (withsys) {
			expect(": ");
			expect(SYS);
		}
		expect("\n");
		VASSERT(epos == outlen, "nothing else");
		VREACH("printed");
	} else {
#ifndef NAMES
		VASSERT(logs == 1 && logprio == prio, "one log entry of the chosen priority");
		if (!fmtnull) {
			expect("<");
			expect(arg);
			expect("|-17>");
			if (withsys)
				expect(": ");
		}
		if (withsys)
			expect(SYS);
		expect("\n");
		VASSERT(epos == outlen, "nothing else");
		VREACH("logged");
#endif
	}
}
#endif

#if MODE == 2
#include "asprintf.h"
static int fmtfail;
int
vf_vsnprintf(char * s, size_t n, const char * fmt, va_list ap)
{
	size_t k;

	if (vf_fork(vf_bool())) {
		fmtfail++;
		return (-1);
	}
	k = vf_format(s, n == 0 ? 0 : n - 1, fmt, ap);
	if (n > 0)
		s[k < n - 1 ? k : n - 1] = '\0';
	return ((int)k);
}
void
vf_harness(void)
{
	char arg[LEN + 1];
	char * p = NULL;
	int rc;
	size_t i, n;
	unsigned u = (unsigned)vf_concrete(vf_u8() & 127);

	for (i = 0; i < LEN; i++)
		arg[i] = i < 3 ? (char)vf_u8() : 'x';
	arg[LEN] = '\0';
	for (n = 0; vf_fork(arg[n] != '\0'); n++)
		continue;
	rc = asprintf(&p, "%u:%s", u, arg);
	if (rc < 0) {
		VASSERT(rc == -1 && (nalloc_failed || fmtfail), "fails only for a reason");
		VASSERT(live == 0, "nothing is leaked");
		VREACH("failure");
	} else {
		size_t d = u < 10 ? 1 : u < 100 ? 2 : 3;

		VASSERT(!nalloc_failed && !fmtfail, "a failure is a failure");
		VASSERT((size_t)rc == d + 1 + n, "the length of the string");
		VASSERT(p[d] == ':' && (unsigned)(p[d - 1] - '0') == u % 10, "the complete string");
		for (i = 0; i < n; i++)
			VASSERT(p[d + 1 + i] == arg[i], "the complete string");
		VASSERT(p[d + 1 + n] == '\0', "the string is terminated");
		VASSERT(live == 1, "one allocation");
		VREACH("success");
	}
}
#endif
