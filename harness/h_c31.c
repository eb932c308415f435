/*
 * C31, C07: the program.  The command line is put together from SHAPE: every
 * argument after the program name is a choice among some strings.  Numbers are
 * the strings "1".."3" ("-1".."-3"): what they denote is arbitrary.  FAULTS:
 * whatever can fail may fail.
 */
#include "platform.h"
#include "scryptenc.h"
#include "passphrase_entry.h"
#include "readpass.h"
#include "humansize.h"

int scrypt_main(int, char **);
#ifndef WIPE
#define WIPE 0
#endif

char vf_stdin_obj[16], vf_stdout_obj[16], vf_stderr_obj[16];
static char in_obj[16], out_obj[16], cookie_obj[16];
#define INF ((FILE *)(void *)in_obj)
#define OUTF ((FILE *)(void *)out_obj)
static void wipe(volatile void * p, size_t n) { memset((void *)(uintptr_t)p, 0, n); }
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

static int msgs, outbytes;
static char outtext[64];
static int faulted;
static int
fail(void)
{

	if (!FAULTS || !vf_fork(vf_bool()))
		return (0);
	faulted = 1;
	return (1);
}

void libcperciva_warn(const char * f, ...) { (void)f; msgs++; }
void libcperciva_warnx(const char * f, ...) { (void)f; msgs++; }
void warnp_setprogname(const char * s) { (void)s; }
void warnp_syslog(int e) { (void)e; }
void warnp_syslog_priority(int e) { (void)e; }
int vf_atexit(void (*f)(void)) { (void)f; return (0); }
static void
put(FILE * f, const char * s)
{

	VASSERT(f == stderr || f == stdout, "messages go to a standard stream");
	if (f == stderr) {
		msgs++;
		return;
	}
	for (; *s != '\0'; s++)
		if (outbytes < 63)
			outtext[outbytes++] = *s;
}
static void
vput(FILE * f, const char * fmt, va_list ap)
{
	char b[2] = {0, 0};

	if (f == stderr) {
		msgs++;
		return;
	}
	for (; *fmt != '\0'; fmt++) {
		if (*fmt == '%' && fmt[1] == 's') {
			put(f, va_arg(ap, const char *));
			fmt++;
			continue;
		}
		VASSERT(*fmt != '%', "a format the harness knows");
		b[0] = *fmt;
		put(f, b);
	}
}
int vf_fprintf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); vput(f, fmt, ap); va_end(ap); return (0); }
int vf_printf(const char * fmt, ...) { va_list ap; va_start(ap, fmt); vput(stdout, fmt, ap); va_end(ap); return (0); }
int vf_fputs(const char * s, FILE * f) { put(f, s); return (0); }
int vf_puts(const char * s) { put(stdout, s); put(stdout, "\n"); return (0); }

/* What the numbers denote. */
#define NV 4
static uint64_t uval[NV];
static double dval[NV];
static int full[NV], dfull[NV], hfail[NV];
static uint64_t hval[NV];
static int
digit(const char * s, int * neg)
{

	*neg = 0;
	if (*s == '-') {
		*neg = 1;
		s++;
	}
	return (*s >= '1' && *s <= '3' && s[1] == '\0' ? *s - '0' : 0);
}
static void
end(const char * s, char ** e, int isfull)
{

	if (e != NULL)
		*e = (char *)(uintptr_t)(isfull ? s + strlen(s) : s);
}
uintmax_t
vf_strtoumax(const char * s, char ** e, int base)
{
	int neg, k = digit(s, &neg);

	VASSERT(base == 0 || base == 10, "a base");
	end(s, e, k != 0 && full[k]);
	if (k == 0 || !full[k])
		return (0);
	return (neg ? -uval[k] : uval[k]);
}
intmax_t
vf_strtoimax(const char * s, char ** e, int base)
{
	int neg, k = digit(s, &neg);

	VASSERT(base == 0 || base == 10, "a base");
	end(s, e, k != 0 && full[k]);
	if (k == 0 || !full[k])
		return (0);
	if (neg)
		return (vf_fork(uval[k] > INT64_MAX) ? INT64_MIN : -(int64_t)uval[k]);
	return (vf_fork(uval[k] > INT64_MAX) ? INT64_MAX : (int64_t)uval[k]);
}
double
vf_strtod(const char * s, char ** e)
{
	int neg, k = digit(s, &neg);

	end(s, e, k != 0 && dfull[k]);
	if (k == 0 || !dfull[k])
		return (0.0);
	return (neg ? -dval[k] : dval[k]);
}
int
humansize_parse(const char * s, uint64_t * size)
{
	int neg, k = digit(s, &neg);

	if (k == 0 || neg || hfail[k])
		return (-1);
	*size = hval[k];
	return (0);
}
/* The passphrase in memory. */
static char * pw;
static int pw_freed;
void
vf_free(void * p)
{
	int i;

	if (p != NULL && p == pw) {
		for (i = 0; WIPE && i < 2; i++)
			VASSERT(pw[i] == '\0', "the passphrase is overwritten before it is released");
		pw = NULL;
		pw_freed++;
	}
	(free)(p);
}
char *
vf_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p;

	if (fail())
		return (NULL);
	if ((p = malloc(n)) == NULL)
		VSTOP();
	memcpy(p, s, n);
	return (pw = p);
}

/* What is asked for. */
enum { R_BAD, R_VERSION, R_ENC, R_DEC, R_INFO };
static struct {
	int op, force, verbose;
	int logN, r, p, M, m, t;		/* which number, 0: none */
	enum passphrase_entry pe;
	const char * pearg;
	const char * in, * outf;
} W;

/* What happens. */
static int done, order;
static int n_readpass, n_pwfile, n_env, n_pwfail, rp_devtty, rp_confirm;
static const char * pwfile, * envname;
static int in_opens, in_closes, out_opens, out_closes, out_bad, in_bad, flushes, flush_bad;
static int n_info, n_enc, n_prep, n_copy, n_free, rc_info, rc_enc, rc_prep, rc_copy;
static struct scryptenc_params got;
static int got_verbose, got_force, written;

static int
password(char ** p)
{

	VASSERT(done == 0, "nothing happens after the end");
	if (fail()) {
		n_pwfail++;
		return (-1);
	}
	if ((*p = malloc(3)) == NULL)
		VSTOP();
	memcpy(*p, "pw", 3);
	pw = *p;
	return (0);
}
int
readpass(char ** p, const char * prompt, const char * confirm, int devtty)
{

	VASSERT(prompt != NULL, "a prompt");
	n_readpass++;
	rp_devtty = devtty;
	rp_confirm = confirm != NULL;
	return (password(p));
}
int
readpass_file(char ** p, const char * f)
{

	n_pwfile++;
	pwfile = f;
	return (password(p));
}
char *
vf_getenv(const char * n)
{

	envname = n;
	n_env++;
	if (fail()) {
		n_pwfail++;
		return (NULL);
	}
	return ((char *)(uintptr_t)"pw");
}
FILE *
vf_fopen(const char * path, const char * mode)
{

	VASSERT(W.op == R_ENC || W.op == R_DEC || W.op == R_INFO, "no file is opened unless an operation was asked for properly");
	if (mode[0] == 'r') {
		VASSERT(strchr(mode, '+') == NULL, "input is not opened for writing");
		VASSERT(W.in != NULL && strcmp(path, W.in) == 0, "the input that was named");
		VASSERT(in_opens == 0, "opened once");
		if (fail()) {
			in_bad = 1;
			errno = ENOENT;
			return (NULL);
		}
		in_opens = 1;
		return (INF);
	}
	VASSERT(W.op != R_INFO, "info writes no file");
	VASSERT(W.outf != NULL && strcmp(path, W.outf) == 0, "no other file than the named output is opened for writing");
	VASSERT(out_opens == 0 && !out_bad, "opened once");
	VASSERT(W.op != R_DEC || (n_prep == 1 && rc_prep == SCRYPT_OK), "the output is not touched before the passphrase was verified");
	VASSERT(mode[0] == 'w', "the output is written from the start");
	if (fail()) {
		out_bad = 1;
		errno = EACCES;
		return (NULL);
	}
	out_opens = 1;
	return (OUTF);
}
FILE * vf_reopen(const char * p, const char * m, FILE * f) { (void)p; (void)m; (void)f; VASSERT(0, "no stream is reopened"); return (NULL); }
int
vf_open(const char * p, int fl, ...)
{

	VASSERT(W.op != R_BAD && W.op != R_VERSION, "no file is opened unless an operation was asked for properly");
	VASSERT((fl & 3) == 0 && (fl & 01100) == 0, "nothing else is opened for writing");
	(void)p;
	errno = ENOENT;
	return (-1);
}
int vf_access(const char * p, int m) { (void)p; (void)m; return (fail() ? -1 : 0); }
int vf_unlink(const char * p) { (void)p; VASSERT(0, "no file is removed"); return (-1); }
int
vf_fclose(FILE * f)
{

	VASSERT((f == INF && in_opens && !in_closes) || (f == OUTF && out_opens && !out_closes) || f == stdout || f == stdin, "a stream that is open is closed");
	if (f == INF) {
		in_closes = 1;
		return (fail() ? EOF : 0);
	}
	if (f == OUTF || f == stdout) {
		if (f == OUTF)
			out_closes = 1;
		flushes++;
		if (fail()) {
			flush_bad = 1;
			errno = ENOSPC;
			return (EOF);
		}
	}
	return (0);
}
int
vf_fflush(FILE * f)
{

	VASSERT(f == NULL || f == stdout || f == stderr || (f == OUTF && out_opens && !out_closes), "an open stream");
	if (f == stderr)
		return (0);
	if (f == OUTF || f == stdout || f == NULL) {
		flushes++;
		if (fail()) {
			flush_bad = 1;
			errno = ENOSPC;
			return (EOF);
		}
	}
	return (0);
}
int vf_ferror(FILE * f) { (void)f; return (flush_bad); }

static void
op_checks(FILE * in)
{

	VASSERT(done == 0, "nothing happens after the end");
	VASSERT(in == (W.in == NULL ? stdin : INF), "the input that was asked for");
	VASSERT(W.in == NULL || (in_opens && !in_closes), "an open input");
}
static void
pw_checks(const uint8_t * p, size_t n)
{

	VASSERT(n == 2 && p[0] == 'p' && p[1] == 'w', "the passphrase that was entered");
	VASSERT(n_pwfail == 0, "a passphrase was entered");
}
static int
result(void)
{
	uint32_t rc;

	if (!fail())
		return (SCRYPT_OK);
	rc = vf_u32();
	VASSUME(rc >= 1 && rc <= 20);
	return ((int)rc);
}
int
scryptdec_file_printparams(FILE * in)
{

	op_checks(in);
	VASSERT(W.op == R_INFO, "only what was asked for is done");
	n_info++;
	return (rc_info = result());
}
int
scryptenc_file(FILE * in, FILE * o, const uint8_t * pw, size_t n, struct scryptenc_params * P, int verbose, int force)
{

	op_checks(in);
	pw_checks(pw, n);
	VASSERT(W.op == R_ENC, "only what was asked for is done");
	VASSERT(o == (W.outf == NULL ? stdout : OUTF) && (W.outf == NULL || (out_opens && !out_closes)), "the output that was asked for");
	n_enc++;
	got = *P;
	got_verbose = verbose;
	got_force = force;
	flushes = 0;
	written = 1;
	return (rc_enc = result());
}
int
scryptdec_file_prep(FILE * in, const uint8_t * pw, size_t n, struct scryptenc_params * P, int verbose, int force, struct scryptdec_file_cookie ** C)
{

	op_checks(in);
	pw_checks(pw, n);
	VASSERT(W.op == R_DEC, "only what was asked for is done");
	VASSERT(out_opens == 0, "the output is not touched before the passphrase was verified");
	n_prep++;
	got = *P;
	got_verbose = verbose;
	got_force = force;
	rc_prep = result();
	if (rc_prep == SCRYPT_OK)
		*C = (struct scryptdec_file_cookie *)(void *)cookie_obj;
	return (rc_prep);
}
int
scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * o)
{

	VASSERT(n_prep == 1 && rc_prep == SCRYPT_OK && C == (struct scryptdec_file_cookie *)(void *)cookie_obj && n_free == 0, "what was prepared is copied");
	VASSERT(W.in == NULL || !in_closes, "an open input");
	VASSERT(o == (W.outf == NULL ? stdout : OUTF) && (W.outf == NULL || (out_opens && !out_closes)), "the output that was asked for");
	n_copy++;
	flushes = 0;
	written = 1;
	return (rc_copy = result());
}
void
scryptdec_file_cookie_free(struct scryptdec_file_cookie * C)
{

	if (C == NULL)
		return;
	VASSERT(C == (struct scryptdec_file_cookie *)(void *)cookie_obj && n_free == 0 && rc_prep == SCRYPT_OK && n_prep == 1, "freed once");
	n_free++;
}
int
scryptdec_file(FILE * in, FILE * o, const uint8_t * pw, size_t n, struct scryptenc_params * P, int verbose, int force)
{
	struct scryptdec_file_cookie * C;
	int rc;

	if ((rc = scryptdec_file_prep(in, pw, n, P, verbose, force, &C)) != SCRYPT_OK)
		return (rc);
	return (scryptdec_file_copy(C, o));
}

/* The meaning of a command line. */
static int argc;
static char * argv[12];
#define MAXARG 8

static int
number(const char * s, uint64_t lo, uint64_t hi, int * which)
{
	int neg, k = digit(s, &neg);

	*which = k;
	return (k != 0 && !neg && full[k] && vf_fork(uval[k] >= lo) && vf_fork(uval[k] <= hi));
}
static int
real(const char * s, double lo, double hi, int * which)
{
	int neg, k = digit(s, &neg);

	if (k == 0 || !dfull[k])
		return (0);
	*which = neg ? -k : k;
	return (neg ? vf_fork(-dval[k] >= lo) && vf_fork(-dval[k] <= hi) : vf_fork(dval[k] >= lo) && vf_fork(dval[k] <= hi));
}
static int
source(const char * s)
{

	if (W.pe != PASSPHRASE_UNSET)
		return (0);
	W.pearg = "";
	if (strcmp(s, "dev:tty-stdin") == 0)
		W.pe = PASSPHRASE_TTY_STDIN;
	else if (strcmp(s, "dev:stdin-once") == 0)
		W.pe = PASSPHRASE_STDIN_ONCE;
	else if (strcmp(s, "dev:tty-once") == 0)
		W.pe = PASSPHRASE_TTY_ONCE;
	else if (strncmp(s, "env:", 4) == 0) {
		W.pe = PASSPHRASE_ENV;
		W.pearg = s + 4;
	} else if (strncmp(s, "file:", 5) == 0) {
		W.pe = PASSPHRASE_FILE;
		W.pearg = s + 5;
	} else
		return (0);
	return (1);
}
static int
setting(const char * o, const char * v)
{
	int neg, k;

	if (strcmp(o, "--logN") == 0)
		return (number(v, 10, 40, &W.logN));
	if (strcmp(o, "-r") == 0)
		return (number(v, 1, 32, &W.r));
	if (strcmp(o, "-p") == 0)
		return (number(v, 1, 2048, &W.p));
	if (strcmp(o, "-m") == 0)
		return (real(v, 0, 0.5, &W.m));
	if (strcmp(o, "-t") == 0)
		return (real(v, 0, INFINITY, &W.t));
	if (strcmp(o, "-M") == 0) {
		k = digit(v, &neg);
		W.M = k;
		return (k != 0 && !neg && !hfail[k]);
	}
	return (source(v));
}
static int
parse(void)
{
	static char o[3] = "-x";
	int i, op;

	if (argc < 2)
		return (R_BAD);
	if (strcmp(argv[1], "--version") == 0)
		return (R_VERSION);
	if (strcmp(argv[1], "enc") == 0)
		op = R_ENC;
	else if (strcmp(argv[1], "dec") == 0)
		op = R_DEC;
	else if (strcmp(argv[1], "info") == 0)
		op = R_INFO;
	else
		return (R_BAD);
	for (i = 2; i < argc; ) {
		const char * s = argv[i];

		if (s[0] != '-' || s[1] == '\0')
			break;
		if (strcmp(s, "--") == 0) {
			i++;
			break;
		}
		i++;
		if (s[1] == '-') {
			const char * eq = strchr(s, '=');

			if (eq == NULL && (strcmp(s, "--logN") == 0 || strcmp(s, "--passphrase") == 0)) {
				if (i >= argc || !setting(s, argv[i++]))
					return (R_BAD);
			} else if (strncmp(s, "--logN=", 7) == 0) {
				if (!setting("--logN", s + 7))
					return (R_BAD);
			} else if (strncmp(s, "--passphrase=", 13) == 0) {
				if (!setting("--passphrase", s + 13))
					return (R_BAD);
			} else
				return (R_BAD);
			continue;
		}
		for (s++; *s != '\0'; s++) {
			o[1] = *s;
			if (*s == 'f')
				W.force = 1;
			else if (*s == 'v')
				W.verbose = 1;
			else if (*s == 'P') {
				if (!source("dev:stdin-once"))
					return (R_BAD);
			} else if (strchr("mMprt", *s) != NULL) {
				if (s[1] != '\0') {
					if (!setting(o, s + 1))
						return (R_BAD);
				} else if (i >= argc || !setting(o, argv[i++]))
					return (R_BAD);
				break;
			} else
				return (R_BAD);
		}
	}
	if (argc - i < 1 || argc - i > 2)
		return (R_BAD);
	if ((W.logN || W.r || W.p) && !(W.logN && W.r && W.p))
		return (R_BAD);
	if (W.m && vf_fork(dval[W.m < 0 ? -W.m : W.m] == 0.0))
		return (R_BAD);
	W.in = strcmp(argv[i], "-") == 0 ? NULL : argv[i];
	W.outf = argc - i == 2 ? argv[i + 1] : NULL;
	if (W.pe == PASSPHRASE_UNSET) {
		W.pe = PASSPHRASE_TTY_STDIN;
		W.pearg = "";
	}
	if (W.pe == PASSPHRASE_STDIN_ONCE && W.in == NULL)
		return (R_BAD);
	return (op);
}
static int
samedouble(double a, int k, double def)
{
	double b = k == 0 ? def : k > 0 ? dval[k] : -dval[-k];

	return (vf_same(&a, &b, sizeof(a)) || a == b);
}
void
vf_exit(int code)
{
	int good, isrc;

	VASSERT(done == 0, "ends once");
	done = 1;
	/* exit() writes what is buffered, and nobody learns whether that worked */
	if (W.op == R_BAD) {
		VASSERT(code == 1, "a command line that is not understood: exit status 1");
		VASSERT(msgs > 0, "with a message");
		VASSERT(in_opens + out_opens + in_bad + out_bad + n_info + n_enc + n_prep + n_copy + n_readpass + n_pwfile + n_env == 0, "nothing is done");
		VREACH("refused");
		VSTOP();
	}
	if (W.op == R_VERSION) {
		VASSERT(code == 0 && msgs == 0, "the version");
		VASSERT(in_opens + out_opens + in_bad + out_bad + n_info + n_enc + n_prep + n_copy + n_readpass + n_pwfile + n_env == 0, "nothing is done");
		outtext[outbytes] = '\0';
		VASSERT(strncmp(outtext, "scrypt ", 7) == 0 && strncmp(outtext + 7, PACKAGE_VERSION, strlen(PACKAGE_VERSION)) == 0 && strlen(outtext) == 8 + strlen(PACKAGE_VERSION) && outtext[outbytes - 1] == '\n', "the version is printed");
		VREACH("version");
		VSTOP();
	}
	VASSERT(outbytes == 0, "nothing but the output is printed to standard output");
	if (WIPE)
		VASSERT(pw == NULL, "the passphrase is released");
	isrc = W.op == R_INFO ? rc_info : W.op == R_ENC ? rc_enc : n_copy ? rc_copy : rc_prep;
	good = !in_bad && !out_bad && n_pwfail == 0 && isrc == SCRYPT_OK && !flush_bad &&
	    (W.op == R_INFO ? n_info == 1 : W.op == R_ENC ? n_enc == 1 : n_prep == 1 && n_copy == 1);
	if (code == 0) {
		VASSERT(good, "success is reported only if everything succeeded");
		VASSERT(W.op == R_INFO || written, "something was written");
		VASSERT(W.op == R_INFO || (W.outf != NULL ? out_closes == 1 || flushes > 0 : flushes > 0), "success is reported only when the output was written out");
		VREACH("success");
	} else {
		VASSERT(faulted, "a request that can be satisfied is");
		VASSERT(msgs > 0, "failures are explained");
		VASSERT(code > 0 && (code & 255) != 0, "an exit status");
		VREACH("failure");
	}
	VASSERT(n_info <= 1 && n_enc <= 1 && n_prep <= 1 && n_copy <= 1, "done once");
	if (W.op != R_INFO && n_enc + n_prep == 1) {
		VASSERT(got_verbose == W.verbose && got_force == W.force, "the flags that were given");
		VASSERT(got.maxmem == (W.M ? (size_t)hval[W.M] : 0), "the memory limit that was given");
		VASSERT(samedouble(got.maxmemfrac, W.m, W.op == R_ENC ? 0.125 : 0.5), "the memory fraction that was given");
		VASSERT(samedouble(got.maxtime, W.t, W.op == R_ENC ? 5.0 : 300.0), "the time limit that was given");
		VASSERT(got.logN == (W.logN ? (int)uval[W.logN] : 0), "the logN that was given");
		VASSERT(got.r == (W.r ? (uint32_t)uval[W.r] : 0), "the r that was given");
		VASSERT(got.p == (W.p ? (uint32_t)uval[W.p] : 0), "the p that was given");
		VASSERT(n_readpass + n_pwfile + n_env == 1, "the passphrase is read once");
		if (W.pe == PASSPHRASE_ENV)
			VASSERT(n_env == 1 && strcmp(envname, W.pearg) == 0, "the passphrase in the environment");
		else if (W.pe == PASSPHRASE_FILE)
			VASSERT(n_pwfile == 1 && strcmp(pwfile, W.pearg) == 0, "the passphrase in the file");
		else {
			VASSERT(n_readpass == 1 && rp_devtty == (W.pe == PASSPHRASE_TTY_STDIN ? 1 : W.pe == PASSPHRASE_TTY_ONCE ? 2 : 0), "the passphrase from the terminal or standard input");
			VASSERT(rp_confirm == (W.pe == PASSPHRASE_TTY_STDIN && W.op == R_ENC), "confirmed when encrypting");
		}
		VREACH("operation");
	}
	VSTOP();
}

/* A choice among the strings of a list: the list is separated by blanks. */
static char text[256];
static size_t textlen;
static void
choose(const char * list)
{
	int n = 1, k;
	const char * s;

	for (s = list; *s != '\0'; s++)
		n += *s == ' ';
	k = vf_u8();
	VASSUME(k < n);
	k = (int)vf_concrete((uint64_t)k);
	for (s = list; k > 0; s++)
		k -= *s == ' ';
	if (*s == ' ' || *s == '\0')
		return;			/* no argument at all */
	argv[argc++] = &text[textlen];
	while (*s != ' ' && *s != '\0')
		text[textlen++] = *s++;
	text[textlen++] = '\0';
}
void
vf_harness(void)
{
	static const char * const shape[] = {SHAPE};
	size_t i;
	int k;

	text[0] = 's';
	textlen = 2;
	argv[argc++] = text;
	for (i = 0; i < sizeof(shape) / sizeof(shape[0]); i++)
		choose(shape[i]);
	for (k = 1; k < NV; k++) {
		full[k] = dfull[k] = 1;
		uval[k] = vf_u64();
		dval[k] = vf_double();
		hval[k] = vf_u64();
		if (PARTIAL) {
			full[k] = dfull[k] = vf_fork(vf_bool());
			hfail[k] = !full[k];
		}
	}
	W.op = parse();
	k = scrypt_main(argc, argv);
	vf_exit(k);
}
