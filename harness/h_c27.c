/*
 * C27: passphrase sources.  MODE 0: passphrase_entry_parse on strings of LEN
 * characters; 1: passphrase_entry_readpass; 2: readpass_file on a file of LEN
 * bytes of which the first A and the last B are symbolic.
 */
#define VF_HARNESS 1
#include "passphrase_entry.h"
#include "readpass.h"
#include "vf.h"
#undef malloc

#ifndef LEN
#define LEN 0
#endif
#ifndef A
#define A LEN
#define B 0
#endif
char vf_stdin_obj[16], vf_stderr_obj[16];
static char file_obj[16];
static int warned;
/* Wiping (C33). */
static void wipe(volatile void * p, size_t n) { memset((void *)(uintptr_t)p, 0, n); }
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
void libcperciva_warn(const char * f, ...) { (void)f; warned++; }
void libcperciva_warnx(const char * f, ...) { (void)f; warned++; }

static int alloc_failed;
void *
vf_malloc(size_t n)
{
	void * p;

	if (vf_fork(vf_bool()) || (p = malloc(n)) == NULL) {
		alloc_failed = 1;
		errno = ENOMEM;
		return (NULL);
	}
	return (p);
}
char *
vf_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = vf_malloc(n);

	if (p != NULL)
		memcpy(p, s, n);
	return (p);
}

/* MODE 2: the file. */
static uint8_t content[LEN + 1];
static size_t pos;
static size_t errpos;	/* reading at or after this position fails */
static int eofflag, errflag, opens, closes, closefailed, inuse;
static const char * fname;
#ifdef VF_NATIVE
static struct { char * p; size_t n; const uint8_t * c; } given[8];
static int ngiven;
#endif
FILE *
vf_fopen(const char * path, const char * mode)
{

	VASSERT(path == fname && mode[0] == 'r' && mode[1] != '+', "only the named file is opened, for reading");
	if (vf_fork(vf_bool())) {
		errno = ENOENT;
		return (NULL);
	}
	opens++;
	inuse = 1;
	return ((FILE *)(void *)file_obj);
}
static int
next(void)
{

	VASSERT(inuse, "only the open file is used");
	if (errflag || pos >= errpos) {
		errflag = 1;
		errno = EIO;
		return (-1);
	}
	if (pos >= LEN) {
		eofflag = 1;
		return (-1);
	}
	return (content[pos++]);
}
char *
vf_fgets(char * s, int n, FILE * f)
{
	int i, c;

	VASSERT(f == (FILE *)(void *)file_obj, "the named file is read");
#ifdef VF_NATIVE
	given[ngiven].p = s;
	given[ngiven].c = &content[pos];
#endif
	for (i = 0; i + 1 < n; ) {
		if ((c = next()) == -1)
			break;
		s[i++] = (char)c;
		if (c == '\n')
			break;
	}
#ifdef VF_NATIVE
	given[ngiven++].n = (size_t)i;
#endif
	if (errflag || i == 0)
		return (NULL);
	s[i] = '\0';
	return (s);
}
int
vf_fgetc(FILE * f)
{

	VASSERT(f == (FILE *)(void *)file_obj, "the named file is read");
	return (next());
}
size_t
vf_fread(void * p, size_t a, size_t b, FILE * f)
{
	size_t i;
	int c;

	VASSERT(f == (FILE *)(void *)file_obj, "the named file is read");
	for (i = 0; i < a * b && (c = next()) != -1; i++)
		((char *)p)[i] = (char)c;
	return (i / a);
}
int vf_ferror(FILE * f) { (void)f; return (errflag); }
int vf_feof(FILE * f) { (void)f; return (eofflag); }
int
vf_fclose(FILE * f)
{

	VASSERT(f == (FILE *)(void *)file_obj && inuse, "an open file is closed");
	inuse = 0;
	closes++;
	if (vf_fork(vf_bool())) {
		closefailed = 1;
		return (EOF);
	}
	return (0);
}

/* MODE 1: the sources. */
#if MODE == 1
static int used, src_fail, p_dev;
static const char * p_prompt, * p_confirm, * p_file, * p_env;
static char theenv[4], thepass[4];
int
readpass(char ** passwd, const char * prompt, const char * confirm, int devtty)
{

	used |= 1;
	p_prompt = prompt;
	p_confirm = confirm;
	p_dev = devtty;
	if ((src_fail = vf_fork(vf_bool())))
		return (-1);
	*passwd = thepass;
	return (0);
}
int
readpass_file(char ** passwd, const char * name)
{

	used |= 2;
	p_file = name;
	if ((src_fail = vf_fork(vf_bool())))
		return (-1);
	*passwd = thepass;
	return (0);
}
char *
vf_getenv(const char * n)
{

	used |= 4;
	p_env = n;
	if ((src_fail = vf_fork(vf_bool())))
		return (NULL);
	return (theenv);
}
#else
char * vf_getenv(const char * n) { (void)n; return (NULL); }
#if MODE != 2
int readpass_file(char ** p, const char * n) { (void)p; (void)n; return (-1); }
#endif
int readpass(char ** p, const char * a, const char * b, int c) { (void)p; (void)a; (void)b; (void)c; return (-1); }
#endif

#if MODE == 0
static int
is(const char * s, const char * lit, int prefix)
{
	size_t i;

	for (i = 0; lit[i] != '\0'; i++)
		if (!vf_fork(s[i] == lit[i]))
			return (0);
	return (prefix || vf_fork(s[i] == '\0'));
}
void
vf_harness(void)
{
	char s[LEN + 1];
	const char * arg = NULL;
	enum passphrase_entry e = PASSPHRASE_UNSET, want = PASSPHRASE_UNSET;
	size_t i, off = 4;
	int rc;

	for (i = 0; i < LEN; i++) {
		s[i] = (char)vf_u8();
		VASSUME(s[i] != '\0');
	}
	s[LEN] = '\0';
	if (is(s, "dev:tty-stdin", 0))
		want = PASSPHRASE_TTY_STDIN;
	else if (is(s, "dev:stdin-once", 0))
		want = PASSPHRASE_STDIN_ONCE;
	else if (is(s, "dev:tty-once", 0))
		want = PASSPHRASE_TTY_ONCE;
	else if (is(s, "env:", 1))
		want = PASSPHRASE_ENV;
	else if (is(s, "file:", 1)) {
		want = PASSPHRASE_FILE;
		off = 5;
	}
	rc = passphrase_entry_parse(s, &e, &arg);
	if (want == PASSPHRASE_UNSET) {
		VASSERT(rc != 0, "anything else is refused");
		VASSERT(warned, "with a message");
		VREACH("refused");
	} else {
		VASSERT(rc == 0, "a valid source is accepted");
		VASSERT(e == want, "the source that was named");
		VASSERT(arg == s + off, "with its argument");
		VREACH("accepted");
	}
}
#elif MODE == 1
void
vf_harness(void)
{
	int m = (int)vf_concrete(vf_u8() % 6), once = vf_fork(vf_bool()), rc;
	enum passphrase_entry e = (enum passphrase_entry)m;
	char * out = NULL;
	static const char prompt[] = "p", confirm[] = "c", arg[] = "x";
	size_t i;

	for (i = 0; i < 3; i++) {
		theenv[i] = (char)vf_u8();
	}
	theenv[3] = '\0';
	rc = passphrase_entry_readpass(&out, e, arg, prompt, confirm, once);
	if (src_fail || alloc_failed || e == PASSPHRASE_UNSET) {
		VASSERT(rc != 0, "a failing source is a failure");
		VREACH("failure");
	} else {
		VASSERT(rc == 0, "success");
		VREACH("success");
		if (e == PASSPHRASE_ENV) {
			for (i = 0; vf_fork(theenv[i] != '\0'); i++)
				VASSERT(out[i] == theenv[i], "the variable's value");
			VASSERT(out[i] == '\0', "the whole value");
			VASSERT(out != theenv, "in memory of its own");
			VREACH("environment");
		} else
			VASSERT(out == thepass, "the source's passphrase");
	}
	switch (e) {
	case PASSPHRASE_TTY_STDIN:
		VASSERT(used == 1 && p_dev == 1 && p_prompt == prompt && p_confirm == (once ? NULL : confirm), "the terminal, else standard input; asked twice unless once");
		break;
	case PASSPHRASE_STDIN_ONCE:
		VASSERT(used == 1 && p_dev == 0 && p_confirm == NULL, "standard input, once");
		break;
	case PASSPHRASE_TTY_ONCE:
		VASSERT(used == 1 && p_dev == 2 && p_prompt == prompt && p_confirm == NULL, "the terminal only, once");
		break;
	case PASSPHRASE_ENV:
		VASSERT(used == 4 && p_env == arg, "the named variable");
		break;
	case PASSPHRASE_FILE:
		VASSERT(used == 2 && p_file == arg, "the named file");
		break;
	default:
		VASSERT(used == 0, "no source");
		break;
	}
}
#else
#ifdef VF_NATIVE
__attribute__((no_sanitize("address")))
static void
still(void)
{
	int k;
	size_t i;

	for (k = 0; k < ngiven; k++) {
		for (i = 0; i < given[k].n; i++)
			if (given[k].p[i] == (char)given[k].c[i])
				VASSERT(0, "the passphrase remains in a released buffer");
	}
}
#endif
void
vf_harness(void)
{
	char * out = NULL;
	size_t i, end, more = 0;
	int rc;

	fname = "f";
	for (i = 0; i < LEN; i++)
		content[i] = 'a';
	vf_secret(content, A);
	if (B)
		vf_secret(&content[LEN - B], B);
	for (i = 0; i < LEN; i++)
		VASSUME(content[i] != '\0');
	errpos = LEN + 1;
	if (vf_fork(vf_bool())) {
		errpos = vf_fork(vf_bool()) ? LEN : LEN / 2;
	}
	vf_watch_secrets(1);
	rc = readpass_file(&out, fname);
#ifdef VF_NATIVE
	still();
#endif
	vf_watch_secrets(0);
	VASSERT(opens == closes, "the file is closed");
	for (i = 0; i < LEN && vf_fork(content[i] != '\n'); i++)
		continue;
	more = i < LEN && i + 1 < LEN;
	for (end = 0; end < i && vf_fork(content[end] != '\r'); end++)
		continue;
	if (rc == 0) {
		VASSERT(opens == 1, "the file was opened");
		VASSERT(!errflag, "a read failure is a failure");
		VASSERT(!more, "several lines are refused");
		VASSERT(LEN < 2048, "a file of 2048 bytes or more is refused");
		for (i = 0; i < end; i++)
			VASSERT((uint8_t)out[i] == content[i], "the passphrase is the file's line");
		VASSERT(out[end] == '\0', "without its terminator");
		VREACH("success");
	} else {
		VASSERT(opens == 0 || errflag || more || LEN >= 2048 || closefailed || alloc_failed, "refused only with reason");
		VASSERT(warned, "with a message");
		VREACH("refused");
	}
}
#endif
