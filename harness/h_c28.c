/*
 * C28: readpass.  DEVTTY as given; CONFIRM: ask twice; lines of up to MAXL
 * characters; at most ROUNDS lines; at most NARR signals, arriving at any call.
 * LONG: the first line has LONG characters.
 */
#define VF_HARNESS 1
#include "readpass.h"
#include "vf.h"
#undef malloc
#ifndef NARR
#define NARR 1
#endif
#ifndef SIGSET
#define SIGSET 9
#endif

char vf_stdin_obj[16], vf_stderr_obj[16];
static char tty_obj[16];
#define TTY ((FILE *)(void *)tty_obj)
/* Wiping (C33). */
static void wipe(volatile void * p, size_t n) { memset((void *)(uintptr_t)p, 0, n); }
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
static const int sigs[9] = {SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU};
static struct sigaction cur[9], orig[9];
static int changed[9], caught[9], raised[9], early[9];
static int narr, inraise, done, calm;
/* may something fail here? */
static int fail(void) { return (!calm && vf_fork(vf_bool())); }

static struct termios mode0, mode;	/* the original and the current mode */
static int mode_changed, tty_is_tty, tty_failed;
static int opens, closes, alloc_failed, open_failed, get_failed, set_failed;
static FILE * source;

/* What was typed. */
#ifdef LONG
#define BUFL (LONG + 2)
#else
#define BUFL (MAXL + 2)
#endif
static uint8_t line[ROUNDS][BUFL];
static size_t linelen[ROUNDS];
static int nlines, eofs, errs, echo_on, prompts;
#ifdef VF_NATIVE
static struct { char * p; size_t n; const uint8_t * c; } given[8];
static int ngiven;
#endif

static int
idx(int sig)
{
	int i;

	for (i = 0; i < 9; i++)
		if (sigs[i] == sig)
			return (i);
	return (-1);
}
/* Signals may arrive at any call. */
static void
arrival(void)
{
	int k;

	if (narr >= NARR || done || !vf_fork(vf_bool()))
		return;
	narr++;
	k = (int)vf_concrete(vf_u8() % SIGSET);
	if (changed[k]) {
		caught[k]++;
		cur[k].sa_handler(sigs[k]);
	} else {
		/* the caller's own handling: with echo off, that would be lost */
		early[k]++;
		VASSERT(!mode_changed, "no signal gets its usual handling while echo is off");
	}
}
static void
settled(void)
{
	int i;

	for (i = 0; i < 9; i++)
		VASSERT(!changed[i], "the signal handlers are restored");
	VASSERT(!mode_changed, "the terminal mode is restored");
}
int
vf_sigaction(int sig, const struct sigaction * act, struct sigaction * old)
{
	int k = idx(sig);

	VASSERT(k >= 0, "only the listed signals are touched");
	if (NARR == 1 ? k % 4 == 0 : k == 8)
		arrival();
	if (old != NULL)
		*old = cur[k];
	if (act != NULL) {
		cur[k] = *act;
		changed[k] = !(act->sa_handler == orig[k].sa_handler && act->sa_flags == orig[k].sa_flags &&
		    memcmp(&act->sa_mask, &orig[k].sa_mask, 8) == 0);
	}
	return (0);
}
int
vf_raise(int sig)
{
	int k = idx(sig);

	VASSERT(k >= 0, "only the listed signals are raised");
	settled();
	raised[k]++;
	inraise++;
	return (0);
}
FILE *
vf_fopen(const char * path, const char * m)
{

	VASSERT(strcmp(path, "/dev/tty") == 0 && m[0] == 'r', "only the terminal is opened");
	if (fail()) {
		open_failed = 1;
		errno = ENXIO;
		return (NULL);
	}
	opens++;
	return (TTY);
}
int
vf_fclose(FILE * f)
{

	VASSERT(f == TTY && opens == 1 && closes == 0, "what was opened is closed, once");
	closes++;
	return (fail() ? EOF : 0);
}
int vf_fileno(FILE * f) { return (f == TTY ? 7 : 0); }
static void
fdcheck(int fd)
{

	VASSERT(fd == (opens ? 7 : 0) && closes == 0, "the terminal that is read");
}
int
vf_isatty(int fd)
{

	fdcheck(fd);
	return (tty_is_tty);
}
int
vf_tcgetattr(int fd, struct termios * t)
{

	fdcheck(fd);
	VASSERT(tty_is_tty, "only terminals have modes");
	arrival();
	if (fail()) {
		get_failed = 1;
		return (-1);
	}
	*t = mode;
	return (0);
}
static int
samemode(const struct termios * a, const struct termios * b)
{

	return (vf_fork(a->c_iflag == b->c_iflag && a->c_oflag == b->c_oflag && a->c_cflag == b->c_cflag && a->c_lflag == b->c_lflag) &&
	    vf_fork(memcmp(a->c_cc, b->c_cc, NCCS) == 0 && a->c_line == b->c_line && a->c_ispeed == b->c_ispeed && a->c_ospeed == b->c_ospeed));
}
int
vf_tcsetattr(int fd, int act, const struct termios * t)
{
	int same = samemode(t, &mode0);

	fdcheck(fd);
	VASSERT(tty_is_tty, "only terminals have modes");
	VASSERT(act == TCSANOW || act == TCSADRAIN || act == TCSAFLUSH, "a valid action");
	arrival();
	/* turning echo off may fail; restoring does not */
	if (!same && fail()) {
		set_failed = 1;
		return (-1);
	}
	mode = *t;
	mode_changed = !same;
	arrival();
	return (0);
}
int
vf_printf(FILE * f, const char * fmt, ...)
{

	VASSERT(f == stderr, "messages go to standard error");
	(void)fmt;
	prompts++;
	arrival();
	return (0);
}
char *
vf_fgets(char * s, int n, FILE * f)
{
	size_t i, len, k;

	VASSERT(f == (opens ? TTY : stdin) && closes == 0, "the selected source is read");
	VASSERT(n >= 2, "room for a line");
	if (tty_is_tty)
		VASSERT((mode.c_lflag & (tcflag_t)ECHO) == 0, "echo is off while reading");
	if (tty_is_tty)
		VASSERT(((mode.c_lflag ^ mode0.c_lflag) & ~(tcflag_t)(ECHO | ECHOE | ECHOK | ECHONL)) == 0 && mode.c_iflag == mode0.c_iflag &&
		    mode.c_oflag == mode0.c_oflag && mode.c_cflag == mode0.c_cflag, "only echo settings differ while reading");
	if (!tty_is_tty)
		VASSERT(!mode_changed, "no terminal: no mode change");
	arrival();
	if (fail()) {
		errs++;
		if (vf_fork(vf_bool()))
			eofs++;
		return (NULL);
	}
	if (nlines >= ROUNDS)
		VSTOP();
	/* a line of len characters, the last of them a newline or (at end of file) not */
#ifdef LONG
	len = nlines == 0 || CONFIRM == 2 ? LONG : 1;
#else
	len = 1 + (size_t)vf_concrete(vf_u8() % MAXL);
#endif
	for (i = 0; i < len; i++)
		line[nlines][i] = 'a';
	if (len < 8)
		vf_secret(line[nlines], len);
	else
		vf_secret(&line[nlines][len - 3], 3);
	for (i = 0; i < len; i++)
		VASSUME(line[nlines][i] != '\0' && (line[nlines][i] != '\n' || i == len - 1));
	k = len < (size_t)(n - 1) ? len : (size_t)(n - 1);
	VASSERT(n >= 2048, "lines of up to 2047 characters fit");
#ifdef VF_NATIVE
	given[ngiven].p = s;
	given[ngiven].c = line[nlines];
	given[ngiven++].n = k;
#endif
	for (i = 0; i < k; i++)
		s[i] = (char)line[nlines][i];
	s[k] = '\0';
	linelen[nlines] = k;
	nlines++;
	/* The rest of an over-long line would be read as the next line: such runs end here unless one line is read. */
	if (k < len && CONFIRM)
		VSTOP();
	arrival();
	return (s);
}
int vf_fgetc(FILE * f) { (void)f; VASSERT(0, "fgetc unexpected"); return (-1); }
size_t vf_fread(void * p, size_t a, size_t b, FILE * f) { (void)p; (void)a; (void)b; (void)f; VASSERT(0, "fread unexpected"); return (0); }
int vf_ferror(FILE * f) { (void)f; return (errs && !eofs); }
int vf_feof(FILE * f) { (void)f; return (eofs); }
char * vf_getenv(const char * n) { (void)n; return (NULL); }
void *
vf_malloc(size_t n)
{
	void * p;

	if (fail() || (p = malloc(n)) == NULL) {
		alloc_failed = 1;
		errno = ENOMEM;
		return (NULL);
	}
	return (p);
}
char *
vf_strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = vf_malloc(n);

	if (p != NULL)
		memcpy(p, s, n);
	return (p);
}
#ifdef VF_NATIVE
__attribute__((no_sanitize("address")))
static void
still(void)
{
	int k;
	size_t i;

	for (k = 0; k < ngiven; k++) {
		for (i = 0; i < given[k].n; i++)
			if (given[k].p[i] == (char)given[k].c[i])
				VASSERT(0, "the passphrase remains in a released buffer");
	}
}
#endif
void
vf_harness(void)
{
	char * out = NULL;
	int i, rc, last, agree;
	size_t k;

	for (i = 0; i < 9; i++) {
		orig[i].sa_handler = (void (*)(int))(uintptr_t)(0x1000 + i);
		orig[i].sa_flags = SA_RESTART;
		vf_bytes(&orig[i].sa_mask, 8);
		cur[i] = orig[i];
	}
	vf_array(&mode0, sizeof(mode0));
	/* bytes of the structure that are not part of the mode */
	mode = mode0;
	/* an unchanged mode would be one with echo already off */
	VASSUME((mode0.c_lflag & (tcflag_t)ECHO) != 0);
	tty_is_tty = vf_fork(vf_bool());
	vf_watch_secrets(1);
	rc = readpass(&out, "prompt", CONFIRM ? "confirm" : NULL, DEVTTY);
	done = 1;
#ifdef VF_NATIVE
	still();
#endif
	vf_watch_secrets(0);
	settled();
	VASSERT(opens == closes, "the terminal that was opened is closed");
	for (i = 0; i < 9; i++)
		VASSERT(caught[i] ? raised[i] == 1 : raised[i] == 0, "each signal caught is raised once afterwards");
	if (rc == 0) {
		last = CONFIRM ? nlines - 2 : nlines - 1;
		VASSERT(last >= 0 && last == (CONFIRM ? nlines - 2 : 0), "one line, or two with confirmation");
		VASSERT(!errs && !alloc_failed && !get_failed && !set_failed, "a failure is a failure");
		VASSERT(DEVTTY == 0 ? !opens && !open_failed : DEVTTY == 1 || opens, "the source that was asked for");
		for (k = 0; k < linelen[last] && vf_fork(line[last][k] != '\n' && line[last][k] != '\r'); k++)
			VASSERT((uint8_t)out[k] == line[last][k], "the passphrase that was entered");
		VASSERT(out[k] == '\0', "without its terminator");
		if (CONFIRM) {
			/* the passphrases (without their terminators) agree */
			for (k = 0; k < linelen[last] && vf_fork(line[last][k] != '\n' && line[last][k] != '\r'); k++)
				VASSERT(k < linelen[last + 1] && line[last + 1][k] == line[last][k], "both entries agree");
			VASSERT(k >= linelen[last + 1] || line[last + 1][k] == '\n' || line[last + 1][k] == '\r', "both entries agree to the end");
			VASSERT((nlines & 1) == 0, "pairs of entries");
			VREACH("confirmed");
		}
		VREACH("success");
	} else {
		VASSERT(errs || alloc_failed || get_failed || set_failed || (DEVTTY == 2 && open_failed), "fails only for a reason");
		VREACH("failure");
	}
	/* Identical entries end the loop. */
	for (i = 0; CONFIRM && i + 1 < nlines - (rc == 0 ? 2 : 0); i += 2) {
		agree = linelen[i] == linelen[i + 1];
		for (k = 0; agree && k < linelen[i]; k++)
			agree = vf_fork(line[i][k] == line[i + 1][k]);
		VASSERT(!agree || i + 2 >= nlines, "entries that agree are accepted");
	}
	(void)last;
#ifdef TWICE
	/* A later call does not raise what an earlier one caught. */
	for (i = 0; i < 9; i++)
		caught[i] = raised[i] = 0;
	opens = closes = nlines = errs = eofs = get_failed = set_failed = alloc_failed = open_failed = 0;
#ifdef VF_NATIVE
	ngiven = 0;
#endif
	calm = 1;
	rc = readpass(&out, "prompt", NULL, DEVTTY);
	settled();
	for (i = 0; i < 9; i++)
		VASSERT(raised[i] == 0, "only signals caught meanwhile are raised");
#endif
}
