/*
 * C26: option parsing.  N arguments of lengths L1, L2, L3, any characters;
 * MISSING: the caller handles missing arguments itself.
 */
#define GETOPT_USE_COMPUTED_GOTO
#include <string.h>
#include "getopt.h"
#include "vf.h"

int vf_msgs, vf_atexits;
int vf_atexit(void (*f)(void)) { (void)f; vf_atexits++; return (0); }

enum { E_A, E_B, E_C, E_FO, E_FOO, E_BAR, E_MISSING, E_UNKNOWN };
static const struct { const char * os; int hasarg; } known[] =
    {{"-a", 0}, {"-b", 1}, {"-c", 0}, {"--fo", 0}, {"--foo", 1}, {"--x", 1}};
#define MAXE 12
struct event { int kind; const char * os; size_t oslen; char c; const char * arg; };
static struct event want[MAXE], got[MAXE];
static int nwant, ngot, wantind;

static char s1[L1 + 1], s2[L2 + 1], s3[L3 + 1];
static char * args[N + 2] = {"prog", s1, s2, s3};

static int
chr(char c, char d)
{

	return (vf_fork(c == d));
}
static void
event(int kind, const char * os, size_t oslen, char c, const char * arg)
{

	want[nwant].kind = kind;
	want[nwant].os = os;
	want[nwant].oslen = oslen;
	want[nwant].c = c;
	want[nwant].arg = arg;
	nwant++;
}
/* The documented meaning of a command line. */
static void
reference(void)
{
	int i = 1, k;

	while (i <= N) {
		const char * s = args[i];

		if (!chr(s[0], '-') || chr(s[1], '\0'))
			break;
		if (!chr(s[1], '-')) {
			/* packed single-character options */
			const char * p = &s[1];

			i++;
			while (!chr(*p, '\0')) {
				char c = *p++;

				k = chr(c, 'a') ? E_A : chr(c, 'b') ? E_B : chr(c, 'c') ? E_C : -1;
				if (k == -1)
					event(E_UNKNOWN, NULL, 0, c, NULL);
				else if (!known[k].hasarg)
					event(k, known[k].os, 2, 0, NULL);
				else if (!chr(*p, '\0')) {
					event(k, known[k].os, 2, 0, p);
					break;
				} else if (i <= N)
					event(k, known[k].os, 2, 0, args[i++]);
				else
					event(E_MISSING, known[k].os, 2, 0, NULL);
			}
			continue;
		}
		i++;
		if (chr(s[2], '\0'))
			break;
		/* a long option */
		for (k = E_FO; k <= E_BAR; k++) {
			size_t j, n = strlen(known[k].os);

			for (j = 2; j < n && chr(s[j], known[k].os[j]); j++)
				continue;
			if (j == n && (chr(s[n], '\0') || chr(s[n], '='))) {
				if (!known[k].hasarg && chr(s[n], '='))
					event(E_UNKNOWN, known[k].os, n, 0, NULL);
				else if (!known[k].hasarg)
					event(k, known[k].os, n, 0, NULL);
				else if (chr(s[n], '='))
					event(k, known[k].os, n, 0, &s[n + 1]);
				else if (i <= N)
					event(k, known[k].os, n, 0, args[i++]);
				else
					event(E_MISSING, known[k].os, n, 0, NULL);
				break;
			}
		}
		if (k > E_BAR)
			event(E_UNKNOWN, s, 0, 0, NULL);
	}
	wantind = i;
}
static void
note(int kind, const char * ch)
{

	if (ngot >= MAXE)
		VSTOP();
	got[ngot].kind = kind;
	got[ngot].os = ch;
	got[ngot].arg = optarg;
	got[ngot].c = ch[0] == '-' ? ch[1] : 0;
	ngot++;
}
static void
run(int argc, char ** argv, int max)
{
	const char * ch;

	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPT("-a"):
			note(E_A, ch);
			break;
		GETOPT_OPTARG("-b"):
			note(E_B, ch);
			break;
		GETOPT_OPT("-c"):
			note(E_C, ch);
			break;
		GETOPT_OPT("--fo"):
			note(E_FO, ch);
			break;
		GETOPT_OPTARG("--foo"):
			note(E_FOO, ch);
			break;
		GETOPT_OPTARG("--x"):
			note(E_BAR, ch);
			break;
#ifdef MISSING
		GETOPT_MISSING_ARG:
			note(E_MISSING, ch);
			break;
#endif
		GETOPT_DEFAULT:
			note(E_UNKNOWN, ch);
			break;
		}
		if (ngot == max)
			break;
	}
}
static void
compare(int quiet)
{
	int i, problems = 0;

	VASSERT(ngot == nwant, "number of options");
	for (i = 0; i < nwant; i++) {
		int k = want[i].kind;

		problems += k == E_MISSING || k == E_UNKNOWN;
#ifndef MISSING
		if (k == E_MISSING)
			k = E_UNKNOWN;
#endif
		VASSERT(got[i].kind == k, "the right option, missing argument or unknown option");
		VASSERT(got[i].arg == want[i].arg || k == E_MISSING || k == E_UNKNOWN, "the option's argument");
		if (want[i].oslen != 0)
			VASSERT(strcmp(got[i].os, want[i].os) == 0, "the option is named");
		else if (want[i].os != NULL)
			VASSERT(got[i].os == want[i].os, "the unknown option is named");
		else
			VASSERT(got[i].c == want[i].c, "the unknown option is named");
	}
	VASSERT(optind == wantind, "the index of the first operand");
#ifdef MISSING
	(void)quiet;
	VASSERT(vf_msgs == 0, "no message if the caller handles missing arguments");
#else
	VASSERT((vf_msgs != 0) == (problems != 0 && !quiet), "a message for each problem unless disabled");
#endif
	if (problems)
		VREACH("problems");
	else if (nwant)
		VREACH("options");
	else
		VREACH("no options");
}
static void
fill(char * s, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		s[i] = (char)vf_u8();
		VASSUME(s[i] != '\0');
	}
}
void
vf_harness(void)
{
	int quiet = vf_fork(vf_bool());

	fill(s1, L1);
	fill(s2, L2);
	fill(s3, L3);
	args[N + 1] = NULL;
	reference();
	opterr = !quiet;
	/* An earlier pass, abandoned in the middle of packed options, leaves nothing behind. */
	{
		static char * other[] = {"other/name", "-cacb", "x", NULL};

		run(3, other, 2);
		optreset = 1;
		ngot = 0;
		vf_msgs = 0;
	}
	run(N + 1, args, -1);
	compare(quiet);
	/* A second pass gives the same. */
	optreset = 1;
	ngot = 0;
	vf_msgs = 0;
	run(N + 1, args, -1);
	compare(quiet);
}
