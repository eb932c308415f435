#include <stdlib.h>
#include "vf.h"
#include "vf_asprintf.h"
struct fmt_tok fmt_tok[FMT_MAX];
int fmt_n, fmt_bad, fmt_called, fmt_fail;
static void
put(int isnum, int zpad, uint64_t v)
{
	if (fmt_n < FMT_MAX) {
		fmt_tok[fmt_n].isnum = isnum;
		fmt_tok[fmt_n].zpad = zpad;
		fmt_tok[fmt_n].val = v;
		fmt_n++;
	} else
		fmt_bad = 1;
}
int
libcperciva_asprintf(char ** ret, const char * f, ...)
{
	va_list ap;
	int i, k;

	fmt_called++;
	fmt_n = 0;
	if (fmt_fail)
		return (-1);
	va_start(ap, f);
	for (i = 0; f[i] != '\0'; i++) {
		int l = 0, z = 0, w = 0;
		if (f[i] != '%') {
			put(0, 0, (unsigned char)f[i]);
			continue;
		}
		i++;
		while (f[i] == '0') { z = 1; i++; }
		while (f[i] >= '1' && f[i] <= '9') { w = w * 10 + (f[i] - '0'); i++; }
		while (f[i] == 'l' || f[i] == 'j' || f[i] == 'z') { l++; i++; }
		if (f[i] == 'd' || f[i] == 'i') {
			int64_t v = l ? va_arg(ap, long) : va_arg(ap, int);
			if (v < 0) { put(0, 0, '-'); v = -v; }
			put(1, z ? w : 0, (uint64_t)v);
		} else if (f[i] == 'u') {
			uint64_t v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
			put(1, z ? w : 0, v);
		} else if (f[i] == 'c')
			/* CBMC does not promote variadic char arguments. */
#ifdef VF_NATIVE
			put(0, 0, (unsigned char)va_arg(ap, int));
#else
			put(0, 0, (unsigned char)va_arg(ap, char));
#endif
		else if (f[i] == 's') {
			const char * p = va_arg(ap, const char *);
			for (k = 0; k < 64 && p[k] != '\0'; k++)
				put(0, 0, (unsigned char)p[k]);
		} else if (f[i] == '%')
			put(0, 0, '%');
		else
			fmt_bad = 1;
	}
	va_end(ap);
	if ((*ret = malloc(1)) == NULL)
		return (-1);
	return (1);
}
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
