/* Formatting and capture of output (shared by harnesses). */
#ifndef VF_OUT_H_
#define VF_OUT_H_
#ifndef OUTCAP
#define OUTCAP 512
#endif
char vf_stderr_obj[16];
static char out[OUTCAP];
static size_t outlen;
static void
outc(char * o, size_t cap, size_t * n, char c)
{

	if (*n < cap)
		o[*n] = c;
	(*n)++;
}
/* %s %c %d %i %u %x %zu %ju %lu %llu %% */
static size_t
vf_format(char * o, size_t cap, const char * f, va_list ap)
{
	size_t n = 0;
	char dig[24];
	int i, k, z;

	for (i = 0; f[i] != '\0'; i++) {
		if (f[i] != '%') {
			outc(o, cap, &n, f[i]);
			continue;
		}
		i++;
		z = 0;
		while (f[i] == 'z' || f[i] == 'j' || f[i] == 'l') {
			z = 1;
			i++;
		}
		if (f[i] == 's') {
			const char * s = va_arg(ap, const char *);

			for (k = 0; s[k] != '\0'; k++)
				outc(o, cap, &n, s[k]);
		} else if (f[i] == 'c')
			outc(o, cap, &n, (char)va_arg(ap, int));
		else if (f[i] == '%')
			outc(o, cap, &n, '%');
		else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 'x') {
			unsigned base = f[i] == 'x' ? 16 : 10;
			uint64_t v;

			if (z)
				v = va_arg(ap, uint64_t);
			else if (f[i] == 'u' || f[i] == 'x')
				v = va_arg(ap, unsigned);
			else
				v = (uint64_t)(int64_t)va_arg(ap, int);
			if ((f[i] == 'd' || f[i] == 'i') && (int64_t)v < 0) {
				outc(o, cap, &n, '-');
				v = -v;
			}
			k = 0;
			do {
				dig[k++] = "0123456789abcdef"[v % base];
				v /= base;
			} while (v != 0);
			while (k > 0)
				outc(o, cap, &n, dig[--k]);
		} else
			VASSERT(0, "a format the harness knows");
	}
	return (n);
}
#endif
