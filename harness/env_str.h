/* Character classification as function calls (modelled for the engine). */
#ifndef ENV_STR_H_
#define ENV_STR_H_
#define __NO_CTYPE 1
#include <ctype.h>
#include <stdlib.h>
double vf_strtod(const char *, char **);
#define strtod(s, e) vf_strtod(s, e)
#endif
