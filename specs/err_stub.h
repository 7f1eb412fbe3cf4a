/* Trusted stand-in for the error reporter (utils/err.c): records nothing, returns its
   `eval` argument.  Format strings are printf-checked by the compiler. */
#ifndef ERR_STUB_H
#define ERR_STUB_H
#include <stdarg.h>
#include "utils/err.h"
int _err_format(ErrLevel errlevel, int eval, int errnum, const char *file, const char *func, const char *msg, ...)
{ return eval; }
int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file, const char *func, const char *msg, va_list ap)
{ return eval; }
#endif
