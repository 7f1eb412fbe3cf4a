/* -*- Mode: C -*- */

#ifndef _UTILS_CONFIG_H
#define _UTILS_CONFIG_H


/* System */
#define UNIX
/* #undef WINDOWS */
/* #undef APPLE */

/* #undef CROSS_TARGET */
#ifdef CROSS_TARGET
#undef CROSS_TARGET
#define CROSS_TARGET 
#endif


/* Language/preprocessor features */
#define HAVE___VA_ARGS__
/* #undef HAVE_EXT__VA_ARGS__ */
#define HAVE_EXT2__VA_ARGS__  /* ##__VA_ARGS__ swallows comma (gcc) */
#define HAVE___VA_OPT__
#define HAVE___FUNC__         /* __func__ */
#define HAVE___FUNCTION__

/* Whether headers exists */
#define HAVE_STDARG_H
#define HAVE_STDDEF_H
#define HAVE_STDINT_H
#define HAVE_STDLIB_H
#define HAVE_FLOAT_H
#define HAVE_ENDIAN_H
#define HAVE_BYTESWAP_H
#define HAVE_INTTYPES_H
#define HAVE_LOCALE_H
#define HAVE_TIME_H
#define HAVE_UNISTD_H
/* #undef HAVE_WINDOWS_H */
/* #undef HAVE_IO_H */

/* Whether symbols exists. If not, they are defined in compat.c or compat-src/ */
#define HAVE_STRDUP
/* #undef HAVE__STRDUP */
#define HAVE_STRNDUP
/* #undef HAVE__STRNDUP */
#define HAVE_STRCASECMP
/* #undef HAVE__STRICMP */
#define HAVE_STRNCASECMP
/* #undef HAVE__STRNICMP */

#define HAVE_SETENV
/* #undef HAVE__PUTENV_S */
#define HAVE_UNSETENV

#define HAVE_REALPATH
#define HAVE_STAT
/* #undef HAVE_EXEC */
#define HAVE_CLOCK
#define HAVE_P_TMPDIR
/* #undef HAVE__FILENO */
#define HAVE_ISATTY
/* #undef HAVE__ISATTY */

/* #undef HAVE_GetFullPathNameW */
/* #undef HAVE_GetFullPathName */
/* #undef HAVE_GetFileAttributesW */
/* #undef HAVE_GetFileAttributes */
/* #undef HAVE_PathFileExistsA */
/* #undef HAVE_PathFileExistsW */
/* #undef HAVE_PathFileExists */
/* #undef HAVE_CreateProcessA */
/* #undef HAVE_GetSystemTime */
/* #undef HAVE_BCryptGenRandom */
/* #undef HAVE_GetConsoleMode */
/* #undef HAVE_GetStdHandle */
#define HAVE_MBSTOWCS
#define HAVE_WCSTOMBS
/* #undef HAVE_MBSTOWCS_S */
/* #undef HAVE_WCSTOMBS_S */

#define HAVE_STRLCPY
#define HAVE_STRLCAT

#define HAVE_GETOPT
#define HAVE_GETOPT_LONG

#define HAVE_ACCESS
/* #undef HAVE__ACCESS */

#define HAVE_SNPRINTF
/* #undef HAVE__SNPRINTF */
#define HAVE_VSNPRINTF
/* #undef HAVE__VSNPRINTF */
#define HAVE_VASPRINTF
/* #undef HAVE__VASPRINTF */
#define HAVE_ASPRINTF
/* #undef HAVE__ASPRINTF */
#define HAVE_LOCALECONV
#define HAVE_VA_COPY
#define HAVE___VA_COPY

#define HAVE_MTX_INIT
#define HAVE_MTX_LOCK
#define HAVE_MTX_TIMEDLOCK
#define HAVE_MTX_TRYLOCK
#define HAVE_MTX_UNLOCK
#define HAVE_MTX_DESTROY

/* Whether types exists */
#define HAVE_CLOCK_T

#define HAVE_LONG_DOUBLE
#define HAVE_LONG_LONG_INT
#define HAVE_UNSIGNED_LONG_LONG_INT
#define HAVE_INTMAX_T
#define HAVE_UINTMAX_T
#define HAVE_UINTPTR_T
#define HAVE_PTRDIFF_T
#define HAVE_SIZE_T


/* Whether structure members exists */
#define HAVE_LCONV_DECIMAL_POINT
#define HAVE_LCONV_THOUSANDS_SEP

/* Size of (void *) */
#define SIZEOF_VOID_P 8



/* ================================== */
/* Other stuff...                     */
/* ================================== */

/* Remove __attribute__ when we are not compiling with gcc */
#ifndef __GNUC__
# define __attribute__(x)
#endif

#ifndef HAVE_P_TMPDIR
# define P_tmpdir       "/tmp"
#endif

#if defined WIN32 || defined _WIN32 || defined __WIN32__
# ifndef WINDOWS
#  define WINDOWS
# endif
#endif


#if defined WINDOWS && !defined CROSS_TARGET
/* Get rid of warnings from MSVS about insecure standard library functions */
#ifndef _CRT_SECURE_NO_WARNINGS
# define _CRT_SECURE_NO_WARNINGS
#endif

/* Get rid of warnings about possible loss of data in conversions
   between integers or floats of different size */
# pragma warning(disable: 4267 4244)

/* do not warn about that fully confirming standard library functions are
    depricated */
# pragma warning(disable: 4996)

/* do not warn about locally defined symbols */
# pragma warning(disable: 4217)

#endif


/* Allow overriding default dynamic shared library prefix and extension  */
/* #undef DSL_PREFIX */
/* #undef DSL_EXT */


/* Threads */
#ifndef HAVE_THREADS  /* CMake adds  -DHAVE_THREADS if we have threads */
#define HAVE_THREADS
#endif

/* -- The thread library to use.  May be empty if the thread functions
      are provided by the system libraries, requirering no special
      flags */
/* #undef CMAKE_THREAD_LIBS_INIT */


/* -- thread local storage */
#define HAVE_GCC_THREAD_LOCAL_STORAGE
/* #undef HAVE_WIN32_THREAD_LOCAL_STORAGE */

#if defined(HAVE_GCC_THREAD_LOCAL_STORAGE)
# define _thread_local __thread
#elif defined(HAVE_WIN32_THREAD_LOCAL_STORAGE)
# define _thread_local __declspec(thread)
#else
# define _thread_local
#endif

#endif /* _UTILS_CONFIG_H */
