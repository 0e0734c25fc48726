/* Force-included in front of every /repo source and every harness.
 * Pulls in the (Frama-C) libc headers first and then redirects the libc
 * functions argtable3 uses to the analysable definitions in vf_libc.c, so
 * that one and the same model of libc is used whichever function a future
 * version of the code calls.  Nothing here changes code under /repo. */
#ifndef VF_PRE_H
#define VF_PRE_H
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <err.h>

void *vf_malloc(size_t n);
void *vf_calloc(size_t n, size_t m);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
char *vf_strdup(const char *s);
char *vf_strndup(const char *s, size_t n);
size_t vf_strlen(const char *s);
size_t vf_strnlen(const char *s, size_t n);
char *vf_strchr(const char *s, int c);
char *vf_strrchr(const char *s, int c);
int vf_strcmp(const char *a, const char *b);
int vf_strncmp(const char *a, const char *b, size_t n);
int vf_strcasecmp(const char *a, const char *b);
int vf_strncasecmp(const char *a, const char *b, size_t n);
char *vf_strcpy(char *d, const char *s);
char *vf_strncpy(char *d, const char *s, size_t n);
char *vf_stpcpy(char *d, const char *s);
char *vf_strcat(char *d, const char *s);
char *vf_strncat(char *d, const char *s, size_t n);
size_t vf_strcspn(const char *s, const char *r);
size_t vf_strspn(const char *s, const char *r);
char *vf_strpbrk(const char *s, const char *r);
char *vf_strstr(const char *h, const char *n);
void *vf_memcpy(void *d, const void *s, size_t n);
void *vf_memmove(void *d, const void *s, size_t n);
void *vf_memset(void *d, int c, size_t n);
int vf_memcmp(const void *a, const void *b, size_t n);
void *vf_memchr(const void *a, int c, size_t n);
int vf_isspace(int c);
int vf_isblank(int c);
int vf_isdigit(int c);
int vf_isalpha(int c);
int vf_isalnum(int c);
int vf_isupper(int c);
int vf_islower(int c);
int vf_isxdigit(int c);
int vf_iscntrl(int c);
int vf_ispunct(int c);
int vf_isprint(int c);
int vf_isgraph(int c);
int vf_toupper(int c);
int vf_tolower(int c);
char *vf_getenv(const char *n);
void vf_warnx(const char *f, ...);
long vf_strtol(const char *s, char **e, int base);
unsigned long vf_strtoul(const char *s, char **e, int base);
long long vf_strtoll(const char *s, char **e, int base);
double vf_strtod(const char *s, char **e);
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *tm);
int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap);
int vf_snprintf(char *b, size_t n, const char *f, ...);
int vf_sprintf(char *b, const char *f, ...);
int vf_printf(const char *f, ...);
extern FILE vf_std[2];
#undef stdout
#undef stderr
#define stdout (&vf_std[0])
#define stderr (&vf_std[1])
int vf_fprintf(FILE *fp, const char *f, ...);
int vf_vfprintf(FILE *fp, const char *f, va_list ap);
int vf_fputs(const char *s, FILE *fp);
int vf_puts(const char *s);
int vf_fputc(int c, FILE *fp);
int vf_putchar(int c);
void vf_perror(const char *s);
int vf_fflush(FILE *fp);
int vf_atoi(const char *s);
long vf_atol(const char *s);
double vf_atof(const char *s);
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *fp);
void vf_exit(int c);
void vf_abort(void);
double vf_ceil(double x);
double vf_floor(double x);
double vf_fabs(double x);
int vf_abs(int x);
long vf_labs(long x);
long long vf_llabs(long long x);
unsigned long long vf_strtoull(const char *s, char **e, int base);
float vf_strtof(const char *s, char **e);
long long vf_atoll(const char *s);
int vf_vsprintf(char *b, const char *f, va_list ap);
int vf_vprintf(const char *f, va_list ap);
void vf_qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *));
void *vf_bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *));
void *vf_memrchr(const void *a, int c, size_t n);
void *vf_mempcpy(void *d, const void *s, size_t n);
void *vf_memccpy(void *d, const void *s, int c, size_t n);
char *vf_stpncpy(char *d, const char *s, size_t n);
char *vf_strchrnul(const char *s, int c);
int vf_strcoll(const char *a, const char *b);
int vf_isascii(int c);
void vf_bzero(void *d, size_t n);
int vf_bcmp(const void *a, const void *b, size_t n);
char *vf_strtok_r(char *s, const char *d, char **save);
char *vf_strsep(char **s, const char *d);
void *vf_reallocarray(void *p, size_t n, size_t m);
void vf_warn(const char *f, ...);
int vf_setjmp(void *env);
void vf_longjmp(void *env, int v);

#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define strdup vf_strdup
#define strndup vf_strndup
#define strlen vf_strlen
#define strnlen vf_strnlen
#define strchr vf_strchr
#define strrchr vf_strrchr
#define strcmp vf_strcmp
#define strncmp vf_strncmp
#define strcasecmp vf_strcasecmp
#define strncasecmp vf_strncasecmp
#define strcpy vf_strcpy
#define strncpy vf_strncpy
#define stpcpy vf_stpcpy
#define strcat vf_strcat
#define strncat vf_strncat
#define strcspn vf_strcspn
#define strspn vf_strspn
#define strpbrk vf_strpbrk
#define strstr vf_strstr
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memset vf_memset
#define memcmp vf_memcmp
#define memchr vf_memchr
#undef isspace
#undef isblank
#undef isdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isxdigit
#undef iscntrl
#undef ispunct
#undef isprint
#undef isgraph
#undef toupper
#undef tolower
#define isspace vf_isspace
#define isblank vf_isblank
#define isdigit vf_isdigit
#define isalpha vf_isalpha
#define isalnum vf_isalnum
#define isupper vf_isupper
#define islower vf_islower
#define isxdigit vf_isxdigit
#define iscntrl vf_iscntrl
#define ispunct vf_ispunct
#define isprint vf_isprint
#define isgraph vf_isgraph
#define toupper vf_toupper
#define tolower vf_tolower
#define getenv vf_getenv
#define warnx vf_warnx
#define strtol vf_strtol
#define strtoul vf_strtoul
#define strtoll vf_strtoll
#define strtod vf_strtod
#define strftime vf_strftime
#define vsnprintf vf_vsnprintf
#define snprintf vf_snprintf
#define sprintf vf_sprintf
#define printf vf_printf
#define fprintf vf_fprintf
#define vfprintf vf_vfprintf
#define fputs vf_fputs
#define puts vf_puts
#define fputc vf_fputc
#define putc vf_fputc
#define putchar vf_putchar
#define perror vf_perror
#define fflush vf_fflush
#define atoi vf_atoi
#define atol vf_atol
#define atof vf_atof
#define fwrite vf_fwrite
#define exit vf_exit
#define abort vf_abort
#define ceil vf_ceil
/* function-like, so that variables of these names are left alone */
#undef floor
#define floor(...) vf_floor(__VA_ARGS__)
#undef fabs
#define fabs(...) vf_fabs(__VA_ARGS__)
#undef abs
#define abs(...) vf_abs(__VA_ARGS__)
#undef labs
#define labs(...) vf_labs(__VA_ARGS__)
#undef llabs
#define llabs(...) vf_llabs(__VA_ARGS__)
#undef strtoull
#define strtoull(...) vf_strtoull(__VA_ARGS__)
#undef strtof
#define strtof(...) vf_strtof(__VA_ARGS__)
#undef atoll
#define atoll(...) vf_atoll(__VA_ARGS__)
#undef vsprintf
#define vsprintf(...) vf_vsprintf(__VA_ARGS__)
#undef vprintf
#define vprintf(...) vf_vprintf(__VA_ARGS__)
#undef qsort
#define qsort(...) vf_qsort(__VA_ARGS__)
#undef bsearch
#define bsearch(...) vf_bsearch(__VA_ARGS__)
#undef memrchr
#define memrchr(...) vf_memrchr(__VA_ARGS__)
#undef mempcpy
#define mempcpy(...) vf_mempcpy(__VA_ARGS__)
#undef memccpy
#define memccpy(...) vf_memccpy(__VA_ARGS__)
#undef stpncpy
#define stpncpy(...) vf_stpncpy(__VA_ARGS__)
#undef strchrnul
#define strchrnul(...) vf_strchrnul(__VA_ARGS__)
#undef strcoll
#define strcoll(...) vf_strcoll(__VA_ARGS__)
#undef isascii
#define isascii(...) vf_isascii(__VA_ARGS__)
#undef bzero
#define bzero(...) vf_bzero(__VA_ARGS__)
#undef bcmp
#define bcmp(...) vf_bcmp(__VA_ARGS__)
#undef strtok_r
#define strtok_r(...) vf_strtok_r(__VA_ARGS__)
#undef strsep
#define strsep(...) vf_strsep(__VA_ARGS__)
#undef reallocarray
#define reallocarray(...) vf_reallocarray(__VA_ARGS__)
#undef warn
#define warn(...) vf_warn(__VA_ARGS__)
#undef setjmp
#define setjmp(env) vf_setjmp((void *)(env))
#define longjmp(env, v) vf_longjmp((void *)(env), (v))
#endif
