/* Analysable model of the part of libc that argtable3 uses. */
#include "vf_pre.h"
#include "vf.h"

long vf_live, vf_allocs, vf_fail_at;
size_t vf_abs_base, vf_abs_size;
int vf_failed, vf_panicked, vf_printed, vf_exited, vf_allow_exit;
char vf_out[4096];
unsigned vf_outlen;
int vf_setjmp_mode = 0;
int vf_longjmps_allowed = 0;
int vf_env_posix;
int vf_cid, vf_shard, vf_nshards = 1;

int vf_nd(void) { return Frama_C_interval(INT_MIN, INT_MAX); }
int vf_range(int lo, int hi) { return Frama_C_interval(lo, hi); }
char vf_anychar(void) {
    char c = Frama_C_char_interval(CHAR_MIN, CHAR_MAX);
    if (c == 0)
        c = 1;
    return c;
}

/* ---- allocation: one fresh block per request, exact bookkeeping ---- */
#undef malloc
#undef calloc
#undef realloc
#undef free
void *vf_malloc(size_t n) {
    void *p;
    vf_allocs++;
    if (vf_fail_at && vf_allocs >= vf_fail_at) {
        vf_failed = 1;
        return 0;
    }
    if (vf_abs_base) { /* a block at a known address, see harness/ctor.c */
        vf_abs_size = n;
        return (void *)vf_abs_base;
    }
    p = malloc(n);
    vf_live++;
    return p;
}
void *vf_calloc(size_t n, size_t m) {
    void *p;
    vf_allocs++;
    if (vf_fail_at && vf_allocs >= vf_fail_at) {
        vf_failed = 1;
        return 0;
    }
    if (vf_abs_base) {
        size_t i;
        vf_abs_size = n * m;
        for (i = 0; i < n * m; i++)
            ((char *)vf_abs_base)[i] = 0;
        return (void *)vf_abs_base;
    }
    p = calloc(n, m);
    vf_live++;
    return p;
}
void vf_free(void *p) {
    if (p) {
        free(p);
        vf_live--;
    }
}
void *vf_realloc(void *p, size_t n) {
    vf_allocs++;
    if (vf_fail_at && vf_allocs >= vf_fail_at) {
        vf_failed = 1;
        return 0;
    }
    if (!p)
        vf_live++;
    return realloc(p, n);
}

/* ---- strings ----
 * VF_FAST (texts with a determinate end only): the analyser's own strlen and
 * memcpy transfer functions instead of loops over the characters. */
#undef memcpy
#undef memmove
#undef memset
#undef strlen
#ifdef VF_FAST
size_t vf_strlen(const char *s) { return strlen(s); }
char *vf_strcpy(char *d, const char *s) {
    memcpy(d, s, strlen(s) + 1);
    return d;
}
char *vf_stpcpy(char *d, const char *s) {
    size_t n = strlen(s);
    memcpy(d, s, n + 1);
    return d + n;
}
char *vf_strcat(char *d, const char *s) {
    memcpy(d + strlen(d), s, strlen(s) + 1);
    return d;
}
#else
char *vf_strcpy(char *d, const char *s) {
    size_t i = 0;
    for (;; i++) {
        d[i] = s[i];
        if (!s[i])
            return d;
    }
}
char *vf_stpcpy(char *d, const char *s) {
    size_t i = 0;
    for (;; i++) {
        d[i] = s[i];
        if (!s[i])
            return d + i;
    }
}
char *vf_strcat(char *d, const char *s) {
    vf_strcpy(d + vf_strlen(d), s);
    return d;
}
size_t vf_strlen(const char *s) {
    size_t i = 0;
    while (s[i])
        i++;
    return i;
}
#endif
size_t vf_strnlen(const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i])
        i++;
    return i;
}
char *vf_strchr(const char *s, int c) {
    char ch = (char)c;
    for (;; s++) {
        if (*s == ch)
            return (char *)s;
        if (!*s)
            return 0;
    }
}
char *vf_strrchr(const char *s, int c) {
    char ch = (char)c;
    const char *r = 0;
    for (;; s++) {
        if (*s == ch)
            r = s;
        if (!*s)
            return (char *)r;
    }
}
int vf_strcmp(const char *a, const char *b) {
    for (;; a++, b++) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x < y)
            return -1;
        if (x > y)
            return 1;
        if (!x)
            return 0;
    }
}
int vf_strncmp(const char *a, const char *b, size_t n) {
    for (; n; a++, b++, n--) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x < y)
            return -1;
        if (x > y)
            return 1;
        if (!x)
            return 0;
    }
    return 0;
}
int vf_strcasecmp(const char *a, const char *b) {
    for (;; a++, b++) {
        int x = vf_tolower((unsigned char)*a), y = vf_tolower((unsigned char)*b);
        if (x < y)
            return -1;
        if (x > y)
            return 1;
        if (!x)
            return 0;
    }
}
int vf_strncasecmp(const char *a, const char *b, size_t n) {
    for (; n; a++, b++, n--) {
        int x = vf_tolower((unsigned char)*a), y = vf_tolower((unsigned char)*b);
        if (x < y)
            return -1;
        if (x > y)
            return 1;
        if (!x)
            return 0;
    }
    return 0;
}
char *vf_strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++)
        d[i] = s[i];
    for (; i < n; i++)
        d[i] = 0;
    return d;
}
char *vf_strncat(char *d, const char *s, size_t n) {
    char *e = d + vf_strlen(d);
    while (n && *s) {
        *e++ = *s++;
        n--;
    }
    *e = 0;
    return d;
}
size_t vf_strcspn(const char *s, const char *rej) {
    size_t i;
    for (i = 0; s[i]; i++)
        if (vf_strchr(rej, s[i]))
            return i;
    return i;
}
size_t vf_strspn(const char *s, const char *acc) {
    size_t i;
    for (i = 0; s[i]; i++)
        if (!vf_strchr(acc, s[i]))
            return i;
    return i;
}
char *vf_strpbrk(const char *s, const char *acc) {
    for (; *s; s++)
        if (vf_strchr(acc, *s))
            return (char *)s;
    return 0;
}
char *vf_strstr(const char *h, const char *n) {
    size_t l = vf_strlen(n);
    for (;; h++) {
        if (vf_strncmp(h, n, l) == 0)
            return (char *)h;
        if (!*h)
            return 0;
    }
}
char *vf_strdup(const char *s) {
    size_t l = vf_strlen(s);
    char *p = vf_malloc(l + 1);
    if (p)
        vf_strcpy(p, s);
    return p;
}
char *vf_strndup(const char *s, size_t n) {
    size_t l = vf_strnlen(s, n);
    char *p = vf_malloc(l + 1);
    if (p) {
        vf_memcpy(p, s, l);
        p[l] = 0;
    }
    return p;
}
void *vf_memcpy(void *d, const void *s, size_t n) {
    if (n)
        memcpy(d, s, n);
    return d;
}
void *vf_memmove(void *d, const void *s, size_t n) {
    if (n)
        memmove(d, s, n);
    return d;
}
void *vf_memset(void *d, int c, size_t n) {
    if (n)
        memset(d, c, n);
    return d;
}
int vf_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    size_t i;
    for (i = 0; i < n; i++) {
        if (x[i] < y[i])
            return -1;
        if (x[i] > y[i])
            return 1;
    }
    return 0;
}
void *vf_memchr(const void *a, int c, size_t n) {
    const unsigned char *x = a;
    size_t i;
    for (i = 0; i < n; i++)
        if (x[i] == (unsigned char)c)
            return (void *)(x + i);
    return 0;
}

/* ---- ctype: "C" locale.  The argument may be any char value converted to
 * int (glibc and musl both define -128..255); anything else is flagged. ---- */
#define CT(c) do { if ((c) < -128 || (c) > 255) VF("C01", 0, "ctype function called with a value that is not a character"); } while (0)
int vf_isspace(int c) { CT(c); return c == ' ' || (c >= 9 && c <= 13); }
int vf_isblank(int c) { CT(c); return c == ' ' || c == '\t'; }
int vf_isdigit(int c) { CT(c); return c >= '0' && c <= '9'; }
int vf_isupper(int c) { CT(c); return c >= 'A' && c <= 'Z'; }
int vf_islower(int c) { CT(c); return c >= 'a' && c <= 'z'; }
int vf_isalpha(int c) { CT(c); return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int vf_isalnum(int c) { CT(c); return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int vf_isxdigit(int c) { CT(c); return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int vf_iscntrl(int c) { CT(c); return (c >= 0 && c <= 31) || c == 127; }
int vf_isprint(int c) { CT(c); return c >= 32 && c <= 126; }
int vf_isgraph(int c) { CT(c); return c >= 33 && c <= 126; }
int vf_ispunct(int c) {
    CT(c);
    return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);
}
int vf_toupper(int c) { CT(c); return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int vf_tolower(int c) { CT(c); return (c >= 'A' && c <= 'Z') ? c + 32 : c; }

/* ---- environment, process, stdio ---- */
static char vf_env_value[2] = "1";
char *vf_getenv(const char *n) {
    if (vf_strcmp(n, "POSIXLY_CORRECT") == 0)
        return vf_env_posix ? vf_env_value : 0;
    if (Frama_C_interval(0, 1))
        return vf_env_value;
    return 0;
}
void vf_exit(int c) {
    vf_exited = 1;
    if (vf_allow_exit == 2) { /* the default panic handler is expected to come here */
        VF("C19", c == 1 && vf_printed > 0 && vf_failed, "the default panic handler does not report failure");
        VF_END();
        vf_stop();
    }
    if (!vf_allow_exit)
        VF("C26", 0, "the library ends the process");
    vf_stop();
}
void vf_abort(void) {
    vf_exited = 1;
    if (vf_allow_exit == 2) {
        VF_END();
        vf_stop();
    }
    if (!vf_allow_exit)
        VF("C26", 0, "the library aborts the process");
    vf_stop();
}
/* One stream, vf_fp, is the caller's: what is written to it is collected in
 * vf_out.  Writing to any other stream counts in vf_printed. */
FILE *vf_fp;
FILE vf_std[2];
void vf_warnx(const char *f, ...) { vf_printed++; }
int vf_puts(const char *s) {
    vf_fputs(s, stdout);
    vf_fputc('\n', stdout);
    return 1;
}
int vf_putchar(int c) { return vf_fputc(c, stdout); }
void vf_perror(const char *s) { vf_printed++; }
static void vf_emit(char c) {
    if (vf_outlen < sizeof vf_out)
        vf_out[vf_outlen] = c;
    vf_outlen++;
}
static void vf_emits(const char *s, size_t n) {
#ifdef VF_FAST
    if (vf_outlen + n <= sizeof vf_out)
        memcpy(vf_out + vf_outlen, s, n);
    vf_outlen += n;
#else
    size_t i;
    for (i = 0; i < n; i++)
        vf_emit(s[i]);
#endif
}
int vf_vfprintf(FILE *fp, const char *f, va_list ap) {
    static char buf[2048];
    int n;
    if (!vf_fp || fp != vf_fp) {
        vf_printed++;
        return Frama_C_interval(0, 1000);
    }
    n = vf_vsnprintf(buf, sizeof buf, f, ap);
    vf_emits(buf, (size_t)n);
    return n;
}
int vf_fprintf(FILE *fp, const char *f, ...) {
    va_list ap;
    int r;
    va_start(ap, f);
    r = vf_vfprintf(fp, f, ap);
    va_end(ap);
    return r;
}
int vf_printf(const char *f, ...) {
    va_list ap;
    int r;
    va_start(ap, f);
    r = vf_vfprintf(stdout, f, ap);
    va_end(ap);
    return r;
}
int vf_fputs(const char *s, FILE *fp) {
    if (!vf_fp || fp != vf_fp) {
        vf_printed++;
        return 1;
    }
    vf_emits(s, vf_strlen(s));
    return 1;
}
int vf_fputc(int c, FILE *fp) {
    if (!vf_fp || fp != vf_fp)
        vf_printed++;
    else
        vf_emit((char)c);
    return c;
}
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *fp) {
    if (!vf_fp || fp != vf_fp) {
        vf_printed++;
        return n;
    }
    vf_emits(p, s * n);
    return n;
}
int vf_fflush(FILE *fp) { return 0; }
int vf_atoi(const char *s) { return (int)vf_strtol(s, 0, 10); }
long vf_atol(const char *s) { return vf_strtol(s, 0, 10); }
double vf_atof(const char *s) { return vf_strtod(s, 0); }

/* printf subset: %c %s %d %i %u %x %% with '-', '0', width, precision, '*',
 * and the l/z length modifiers.  Any other conversion is flagged. */
static int vf_put(char *b, size_t n, size_t pos, char c) {
    if (pos + 1 < n)
        b[pos] = c;
    return 0;
}
int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    size_t pos = 0;
    while (*f) {
        int left = 0, width = 0, prec = -1, len, pad, i, lmod = 0, zero = 0;
        char tmp[24];
        const char *s;
        if (*f != '%') {
            vf_put(b, n, pos++, *f++);
            continue;
        }
        f++;
        for (;; f++) {
            if (*f == '-')
                left = 1;
            else if (*f == '0')
                zero = 1;
            else
                break;
        }
        if (*f == '*') {
            width = va_arg(ap, int);
            if (width < 0) {
                left = 1;
                width = -width;
            }
            f++;
        } else
            while (*f >= '0' && *f <= '9')
                width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') {
                prec = va_arg(ap, int);
                f++;
            } else
                while (*f >= '0' && *f <= '9')
                    prec = prec * 10 + (*f++ - '0');
        }
        while (*f == 'l' || *f == 'z') {
            lmod = 1;
            f++;
        }
        switch (*f) {
            case '%':
                tmp[0] = '%';
                tmp[1] = 0;
                s = tmp;
                len = 1;
                break;
            case 'c':
                tmp[0] = (char)va_arg(ap, int);
                s = tmp;
                len = 1;
                break;
            case 's':
                s = va_arg(ap, const char *);
                len = 0;
#ifdef VF_FAST
                if (prec < 0)
                    len = (int)strlen(s);
                else
#endif
                while ((prec < 0 || len < prec) && s[len])
                    len++;
                break;
            case 'd':
            case 'i':
            case 'u': {
                long v;
                unsigned long u;
                int k = 23, neg = 0;
                if (*f == 'u')
                    v = lmod ? (long)va_arg(ap, unsigned long) : (long)va_arg(ap, unsigned);
                else
                    v = lmod ? va_arg(ap, long) : (long)va_arg(ap, int);
                u = (unsigned long)v;
                if (*f != 'u' && v < 0) {
                    neg = 1;
                    u = 0ul - (unsigned long)v;
                }
                do {
                    tmp[--k] = (char)('0' + (int)(u % 10));
                    u = u / 10;
                } while (u && k > 1);
                if (neg)
                    tmp[--k] = '-';
                s = tmp + k;
                len = 23 - k;
                break;
            }
            case 'x':
            case 'X':
            case 'o': {
                unsigned long u = lmod ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
                unsigned base = *f == 'o' ? 8u : 16u;
                int k = 23;
                do {
                    unsigned dg = (unsigned)(u % base);
                    tmp[--k] = (char)(dg < 10 ? '0' + (int)dg : (*f == 'X' ? 'A' : 'a') + (int)dg - 10);
                    u = u / base;
                } while (u && k > 1);
                s = tmp + k;
                len = 23 - k;
                break;
            }
            case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': case 'p': case 'n': case 'h': case 'j': case 't': case 'L': case '+': case '#':
                /* not modelled: contents unknown */
                VF("MODEL", 0, "unmodelled printf conversion");
                return -1;
            default:
                VF("ANY", 0, "a text that is no valid format is used as a format");
                vf_stop();
        }
        f++;
        pad = width > len ? width - len : 0;
        if (!left)
            for (i = 0; i < pad; i++)
                vf_put(b, n, pos++, zero ? '0' : ' ');
#ifdef VF_FAST
        if (len > 0 && pos + 1 < n)
            memcpy(b + pos, s, (size_t)len < n - 1 - pos ? (size_t)len : n - 1 - pos);
        pos += (size_t)len;
#else
        for (i = 0; i < len; i++)
            vf_put(b, n, pos++, s[i]);
#endif
        if (left)
            for (i = 0; i < pad; i++)
                vf_put(b, n, pos++, ' ');
    }
    if (n)
        b[pos < n ? pos : n - 1] = 0;
    return (int)pos;
}
int vf_snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    int r;
    va_start(ap, f);
    r = vf_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
int vf_sprintf(char *b, const char *f, ...) {
    va_list ap;
    int r;
    va_start(ap, f);
    r = vf_vsnprintf(b, 1000000, f, ap);
    va_end(ap);
    return r;
}

/* strftime: either it does not fit / yields nothing (0, buffer contents
 * indeterminate) or it leaves some terminated text. */
extern int vf_strftime_mode;
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *tm) {
    size_t k;
    int sum = tm->tm_sec + tm->tm_min + tm->tm_hour + tm->tm_mday + tm->tm_mon; /* reads its input */
    (void)sum;
    if (vf_strftime_mode) /* a text that shows the date it was given */
        return (size_t)vf_snprintf(b, n, "%d.%d.%d.%d.%d.%d", tm->tm_year, tm->tm_mon, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec);
    if (n == 0 || Frama_C_interval(0, 1)) {
        return 0;
    }
    b[0] = 'D';
    if (n == 1 || !*f) {
        b[0] = 0;
        return 0;
    }
    b[1 < n ? 1 : 0] = 0;
    return 1;
}
#undef ceil
double vf_ceil(double x) { return ceil(x); }

/* ---- setjmp/longjmp ----  see DESIGN.md */
int vf_setjmp(void *env) {
    if (vf_setjmp_mode == 0)
        return 0;
    if (vf_setjmp_mode == 1)
        return 1;
    return Frama_C_interval(0, 1);
}
void vf_longjmp(void *env, int v) {
    if (!vf_longjmps_allowed)
        VF("C12", 0, "a well-formed pattern is rejected");
    else
        VF_END();
    vf_stop();
}

/* ---- numeric conversion ----
 * strtol: exact syntax (white space, sign, optional 0x for base 16, digits),
 * exact saturating value. */
static int vf_digit(char c) {
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'z')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z')
        return c - 'A' + 10;
    return 99;
}
int vf_strftime_mode;
int vf_strtol_mode, vf_strtol_used;
long vf_strtol_lo, vf_strtol_hi;
long vf_strtol(const char *s, char **e, int base) {
    const char *p = s;
    int neg = 0, any = 0, over = 0;
    long v = 0;
    while (vf_isspace(*p))
        p++;
    if (*p == '+')
        p++;
    else if (*p == '-') {
        neg = 1;
        p++;
    }
    if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_digit(p[2]) < 16) {
        p += 2;
        base = 16;
    } else if (base == 0)
        base = *p == '0' ? 8 : 10;
    for (;;) {
        int d = vf_digit(*p);
        if (d >= base)
            break;
        any = 1;
        if (v > (LONG_MAX - d) / base)
            over = 1;
        else
            v = v * base + d;
        p++;
    }
    if (e)
        *e = (char *)(any ? p : s);
    if (vf_strtol_mode && any) {
        /* the digits stand for every number of the chosen range */
        vf_strtol_used++;
        return Frama_C_long_interval(vf_strtol_lo, vf_strtol_hi);
    }
    if (over) {
        errno = ERANGE;
        return neg ? LONG_MIN : LONG_MAX;
    }
    return neg ? -v : v;
}
unsigned long vf_strtoul(const char *s, char **e, int base) {
    const char *p = s;
    int neg = 0, any = 0, over = 0;
    unsigned long v = 0;
    if (vf_strtol_mode)
        return (unsigned long)vf_strtol(s, e, base);
    while (vf_isspace(*p))
        p++;
    if (*p == '+' || *p == '-')
        neg = *p++ == '-';
    if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_digit(p[2]) < 16) {
        p += 2;
        base = 16;
    } else if (base == 0)
        base = *p == '0' ? 8 : 10;
    for (;;) {
        int d = vf_digit(*p);
        if (d >= base)
            break;
        any = 1;
        if (v > (ULONG_MAX - (unsigned long)d) / (unsigned long)base)
            over = 1;
        else
            v = v * (unsigned long)base + (unsigned long)d;
        p++;
    }
    if (e)
        *e = (char *)(any ? p : s);
    if (over) {
        errno = ERANGE;
        return ULONG_MAX;
    }
    return neg ? 0UL - v : v;
}
unsigned long long vf_strtoull(const char *s, char **e, int base) { return vf_strtoul(s, e, base); }
long long vf_strtoll(const char *s, char **e, int base) { return vf_strtol(s, e, base); }

/* strtod: exact syntax of decimal and (integral) hexadecimal constants and of
 * inf/nan; one fixed value per text, exact for integers, so that "stores what
 * the C library's conversion yields" can be compared bit for bit. */
double vf_strtod(const char *s, char **e) {
    const char *p = s;
    int neg = 0, any = 0;
    double v = 0.0;
    while (vf_isspace(*p))
        p++;
    if (*p == '+')
        p++;
    else if (*p == '-') {
        neg = 1;
        p++;
    }
    if (vf_strncasecmp(p, "inf", 3) == 0 || vf_strncasecmp(p, "nan", 3) == 0) {
#ifdef VF_SPECIAL
        v = vf_tolower(*p) == 'i' ? 1.0 / 0.0 : 0.0 / 0.0;
#else
        v = vf_tolower(*p) == 'i' ? 1e300 : 1e301; /* stand-ins for the special values */
#endif
        if (vf_strncasecmp(p, "infinity", 8) == 0)
            p += 5;
        p += 3;
        if (e)
            *e = (char *)p;
        return neg ? -v : v;
    }
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_digit(p[2]) < 16) {
        p += 2;
        while (vf_digit(*p) < 16)
            v = v * 16.0 + (double)vf_digit(*p++);
        if (e)
            *e = (char *)p;
        return neg ? -v : v;
    }
    while (*p >= '0' && *p <= '9') {
        any = 1;
        v = v * 10.0 + (double)(*p - '0');
        p++;
    }
    if (*p == '.' && (any || (p[1] >= '0' && p[1] <= '9'))) {
        double sc = 0.1;
        p++;
        while (*p >= '0' && *p <= '9') {
            any = 1;
            v = v + sc * (double)(*p - '0');
            sc = sc * 0.1;
            p++;
        }
    }
    if (any && (*p == 'e' || *p == 'E')) {
        const char *q = p + 1;
        int eneg = 0, ex = 0;
        if (*q == '+' || *q == '-')
            eneg = *q++ == '-';
        if (*q >= '0' && *q <= '9') {
            while (*q >= '0' && *q <= '9') {
                if (ex < 1000)
                    ex = ex * 10 + (*q - '0');
                q++;
            }
            p = q;
            if (v != 0.0)
                for (; ex > 0; ex--) {
                    if (!eneg && v > 1e307) {
                        errno = ERANGE;
#ifdef VF_SPECIAL
                        v = 1.0 / 0.0;
#else
                        v = 1e302;
#endif
                        break;
                    }
                    v = eneg ? v * 0.1 : v * 10.0;
                    if (eneg && v < 2.2250738585072014e-308) {
                        errno = ERANGE;
                        if (v == 0.0)
                            break;
                    }
                }
        }
    }
    if (e)
        *e = (char *)(any ? p : s);
    if (!any)
        return 0.0;
    return neg ? -v : v;
}

float vf_strtof(const char *s, char **e) { return (float)vf_strtod(s, e); }
long long vf_atoll(const char *s) { return vf_strtol(s, 0, 10); }

/* ---- functions the library does not use today ---- */
#undef floor
#undef fabs
double vf_floor(double x) { return floor(x); }
double vf_fabs(double x) { return x < 0.0 ? -x : x; }
int vf_abs(int x) { return x < 0 ? -x : x; }
long vf_labs(long x) { return x < 0 ? -x : x; }
long long vf_llabs(long long x) { return x < 0 ? -x : x; }
int vf_vsprintf(char *b, const char *f, va_list ap) { return vf_vsnprintf(b, 1000000, f, ap); }
int vf_vprintf(const char *f, va_list ap) { return vf_vfprintf(stdout, f, ap); }
void vf_warn(const char *f, ...) { vf_printed++; }
void *vf_memrchr(const void *a, int c, size_t n) {
    const unsigned char *x = a;
    while (n) {
        n--;
        if (x[n] == (unsigned char)c)
            return (void *)(x + n);
    }
    return 0;
}
void *vf_mempcpy(void *d, const void *s, size_t n) {
    vf_memcpy(d, s, n);
    return (char *)d + n;
}
void *vf_memccpy(void *d, const void *s, int c, size_t n) {
    unsigned char *x = d;
    const unsigned char *y = s;
    size_t i;
    for (i = 0; i < n; i++) {
        x[i] = y[i];
        if (y[i] == (unsigned char)c)
            return x + i + 1;
    }
    return 0;
}
char *vf_stpncpy(char *d, const char *s, size_t n) {
    size_t l = vf_strnlen(s, n);
    vf_strncpy(d, s, n);
    return d + l;
}
char *vf_strchrnul(const char *s, int c) {
    while (*s && *s != (char)c)
        s++;
    return (char *)s;
}
int vf_strcoll(const char *a, const char *b) { return vf_strcmp(a, b); }
int vf_isascii(int c) { return c >= 0 && c < 128; }
void vf_bzero(void *d, size_t n) { vf_memset(d, 0, n); }
int vf_bcmp(const void *a, const void *b, size_t n) { return vf_memcmp(a, b, n); }
char *vf_strtok_r(char *s, const char *d, char **save) {
    char *e;
    if (!s)
        s = *save;
    s += vf_strspn(s, d);
    if (!*s) {
        *save = s;
        return 0;
    }
    e = s + vf_strcspn(s, d);
    *save = e;
    if (*e) {
        *e = 0;
        *save = e + 1;
    }
    return s;
}
char *vf_strsep(char **s, const char *d) {
    char *b = *s, *e;
    if (!b)
        return 0;
    e = b + vf_strcspn(b, d);
    if (*e) {
        *e = 0;
        *s = e + 1;
    } else
        *s = 0;
    return b;
}
void *vf_reallocarray(void *p, size_t n, size_t m) { return vf_realloc(p, n * m); }
void vf_qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
    char *a = b;
    size_t i, j, k;
    for (i = 1; i < n; i++)
        for (j = i; j > 0; j--) {
            if (c(a + (j - 1) * w, a + j * w) <= 0)
                break;
            for (k = 0; k + 8 <= w; k += 8) {
                char t[8];
                memcpy(t, a + (j - 1) * w + k, 8);
                memcpy(a + (j - 1) * w + k, a + j * w + k, 8);
                memcpy(a + j * w + k, t, 8);
            }
            for (; k < w; k++) {
                char t = a[(j - 1) * w + k];
                a[(j - 1) * w + k] = a[j * w + k];
                a[j * w + k] = t;
            }
        }
}
void *vf_bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) {
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t m = lo + (hi - lo) / 2;
        int r = c(k, (const char *)b + m * w);
        if (r == 0)
            return (void *)((const char *)b + m * w);
        if (r < 0)
            hi = m;
        else
            lo = m + 1;
    }
    return 0;
}
