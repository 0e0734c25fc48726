/* Number conversions of integer and floating-point options. */
#include "vf.h"
#include <string.h>
#include <limits.h>
#include <stdlib.h>

static struct arg_int *it;
static struct arg_dbl *dt;
static double dbuf[4];

static void mk_int(void) {
    it = arg_intn("i", 0, 0, 0, 3, 0);
    it->hdr.resetfn(it->hdr.parent);
    it->ival[0] = it->ival[1] = it->ival[2] = -77;
    it->hdr.scanfn(it->hdr.parent, "5"); /* one value is already there */
}
enum { ACCEPT, BAD, OVER };
static void expect_int(const char *text, int verdict, long v) {
    int rc = it->hdr.scanfn(it->hdr.parent, text);
    if (verdict == ACCEPT) {
        VF("C09", rc == 0, "a well-formed integer in range is refused");
        VF("C09", it->count == 2, "an accepted integer is not counted once");
        VF("C09", it->ival[1] == (int)v, "the stored integer is not the number written");
    } else {
        VF("C09", rc != 0, "a text that is not an integer in range is accepted");
        VF("C09", rc == (verdict == BAD ? ARG_ERR_BADINT : ARG_ERR_OVERFLOW), "a refused integer is reported as the wrong kind of error");
        VF("C09", it->count == 1, "a refused integer is counted");
    }
    VF("C09", it->ival[0] == 5 && it->ival[2] == -77, "converting an integer disturbs other values");
}

static const char *const prefixes[7] = {"", "0x", "0X", "0o", "0O", "0b", "0B"};
static const int bases[7] = {10, 16, 16, 8, 8, 2, 2};
#define NV 15
static const long values[NV] = {0, 1, 7, 2, 3, 2047, 2048, 2049, 2097151, 2097152, 2097153, INT_MAX, 2147483648l, 2147483649l, 4294967297l};
#define NS 19
static const char *const suffixes[NS] = {"", "KB", "kb", "Kb", "MB", "mB", "GB", "gb", "G", "B", "KBx", "x", " ", "KB\t ", " KB", "kbb", "K", "\n", "m b"};
static const int mult[NS] = {1, 1024, 1024, 1024, 1048576, 1048576, 1073741824, 1073741824, 0, 0, 0, 0, 1, 1024, 0, 0, 0, 1, 0};

static void int_text(int lead, int sign, int pre, int val, int suf) {
    char t[64];
    int n = 0, k, base = bases[pre], neg = sign == 2;
    long v = values[val], r = v, m = 1;
    char ws = Frama_C_char_interval(9, 13); /* any control white space */
    const char *c;
    if (lead) {
        t[n++] = ws;
        t[n++] = ' ';
    }
    if (sign)
        t[n++] = neg ? '-' : '+';
    for (c = prefixes[pre]; *c; c++)
        t[n++] = *c;
    while (r / m >= base)
        m *= base;
    for (; m; m /= base) {
        k = (int)(r / m);
        r = r % m;
        t[n++] = (char)(k < 10 ? '0' + k : (pre & 1 ? 'a' : 'A') + k - 10);
    }
    for (c = suffixes[suf]; *c; c++)
        t[n++] = *c;
    t[n] = 0;
    VF_BEGIN();
    if (mult[suf] == 0)
        expect_int(t, BAD, 0);
    else {
        v = (neg ? -v : v) * mult[suf];
        expect_int(t, v > INT_MAX || v < INT_MIN ? OVER : ACCEPT, v);
    }
    VF_END();
}
/* every notation with every limit value and every suffix */
// VFSC props=C09 shards=8 slevel=60000 opts="-warn-signed-downcast"
void sc_int_syntax(void) {
    int lead, sign, pre, val, suf;
    mk_int();
    pre = vf_choose(0, 6);
    val = vf_choose(0, NV - 1);
    VF_SHARD(pre + 7 * val);
    suf = vf_choose(0, NS - 1);
    if (bases[pre] == 16 && suf == 9) /* there B is one more digit */
        vf_stop();
    if (pre == 0 && val == 0 && (suf == 9 || suf == 11)) /* "0B", "0x": below */
        vf_stop();
    sign = vf_choose(0, 2);
    lead = vf_choose(0, 1);
    if (lead && (suf == 2 || suf == 3 || suf == 5 || suf > 6))
        vf_stop();
    if (sign == 1 && suf != 0 && suf != 1 && suf != 9)
        vf_stop();
    vf_cid = (((pre * 20 + val) * 20 + suf) * 3 + sign) * 2 + lead;
    int_text(lead, sign, pre, val, suf);
}
/* the whole range of long, in classes, times every multiplier and notation */
static const long lim[4][8] = {
    {LONG_MIN + 1, INT_MIN - 1l, INT_MIN, -1, 0, INT_MAX, INT_MAX + 1l, LONG_MAX},
    {LONG_MIN + 1, -2097153, -2097152, -1, 0, 2097151, 2097152, LONG_MAX},
    {LONG_MIN + 1, -2049, -2048, -1, 0, 2047, 2048, LONG_MAX},
    {LONG_MIN + 1, -3, -2, -1, 0, 1, 2, LONG_MAX}};
static const long mul4[4] = {1, 1024, 1048576, 1073741824};
static const char *const text4[4][5] = {
    {"5", "0x5", "0o5", "0b1", "-0x5"}, {"5KB", "0x5KB", "0o5kb", "0b1KB", "-0x5Kb"}, {"5MB", "0x5MB", "0o5mb", "0b1MB", "-0x5Mb"}, {"5GB", "0x5GB", "0o5gb", "0b1GB", "-0x5Gb"}};
static void int_range(int m, int n, int r) {
    long lo = lim[m][2 * r], hi = lim[m][2 * r + 1];
    int rc, out = r == 0 || r == 3;
    vf_strtol_lo = n == 4 ? -hi : lo;
    vf_strtol_hi = n == 4 ? -lo : hi;
    vf_strtol_mode = 1;
    vf_strtol_used = 0;
    VF_BEGIN();
    rc = it->hdr.scanfn(it->hdr.parent, text4[m][n]);
    VF_END();
    if (!vf_strtol_used)
        return;
    if (out)
        VF("C09", rc == ARG_ERR_OVERFLOW && it->count == 1, "an integer outside the range of int is not refused as overflow");
    else {
        VF("C09", rc == 0 && it->count == 2, "an integer inside the range of int is refused");
        VF("C09", it->ival[1] >= lo * mul4[m] && it->ival[1] <= hi * mul4[m], "an accepted integer is stored as a different number");
    }
}
// VFSC props=C09 opts="-warn-signed-downcast"
void sc_int_range(void) {
    int m, n, r;
    mk_int();
    m = vf_choose(0, 3);
    n = vf_choose(0, 4);
    r = vf_choose(0, 3);
    if (n > 0 && r < 2 && n < 4) /* digits after a prefix have no sign of their own */
        vf_stop();
    if (n == 4 && r >= 2)
        vf_stop();
    vf_cid = 100 * m + 10 * n + r;
    int_range(m, n, r);
}
/* texts that are no integers */
#define NJ 32
static const char *const junk[NJ] = {"", " ", "+", "-", "+-1", "- 1", "0x", "0x+1", "0x 1", "0xg", "0b2", "0o8", "0o", "0b", "0B", "-0x", "1 2", "1.5", "1e3", "--1", "KB", "0x-1", "99999999999999999999x", "0b 1", "0x0x12", "-0x0X1", "0x0x", "0X0xKB", "0b0b1", "0o0o7", "0o0x1", "0b0x1"};
// VFSC props=C09
void sc_int_junk(void) {
    int j;
    mk_int();
    j = vf_choose(0, NJ - 1);
    vf_cid = j;
    VF_BEGIN();
    expect_int(junk[j], BAD, 0);
    VF_END();
}
/* out of any machine range, in every base */
// VFSC props=C09
void sc_int_huge(void) {
    int j;
    static const char *const huge[6] = {"99999999999999999999", "-99999999999999999999", "0xffffffffffffffffffff", "-0xffffffffffffffffffff", "99999999999999999999KB", "0o7777777777777777777777777777 "};
    mk_int();
    j = vf_choose(0, 5);
    vf_cid = j;
    VF_BEGIN();
    expect_int(huge[j], OVER, 0);
    VF_END();
}
static char iother(void) {
    char c = vf_anychar();
    if (c == '+' || c == '-' || c == ' ' || (c >= 9 && c <= 13) || (c >= '0' && c <= '9') || c == 'k' || c == 'K' || c == 'm' || c == 'M' || c == 'g' || c == 'G')
        c = '_';
    return c;
}
/* any text that starts with a character no number starts with, or that has
 * one directly behind its digits */
// VFSC props=C09
void sc_int_class(void) {
    char t[6], c, d;
    int k;
    mk_int();
    c = iother();
    d = vf_anychar();
    k = vf_choose(0, 3);
    vf_cid = k;
    t[0] = k == 0 ? c : k == 1 ? '1' : k == 2 ? '-' : '1';
    t[1] = k == 1 ? c : k == 2 ? '3' : k == 3 ? 'K' : d;
    t[2] = k == 2 ? c : k == 3 ? 'B' : d;
    t[3] = k == 3 ? c : d;
    t[4] = d;
    t[5] = 0;
    if (k == 1 && t[0] == '0')
        t[0] = '1';
    VF_BEGIN();
    expect_int(t, BAD, 0);
    VF_END();
}
/* through a whole parse, as an option and as a positional */
// VFSC props=C09
void sc_int_parse(void) {
    void *tab[3];
    struct arg_int *p;
    struct arg_end *en;
    char *argv[4];
    int k = vf_choose(0, 5), ret;
    tab[0] = it = arg_intn("i", "int", 0, 0, 2, 0);
    tab[1] = p = arg_intn(0, 0, 0, 0, 2, 0);
    tab[2] = en = arg_end(4);
    argv[0] = "prog";
    argv[1] = k == 0 ? "-i-0x10" : k == 1 ? "--int=1KB" : k == 2 ? "-i" : k == 3 ? "-i0b12" : k == 4 ? "--int=3GB" : "--int";
    argv[2] = k == 2 ? "-3" : k == 5 ? " +7" : "0o17MB";
    argv[3] = 0;
    vf_cid = k;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    if (k == 3 || k == 4) {
        VF("C09", ret == 1 && it->count == 0, "an option value that is no integer in range is accepted");
        VF("C09", ret == 1 && en->error[0] == (k == 3 ? ARG_ERR_BADINT : ARG_ERR_OVERFLOW) && en->parent[0] == it, "a refused integer is reported as the wrong kind of error");
    } else {
        VF("C09", ret == 0 && it->count == 1, "an integer option value is refused");
        VF("C09", it->ival[0] == (k == 0 ? -16 : k == 1 ? 1024 : k == 2 ? -3 : 7), "the stored integer is not the number written");
    }
    if (k != 2 && k != 5)
        VF("C09", p->count == 1 && p->ival[0] == 15 * 1048576, "a positional integer is not the number written");
}

/* ---- floating point: exactly the texts strtod takes as a whole ---- */
static void mk_dbl(void) {
    dt = arg_dbln("d", 0, 0, 0, 3, 0);
    dt->dval = dbuf; /* the array's own placement is C17's subject */
    dbuf[0] = dbuf[1] = dbuf[2] = dbuf[3] = -77.25;
    dt->hdr.resetfn(dt->hdr.parent);
    dt->hdr.scanfn(dt->hdr.parent, "5");
}
static void expect_dbl(const char *t) {
    char *e;
    double v = strtod(t, &e);
    int good = e != t && *e == 0;
    int rc = dt->hdr.scanfn(dt->hdr.parent, t);
    if (good) {
        VF("C10", rc == 0, "a well-formed number is refused");
        VF("C10", dt->count == 2, "an accepted number is not counted once");
        VF("C10", dbuf[1] == v || (v != v && dbuf[1] != dbuf[1]), "the stored number is not the one the C library's conversion yields");
    } else {
        VF("C10", rc == ARG_ERR_BADDOUBLE, "a text that is not a number as a whole is accepted, or refused as another kind of error");
        VF("C10", dt->count == 1, "a refused number is counted");
        VF("C10", dbuf[1] == -77.25, "a refused number is stored");
    }
    VF("C10", dbuf[0] == 5.0 && dbuf[2] == -77.25, "converting a number disturbs other values");
}
#define ND 9
static char dcls(int i) {
    switch (i) {
        case 0: return '0';
        case 1: return '7';
        case 2: return '.';
        case 3: return 'e';
        case 4: return '-';
        case 5: return '+';
        case 6: return ' ';
        case 7: return 'x';
        default: return 0;
    }
}
static char dother(void) {
    char o = vf_anychar();
    if (o == '.' || o == '-' || o == '+' || o == ' ' || o == 'x' || o == 'X' || (o >= 9 && o <= 13) || (o >= '0' && o <= '9') || (o >= 'a' && o <= 'z') || (o >= 'A' && o <= 'Z'))
        o = '_';
    return o;
}
// VFSC props=C10 shards=8 slevel=20000
void sc_dbl_words(void) {
    char t[6], o;
    int a, b, c, d;
    mk_dbl();
    o = dother();
    a = vf_choose(0, ND - 1);
    b = vf_choose(0, ND);
    VF_SHARD(a + b);
    c = vf_choose(0, ND);
    d = vf_choose(0, 3);
    vf_cid = 1000 * a + 100 * b + 10 * c + d;
    t[0] = a == 8 ? o : dcls(a);
    t[1] = b == 9 ? 0 : b == 8 ? o : dcls(b);
    t[2] = c == 9 ? 0 : c == 8 ? o : dcls(c);
    t[3] = d == 0 ? 0 : d == 1 ? '5' : d == 2 ? 'e' : o;
    t[4] = d == 2 ? '2' : 0;
    t[5] = 0;
    VF_BEGIN();
    expect_dbl(t);
    VF_END();
}
/* longer texts: the special values, extreme exponents, precision, numbers
 * with a locale's comma, hexadecimal, blanks around */
// VFSC props=C10 defs="-DVF_SPECIAL" opts="-warn-special-float none" slevel=20000
void sc_dbl_more(void) {
    static const char *const more[34] = {"", "0.1", "123456.5e-3", "inf", "-INF", "nan", "infinity", "infx", "0x1f", "0xg", "1,5", "\t8.5", "8.5\n", "1e", "1e+", "16777217",
        "1e999", "-1e999", "1e-310", "1e-9999", "0e999", "-0", "1e308", "nanx", "infinit", "123456789012345678901234567890", "3.141592653589793238", "1e5e5", "1.2.3", "0x1p3x", "1e10", "1E-5", "5d", "1f"};
    int k;
    mk_dbl();
    k = vf_choose(0, 33);
    vf_cid = k;
    VF_BEGIN();
    expect_dbl(more[k]);
    VF_END();
}
// VFSC props=C10
void sc_dbl_parse(void) {
    void *tab[3];
    struct arg_end *en;
    char *argv[4];
    int k = vf_choose(0, 5), ret;
    tab[0] = dt = arg_dbln("d", "dbl", 0, 0, 2, 0);
    dt->dval = dbuf;
    tab[1] = en = arg_end(4);
    argv[0] = "prog";
    argv[1] = k == 0 ? "-d-1.5" : k == 1 ? "--dbl=0.1" : k == 2 ? "-d" : k == 3 ? "-d1.5x" : k == 4 ? "--dbl= " : "--dbl";
    argv[2] = k == 2 ? "-3" : k == 5 ? " +7" : "-d8.25";
    argv[3] = 0;
    vf_cid = k;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    if (k == 3 || k == 4) {
        VF("C10", ret == 1 && dt->count == 1, "an option value that is no number is accepted");
        VF("C10", ret == 1 && en->error[0] == ARG_ERR_BADDOUBLE && en->parent[0] == dt, "a refused number is reported as the wrong kind of error");
    } else {
        VF("C10", ret == 0 && dt->count == (k == 2 || k == 5 ? 1 : 2), "a number is refused");
        VF("C10", dbuf[0] == (k == 0 ? -1.5 : k == 1 ? 0.1 : k == 2 ? -3.0 : 7.0), "the stored number is not the one written");
    }
}
