/* Size sweeps of patterns, option lists and date formats: every size of a
 * range, one concrete input class per size. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ---- size of patterns and texts ---- */
static char pt[700], tx[200];
static int np;
static void ps(const char *s) {
    while (*s)
        pt[np++] = *s++;
    pt[np] = 0;
}
static void pc(char c) {
    pt[np++] = c;
    pt[np] = 0;
}
#define NF 11
/* family f at size n; d: -1 text one short, 0 exact, 1 one long, 2 last character wrong; result: is it a match */
static int family(int f, int n, int d) {
    int i, len = n, want = d == 0;
    np = 0;
    pt[0] = 0;
    for (i = 0; i < n + 2; i++)
        tx[i] = (char)('a' + i % 23);
    switch (f) {
        case 0: /* literals */
            for (i = 0; i < n; i++)
                pc((char)('a' + i % 23));
            break;
        case 1: /* alternatives: only the last one fits */
            for (i = 0; i < n; i++) {
                if (i)
                    pc('|');
                pc((char)('a' + i % 23));
            }
            tx[0] = (char)('a' + (n - 1) % 23);
            len = 1;
            break;
        case 2: /* a set of n members, the last one fits */
            pc('[');
            for (i = 0; i < n; i++)
                pc((char)(i < 26 ? 'a' + i : i < 52 ? 'A' + i - 26 : i < 62 ? '0' + i - 52 : '_'));
            pc(']');
            tx[0] = pt[np - 2];
            len = 1;
            break;
        case 3: /* character classes */
            for (i = 0; i < n; i++) {
                ps(i & 1 ? "\\l" : "\\d");
                tx[i] = i & 1 ? 'q' : '7';
            }
            break;
        case 4: /* groups */
            for (i = 0; i < n; i++) {
                pc('(');
                pc((char)('a' + i % 23));
                pc(')');
            }
            break;
        case 5: /* nested groups */
            for (i = 0; i < n; i++)
                pc('(');
            pc('a');
            for (i = 0; i < n; i++)
                pc(')');
            len = 1;
            break;
        case 6: /* any characters */
            for (i = 0; i < n; i++)
                pc('.');
            if (d == 2)
                want = 1;
            break;
        case 7: /* a repeated letter */
            ps("a*");
            for (i = 0; i < n + 2; i++)
                tx[i] = 'a';
            want = d != 2;
            break;
        case 8: /* ranges, the last one fits */
            pc('[');
            for (i = 0; i < n; i++) {
                pc((char)('a' + i % 20));
                pc('-');
                pc((char)('a' + i % 20));
            }
            pc(']');
            tx[0] = (char)('a' + (n > 20 ? 19 : n - 1));
            len = 1;
            break;
        case 9: /* repetitions */
            for (i = 0; i < n; i++) {
                pc((char)('a' + i % 23));
                pc(i & 1 ? '+' : '?');
            }
            if (d == -1) /* the last one may be missing if it is optional; then it must be first in front */
                want = (n - 1) % 2 == 0;
            break;
        default: /* repetition counts */
            for (i = 0; i < n; i++) {
                pc((char)('a' + i % 23));
                ps("{1,1}");
            }
            break;
    }
    if (d == -1)
        len--;
    if (d == 1) {
        len++;
        if (f != 7)
            tx[len - 1] = '!';
    }
    if (d == 2)
        tx[len - 1] = '!';
    tx[len] = 0;
    return want;
}
static void rex_size(int f, int n, int d) {
    struct arg_rex *e;
    int r, want;
    long live;
    vf_cid = 10000 * f + 10 * n + d + 1;
    want = family(f, n, d);
    live = vf_live;
    e = arg_rexn(0, 0, pt, 0, 0, 1, 0, 0);
    VF("C18", vf_live == live + 1, "constructing a pattern entry leaves memory behind");
    VF_BEGIN();
    r = e->hdr.scanfn(e, tx);
    VF("C12", r == (want ? 0 : ARG_ERR_REGNOMATCH) && e->count == want, "a pattern or text of this size is matched wrongly");
    if (want)
        VF("C12", e->sval[0] == tx, "the matched text is not kept");
    VF("C18", vf_live == live + 1, "matching leaves memory behind");
    VF_END();
}
// VFSC props=C12 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_rex(void) {
    static const int S[18] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 24, 31, 32, 33};
    int f = vf_choose(0, NF - 1), k = vf_choose(0, 17), n = S[k], d = (k + f) % 4 - 1;
    VF_SHARD(k + 3 * f);
    rex_size(f, n, d);
}
/* the whole square of sizes and texts */
// VFSC props=C12,C18 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough opts="-eva-unroll-recursive-calls 75"
void sc_sweep_rex_full(void) {
    int f = vf_choose(0, NF - 1), n = vf_choose(1, 62), d = vf_choose(-1, 2);
    VF_SHARD(4 * n + d + 1);
    rex_size(f, n, d);
}
/* ---- number of names in one entry's lists ---- */
static char sl[70], ll[700], w[12];
static const char letter[63] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static void list_size(int n, int v) {
    static void *tab[4];
    struct arg_lit *l;
    struct arg_str *s, *p;
    struct arg_end *en;
    char *argv[6];
    int i, m = 0;
    vf_cid = 10 * n + v;
    for (i = 0; i < n; i++) {
        sl[i] = letter[i];
        if (i)
            ll[m++] = ',';
        ll[m++] = 'n';
        ll[m++] = letter[i];
        ll[m++] = 'x';
    }
    sl[n] = 0;
    ll[m] = 0;
    tab[0] = s = arg_strn(sl, ll, 0, 0, 4, 0);
    if (v == 1)
        s->hdr.flag |= ARG_HASOPTVALUE;
    if (v == 2)
        tab[0] = l = arg_litn(sl, ll, 0, 4, 0);
    tab[1] = p = arg_strn(0, 0, 0, 0, 4, 0);
    tab[2] = en = arg_end(4);
    /* the last short name, the last long name, the first ones */
    argv[0] = "prog";
    w[0] = '-';
    w[1] = sl[n - 1];
    w[2] = v == 2 ? 0 : 'v';
    w[3] = 0;
    w[4] = '-';
    w[5] = '-';
    w[6] = 'n';
    w[7] = letter[n - 1];
    w[8] = 'x';
    w[9] = v == 2 ? 0 : '=';
    w[10] = 'v';
    w[11] = 0;
    argv[1] = w;
    argv[2] = w + 4;
    argv[3] = v == 2 ? "-a" : "-aq";
    argv[4] = v == 2 ? "--nax" : "--nax=q";
    argv[5] = 0;
    VF_BEGIN();
    VF("C24", arg_parse(5, argv, tab) == 0 && p->count == 0, "a name of a list of this size is not known");
    if (v == 2)
        VF("C24", l->count == 4, "a name of a list of this size is not counted");
    else
        VF("C24", s->count == 4 && s->sval[0] == w + 2 && s->sval[1] == w + 10 && s->sval[2] == argv[3] + 2 && s->sval[3] == argv[4] + 6,
           "a name of a list of this size does not deliver its value");
    w[1] = '_';
    w[2] = 0;
    w[7] = '_';
    VF("C24", arg_parse(5, argv, tab) == 2, "a name that is not in a list of this size is accepted");
    VF_END();
}
// VFSC props=C01,C24 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_lists(void) {
    int n = vf_choose(1, 62), v = n % 3;
    VF_SHARD(n);
    list_size(n, v);
}
// VFSC props=C01,C24 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_lists_full(void) {
    int n = vf_choose(1, 62), v = vf_choose(0, 2);
    VF_SHARD(n);
    list_size(n, v);
}
/* ---- length of date formats and texts ---- */
static void date_size(int n, int v) {
    static char f[300], t[300];
    struct arg_date *e;
    int i, m = 0, k = 0, r;
    vf_cid = 10 * n + v;
    for (i = 0; i < n; i++) {
        if (v == 0) { /* literals */
            f[m++] = (char)('a' + i % 23);
            t[k++] = (char)('a' + i % 23);
        } else if (v == 1) { /* conversions */
            strcpy(f + m, i & 1 ? "%d." : "%m/");
            m += 3;
            strcpy(t + k, i & 1 ? "07." : "11/");
            k += 3;
        } else { /* white space */
            f[m++] = i ? 'x' : ' ';
            t[k++] = i ? 'x' : ' ';
        }
    }
    strcpy(f + m, "%Y");
    strcpy(t + k, "1999");
    e = arg_daten(0, 0, f, 0, 0, 2, 0);
    VF_BEGIN();
    r = e->hdr.scanfn(e, t);
    VF("C11", r == 0 && e->count == 1 && e->tmval[0].tm_year == 99, "a date in a format of this length is not taken");
    if (v == 1 && n)
        VF("C11", e->tmval[0].tm_mon == 10 && (n < 2 || e->tmval[0].tm_mday == 7), "a date in a format of this length is misread");
    strcat(t, "x");
    r = e->hdr.scanfn(e, t);
    VF("C11", r == ARG_ERR_BADDATE && e->count == 1, "a text longer than its format is taken");
    t[k] = 0;
    r = e->hdr.scanfn(e, t);
    VF("C11", r == ARG_ERR_BADDATE && e->count == 1, "a text shorter than its format is taken");
    if (n) {
        strcpy(t + k, "1999");
        t[k - 1] = '!';
        r = e->hdr.scanfn(e, t);
        VF("C11", r == ARG_ERR_BADDATE && e->count == 1, "a text that differs from its format is taken");
    }
    VF_END();
}
// VFSC props=C11 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_date(void) {
    int k = vf_choose(0, 23), v = vf_choose(0, 1);
    VF_SHARD(k + v);
    date_size(k < 18 ? k : k < 21 ? k + 13 : k + 42, v);
}
/* ---- limits of an entry in the syntax lines ---- */
static char wl[1400];
static int wn;
static void wc(const char *s) {
    while (*s)
        wl[wn++] = *s++;
    wl[wn] = 0;
}
static void limits(int lo, int more, int verbose, int kind) {
    static void *tab[3];
    arg_dstr_t ds;
    const char *g;
    int i;
    static const char *const nm[2][3] = {{"-v <s>", "--vv=<s>", "<s>"}, {"-v|--vv=<s>", "--vv=<s>", "<s>"}};
    const char *t = nm[verbose][kind];
    tab[0] = arg_strn(kind == 0 ? "v" : 0, kind < 2 ? "vv" : 0, "<s>", lo, lo + more, 0);
    tab[1] = arg_end(2);
    wn = 0;
    for (i = 0; i < lo; i++) {
        wc(" ");
        wc(t);
    }
    if (more == 1 || more == 2)
        for (i = 0; i < more; i++) {
            wc(" [");
            wc(t);
            wc("]");
        }
    if (more > 2) {
        wc(" [");
        wc(t);
        wc("]...");
    }
    wc("!");
    ds = arg_dstr_create();
    VF_BEGIN();
    if (verbose)
        arg_print_syntaxv_ds(ds, tab, "!");
    else
        arg_print_syntax_ds(ds, tab, "!");
    VF_END();
    g = arg_dstr_cstr(ds);
    for (i = 0; i < wn && g[i] == wl[i]; i++)
        ;
    VF("C27", i == wn && g[i] == 0, "the syntax line of an entry with these limits is not the documented one");
    arg_dstr_destroy(ds);
}
// VFSC props=C27 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_limits(void) {
    static const int L[7] = {0, 1, 2, 4, 9, 17, 101}, M[5] = {0, 1, 2, 3, 102};
    int a = vf_choose(0, 6), b = vf_choose(0, 4);
    VF_SHARD(a + b);
    vf_cid = 10 * a + b;
    limits(L[a], M[b], (a + b) & 1, (a + 2 * b) % 3);
}
// VFSC props=C27 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_limits_full(void) {
    static const int L[14] = {0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 17, 33, 64, 100}, M[10] = {0, 1, 2, 3, 4, 9, 98, 100, 127, 1000};
    int a = vf_choose(0, 13), b = vf_choose(0, 9), v = vf_choose(0, 1);
    VF_SHARD(a + 3 * b + v);
    vf_cid = 100 * a + 10 * b + v;
    limits(L[a], M[b], v, (a + b + v) % 3);
}
