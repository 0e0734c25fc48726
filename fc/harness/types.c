/* Minimum/maximum occurrence counts, per value type and way of giving it. */
#include "vf.h"
#include <string.h>

enum { T_LIT, T_INT, T_DBL, T_STR, T_REX, T_FILE, T_DATE, NT };
enum { M_SHORT, M_LONG, M_POS };
static double dbuf[8];

static void *mk(int t, const char *so, const char *lo, int mn, int mx) {
    switch (t) {
        case T_LIT: return arg_litn(so, lo, mn, mx, 0);
        case T_INT: return arg_intn(so, lo, 0, mn, mx, 0);
        case T_DBL: {
            struct arg_dbl *d = arg_dbln(so, lo, 0, mn, mx, 0);
            d->dval = dbuf; /* the array's own placement is C17's subject */
            return d;
        }
        case T_STR: return arg_strn(so, lo, 0, mn, mx, 0);
        case T_REX: return arg_rexn(so, lo, ".", 0, mn, mx, 0, 0);
        case T_FILE: return arg_filen(so, lo, 0, mn, mx, 0);
        default: return arg_daten(so, lo, "%d", 0, mn, mx, 0);
    }
}
static int count_of(int t, void *p) {
    switch (t) {
        case T_LIT: return ((struct arg_lit *)p)->count;
        case T_INT: return ((struct arg_int *)p)->count;
        case T_DBL: return ((struct arg_dbl *)p)->count;
        case T_STR: return ((struct arg_str *)p)->count;
        case T_REX: return ((struct arg_rex *)p)->count;
        case T_FILE: return ((struct arg_file *)p)->count;
        default: return ((struct arg_date *)p)->count;
    }
}
/* is the j-th stored value the one given as text v, whose digit is n? */
static int value_is(int t, void *p, int j, const char *v, int n) {
    switch (t) {
        case T_LIT: return 1;
        case T_INT: return ((struct arg_int *)p)->ival[j] == n;
        case T_DBL: return ((struct arg_dbl *)p)->dval[j] == (double)n;
        case T_STR: return ((struct arg_str *)p)->sval[j] == v;
        case T_REX: return ((struct arg_rex *)p)->sval[j] == v;
        case T_FILE: return ((struct arg_file *)p)->filename[j] == v;
        default: return ((struct arg_date *)p)->tmval[j].tm_mday == n;
    }
}

static const char *const shorts[5] = {"-t1", "-t2", "-t3", "-t4", "-t5"};
static const char *const longs[5] = {"--t=1", "--t=2", "--t=3", "--t=4", "--t=5"};
static const char *const plain[5] = {"1", "2", "3", "4", "5"};

static const int mins[6] = {0, 1, 0, 1, 2, 2};
static const int maxs[6] = {1, 1, 2, 2, 3, 1}; /* the last asks for max < min */
static void counts(int t, int m, int lim, int occ) {
    void *tab[2];
    void *e;
    struct arg_end *en;
    char *argv[8];
    int mn = mins[lim], mx = maxs[lim], j, ret, kept, excess;
    if (mx < mn)
        mx = mn;
    if (t == T_LIT && m == M_POS)
        m = M_SHORT;
    e = tab[0] = mk(t, m == M_SHORT ? "t" : 0, m == M_LONG ? "t" : 0, mins[lim], maxs[lim]);
    tab[1] = en = arg_end(10);
    argv[0] = "prog";
    for (j = 0; j < occ; j++) {
        const char *a;
        if (t == T_LIT)
            a = m == M_LONG ? "--t" : "-t";
        else if (m == M_SHORT)
            a = shorts[j];
        else if (m == M_LONG)
            a = longs[j];
        else
            a = plain[j];
        argv[1 + j] = (char *)a;
    }
    argv[1 + occ] = 0;
    VF_BEGIN();
    ret = arg_parse(1 + occ, argv, tab);
    VF_END();
    kept = occ < mx ? occ : mx;
    excess = occ - kept;
    VF("C03", count_of(t, e) <= mx, "an option's count exceeds its maximum");
    VF("C03", count_of(t, e) == kept, "the occurrences within the maximum are not all kept");
    for (j = 0; j < kept; j++)
        if (j < count_of(t, e))
            VF("C03", value_is(t, e, j, m == M_SHORT ? shorts[j] + 2 : m == M_LONG ? longs[j] + 4 : plain[j], j + 1),
               "the kept values are not the first ones given, in order");
    if (excess) {
        VF("C03", ret == excess, "not every occurrence beyond the maximum is an error");
        if (ret > 0) {
            VF("C03", en->parent[0] == e && en->error[0] == ARG_ERR_MAXCOUNT, "an occurrence beyond the maximum is not reported against its option");
        }
        VF("C04", ret != 0, "a count outside minimum..maximum is reported as success");
    } else if (occ < mn) {
        VF("C04", ret == 1, "a missing mandatory option is not exactly one error");
        if (ret > 0)
            VF("C04", en->parent[0] == e && en->error[0] == ARG_ERR_MINCOUNT && en->argval[0] == 0, "a missing mandatory option is not reported against that option");
    } else {
        VF("C03", ret == 0, "a count within the maximum is refused");
        VF("C04", ret == 0, "a count within minimum..maximum is refused");
    }
}
// VFSC props=C03,C04 shards=7
void sc_counts(void) {
    int t, m, lim, occ;
    t = vf_choose(0, NT - 1);
    VF_SHARD(t);
    m = vf_choose(0, 2);
    lim = vf_choose(0, 5);
    occ = vf_choose(0, 4);
    vf_cid = 1000 * t + 100 * m + 10 * lim + occ;
    counts(t, m, lim, occ);
}

/* options whose value is optional, given with and without it */
// VFSC props=C03,C07 shards=6
void sc_counts_opt(void) {
    int t = vf_choose(1, NT - 1), lng = vf_choose(0, 1), mx = vf_choose(1, 2), w0 = vf_choose(0, 1), w1 = vf_choose(0, 1), w2 = vf_choose(0, 1), again = vf_choose(0, 1);
    void *tab[2];
    void *e;
    struct arg_end *en;
    char *argv[5];
    int w[3], j, ret, kept, two = vf_choose(0, 1);
    VF_SHARD(t);
    vf_cid = 1000000 * t + 100000 * lng + 10000 * mx + 1000 * w0 + 100 * w1 + 10 * w2 + again + 2 * two;
    w[0] = w0;
    w[1] = w1;
    w[2] = w2;
    e = tab[0] = mk(t, lng ? 0 : "t", lng ? "t" : 0, 0, mx);
    ((struct arg_hdr *)e)->flag |= ARG_HASOPTVALUE;
    tab[1] = en = arg_end(10);
    argv[0] = "prog";
    argv[1] = lng ? "--t=9" : "-t9";
    argv[2] = lng ? "--t" : "-t";
    argv[3] = 0;
    if (again)
        arg_parse(3, argv, tab);
    for (j = 0; j < 3; j++)
        argv[1 + j] = (char *)(lng ? (w[j] ? longs[j] : "--t") : (w[j] ? shorts[j] : "-t"));
    argv[two ? 3 : 4] = 0;
    VF_BEGIN();
    ret = arg_parse(two ? 3 : 4, argv, tab);
    VF_END();
    kept = mx;
    VF(again ? "C07" : "C03", count_of(t, e) == kept, "an occurrence given without its optional value is not counted like any other");
    VF(again ? "C07" : "C03", ret == (two ? 2 : 3) - kept, "an occurrence beyond the maximum, given without its optional value, is not an error");
    if (ret > 0)
        VF(again ? "C07" : "C03", en->parent[0] == e && en->error[0] == ARG_ERR_MAXCOUNT, "an occurrence beyond the maximum is not reported against its option");
    for (j = 0; j < 2; j++)
        if (j < kept && j < count_of(t, e) && w[j])
            VF(again ? "C07" : "C03", value_is(t, e, j, lng ? longs[j] + 4 : shorts[j] + 2, j + 1), "the kept values are not the first ones given, in order");
}

/* any combination of mandatory entries, with no arguments at all */
static void missing(int argc, int m0, int m1, int m2, int m3, int m4, int m5, int m6, int cap) {
    void *tab[10];
    void *want[7];
    struct arg_end *en;
    int m[7], t, n = 0, ret, j;
    char *argv[2];
    argv[0] = "prog";
    argv[1] = 0;
    m[0] = m0; m[1] = m1; m[2] = m2; m[3] = m3; m[4] = m4; m[5] = m5; m[6] = m6;
    for (t = 0; t < NT; t++) {
        tab[t] = mk(t, t == T_FILE ? 0 : "t", t == T_STR ? "u" : 0, m[t], 2);
        if (m[t])
            want[n++] = tab[t];
    }
    tab[7] = arg_rem("r", "r");
    tab[8] = en = arg_end(cap);
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF_END();
    VF("C04", (ret == 0) == (n == 0), "an absent mandatory option is accepted, or an absent optional one refused");
    VF("C04", ret == (n < cap ? n : cap), "the absent mandatory options are not one error each");
    for (j = 0; j < 7; j++)
        if (j < n && (j < cap - 1 || n <= cap)) {
            VF("C04", en->parent[j] == want[j], "missing options are not reported each against its own entry, in table order");
            VF("C04", en->error[j] == ARG_ERR_MINCOUNT, "a missing option is reported as another kind of error");
            VF("C04", en->argval[j] == 0, "a missing option is reported with an argument text");
        }
    if (n > cap)
        VF("C05", en->error[cap - 1] == ARG_ELIMIT && en->parent[cap - 1] == en, "more errors than there is room for are not marked as such");
}
// VFSC props=C04,C05 shards=8
void sc_missing(void) {
    int a, b, c, d, e, f, g, z;
    a = vf_choose(0, 1);
    b = vf_choose(0, 1);
    c = vf_choose(0, 1);
    VF_SHARD(4 * a + 2 * b + c);
    d = vf_choose(0, 1);
    e = vf_choose(0, 1);
    f = vf_choose(0, 1);
    g = vf_choose(0, 1);
    z = vf_choose(0, 1);
    vf_cid = ((((((a * 2 + b) * 2 + c) * 2 + d) * 2 + e) * 2 + f) * 2 + g) * 2 + z;
    missing(z, a, b, c, d, e, f, g, z ? 10 : 3);
}
/* when another error is present, success must not be reported either way,
 * and one present / one absent mandatory option */
// VFSC props=C04
void sc_missing_mixed(void) {
    void *tab[4];
    struct arg_int *x;
    struct arg_str *y;
    struct arg_lit *z;
    struct arg_end *en;
    char *argv[4];
    int u = vf_choose(0, 4), v = vf_choose(0, 4), ret, nx, ny, nz, bad;
    tab[0] = x = arg_intn("x", 0, 0, 1, 2, 0);
    tab[1] = y = arg_strn(0, 0, 0, 1, 2, 0);
    tab[2] = z = arg_litn("z", 0, 1, 2, 0);
    tab[3] = en = arg_end(5);
    argv[0] = "prog";
    argv[1] = u == 0 ? "-x1" : u == 1 ? "p" : u == 2 ? "-z" : u == 3 ? "-q" : "-x";
    argv[2] = v == 0 ? "-x1" : v == 1 ? "p" : v == 2 ? "-z" : v == 3 ? "-q" : "-xz";
    argv[3] = 0;
    vf_cid = u * 10 + v;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    bad = (u == 3) || (u != 4 && (v == 3 || v == 4)) || u == 4;
    nx = (u == 0) + (u != 4 && v == 0);
    ny = (u == 1) + (u != 4 && v == 1);
    nz = (u == 2) + (u != 4 && v == 2);
    VF("C04", ret != 0, "success although a mandatory option is missing");
    if (!bad) {
        VF("C04", ret == (nx == 0) + (ny == 0) + (nz == 0), "the absent mandatory options are not one error each");
        if (nx == 0)
            VF("C04", en->parent[0] == x, "the first missing option is not reported first");
    }
    VF("C04", x->count == nx && y->count == ny && z->count == nz, "counts differ from the occurrences given");
}
/* every history at once, per value type: all static variables and the entry
 * itself hold anything an earlier parse can leave behind */
static char old_text[4];
static const char *stale(void) { return vf_nd() ? old_text : ""; }
static void stir(int t, void *e, struct arg_end *en, int mx) {
    int j, c = vf_range(0, mx);
    old_text[0] = vf_anychar();
    old_text[1] = vf_anychar();
    old_text[2] = 0;
    switch (t) {
        case T_LIT: ((struct arg_lit *)e)->count = c; break;
        case T_INT:
            ((struct arg_int *)e)->count = c;
            for (j = 0; j < mx; j++) ((struct arg_int *)e)->ival[j] = vf_nd();
            break;
        case T_DBL:
            ((struct arg_dbl *)e)->count = c;
            for (j = 0; j < mx; j++) ((struct arg_dbl *)e)->dval[j] = vf_nd();
            break;
        case T_STR:
            ((struct arg_str *)e)->count = c;
            for (j = 0; j < mx; j++) ((struct arg_str *)e)->sval[j] = stale();
            break;
        case T_REX:
            ((struct arg_rex *)e)->count = c;
            for (j = 0; j < mx; j++) ((struct arg_rex *)e)->sval[j] = stale();
            break;
        case T_FILE:
            ((struct arg_file *)e)->count = c;
            for (j = 0; j < mx; j++) {
                ((struct arg_file *)e)->filename[j] = stale();
                ((struct arg_file *)e)->basename[j] = stale();
                ((struct arg_file *)e)->extension[j] = stale();
            }
            break;
        default:
            ((struct arg_date *)e)->count = c;
            for (j = 0; j < mx; j++) {
                ((struct arg_date *)e)->tmval[j].tm_mday = vf_range(1, 31);
                ((struct arg_date *)e)->tmval[j].tm_mon = vf_range(0, 11);
                ((struct arg_date *)e)->tmval[j].tm_year = vf_range(-1900, 8099);
            }
            break;
    }
    en->count = vf_range(0, 4);
    for (j = 0; j < 4; j++) {
        en->error[j] = vf_nd();
        en->parent[j] = vf_nd() ? e : (void *)en;
        en->argval[j] = vf_nd() ? old_text : 0;
    }
}
// VFSC props=C07 shards=7 opts="-lib-entry"
void sc_types_history(void) {
    int t = vf_choose(0, NT - 1), lim = vf_choose(0, 1), w0 = vf_choose(0, 4), w1 = vf_choose(1, 3), lng, nw, j, ret;
    void *tab[2];
    void *e;
    struct arg_end *en;
    char *argv[4];
    int w[2], kept = 0, bad = 0, codes[4], par[4], val[2];
    const char *kv[2];
    int mn = lim, mx = 2 - lim;
    VF_SHARD(t);
    lng = (w0 + lim) & 1;
    if (w1 == 3)
        w1 = 4;
    if ((w0 == 4 && w1 != 4) || (t == T_LIT && (w0 == 1 || w0 == 2 || w1 == 1 || w1 == 2)))
        vf_stop();
    vf_cid = 100000 * t + 10000 * mn + 1000 * mx + 100 * w0 + 10 * w1 + lng;
    vf_live = 0; vf_allocs = 0; vf_fail_at = 0; vf_failed = 0; vf_panicked = 0; vf_printed = 0; vf_exited = 0; vf_allow_exit = 0; vf_outlen = 0;
    vf_setjmp_mode = 0; vf_longjmps_allowed = 0; vf_strftime_mode = 0; vf_strtol_mode = 0; vf_strtol_used = 0; vf_abs_size = 0; vf_abs_base = 0; vf_env_posix = 0; vf_fp = 0;
    e = tab[0] = mk(t, lng ? 0 : "t", lng ? "t" : 0, mn, mx);
    tab[1] = en = arg_end(4);
    stir(t, e, en, mx);
    /* 0: good value, 1: another, 2: bad value (if the type has any), 3: unknown option, 4: nothing */
    w[0] = w0;
    w[1] = w1;
    argv[0] = "prog";
    nw = w0 == 4 ? 0 : w1 == 4 ? 1 : 2;
    for (j = 0; j < nw; j++) {
        const char *a;
        if (w[j] == 3)
            a = "--zz";
        else if (t == T_LIT)
            a = lng ? "--t" : "-t";
        else
            a = lng ? (w[j] == 0 ? "--t=5" : w[j] == 1 ? "--t=3" : "--t=ab") : (w[j] == 0 ? "-t5" : w[j] == 1 ? "-t3" : "-tab");
        argv[1 + j] = (char *)a;
        if (w[j] == 3) {
            par[bad] = 1;
            codes[bad++] = ARG_ELONGOPT;
        } else if (kept == mx) {
            par[bad] = 0;
            codes[bad++] = ARG_ERR_MAXCOUNT;
        } else if (w[j] == 2 && t != T_STR && t != T_FILE) {
            par[bad] = 0;
            codes[bad++] = t == T_INT ? ARG_ERR_BADINT : t == T_DBL ? ARG_ERR_BADDOUBLE : t == T_REX ? ARG_ERR_REGNOMATCH : ARG_ERR_BADDATE;
        } else {
            kv[kept] = t == T_LIT ? a : a + (lng ? 4 : 2);
            val[kept++] = w[j] == 0 ? 5 : 3;
        }
    }
    argv[1 + nw] = 0;
    if (!bad && kept < mn) {
        par[bad] = 0;
        codes[bad++] = ARG_ERR_MINCOUNT;
    }
    VF_BEGIN();
    ret = arg_parse(1 + nw, argv, tab);
    VF_END();
    VF("C07", ret == bad && en->count == bad, "what was parsed before changes the number of errors");
    for (j = 0; j < 3; j++)
        if (j < bad)
            VF("C07", en->error[j] == codes[j] && en->parent[j] == (par[j] ? (void *)en : e), "what was parsed before changes the errors");
    VF("C07", count_of(t, e) == kept, "what was parsed before changes the count");
    for (j = 0; j < 2; j++)
        if (j < kept)
            VF("C07", value_is(t, e, j, kv[j], val[j]), "what was parsed before changes the values");
    VF("C07", vf_live == 2 && vf_printed == 0, "what was parsed before changes the effects of a parse");
}
