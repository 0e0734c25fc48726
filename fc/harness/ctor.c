/* Constructors, table check and release, allocation failure, sort. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { T_LIT, T_INT, T_STR, T_REX, T_FILE, T_DATE, NT };
#define NLIM 9
#define NMORE 4
static const int lmin[NLIM + NMORE] = {0, 1, 0, 2, 3, 0, 1, 2, 0, 0, 33, 100, 0};
static const int lmax[NLIM + NMORE] = {1, 1, 3, 5, 1, 0, 0, 2, 17, 33, 10, 128, 400};
static const char so[] = "ab", lo[] = "long,other", dt[] = "TYPE", gl[] = "words", pat[] = "[xy]+", fmt[] = "%d";

static void hdr(struct arg_hdr *h, void *self, int hasval, const char *type, const char *g, int mn, int mx) {
    VF("C17", h->shortopts == so && h->longopts == lo && h->glossary == g, "a constructor does not keep the names or glossary it was given");
    VF("C17", type ? h->datatype && strcmp(h->datatype, type) == 0 : h->datatype == 0, "a constructor does not keep the data type or its default");
    VF("C17", h->mincount == mn && h->maxcount == mx, "a constructor does not keep its limits (maximum raised to the minimum)");
    VF("C17", h->parent == self, "an entry does not refer to itself");
    VF("C17", ((h->flag & ARG_HASVALUE) != 0) == hasval && !(h->flag & (ARG_TERMINATOR | ARG_HASOPTVALUE)), "an entry has the wrong kind");
    VF("C17", h->resetfn && h->scanfn && h->checkfn && h->errorfn, "an entry lacks one of its functions");
}
#define ALIGNED(p, self, type) VF("C17", (size_t)((char *)(p) - (char *)(self)) % __builtin_offsetof(struct { char c_; type t_; }, t_) == 0, "a value array is not aligned")
/* v: 0 = "0" variant, 1 = "1" variant, 2 = "n" variant */
static void ctor(int t, int v, int lim, int dflt) {
    int mn = v == 2 ? lmin[lim] : v, mx = v == 2 ? lmax[lim] : 1, i;
    const char *d = dflt ? 0 : dt, *g = dflt ? 0 : gl;
    long live = vf_live;
    void *tab[1];
    VF_BEGIN();
    switch (t) {
        case T_LIT: {
            struct arg_lit *e = v == 0 ? arg_lit0(so, lo, g) : v == 1 ? arg_lit1(so, lo, g) : arg_litn(so, lo, mn, mx, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            hdr(&e->hdr, e, 0, 0, g, mn, mx);
            tab[0] = e;
            break;
        }
        case T_INT: {
            struct arg_int *e = v == 0 ? arg_int0(so, lo, d, g) : v == 1 ? arg_int1(so, lo, d, g) : arg_intn(so, lo, d, mn, mx, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            ALIGNED(e->ival, e, int);
            e->count = 99;
            for (i = 0; i < mx; i++)
                e->ival[i] = 1000 + i;
            for (i = 0; i < mx; i++)
                VF("C17", e->ival[i] == 1000 + i, "value slots overlap");
            VF("C17", e->count == 99, "a value array overlaps the count");
            hdr(&e->hdr, e, 1, dflt ? "<int>" : dt, g, mn, mx);
            tab[0] = e;
            break;
        }
        case T_STR: {
            struct arg_str *e = v == 0 ? arg_str0(so, lo, d, g) : v == 1 ? arg_str1(so, lo, d, g) : arg_strn(so, lo, d, mn, mx, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            ALIGNED(e->sval, e, char *);
            for (i = 0; i < mx; i++)
                VF("C17", e->sval[i][0] == 0, "a string value does not start as the empty text");
            e->count = 99;
            for (i = 0; i < mx; i++)
                e->sval[i] = gl + (i & 3);
            VF("C17", e->count == 99, "a value array overlaps the count");
            hdr(&e->hdr, e, 1, dflt ? "<string>" : dt, g, mn, mx);
            tab[0] = e;
            break;
        }
        case T_REX: {
            struct arg_rex *e = v == 0 ? arg_rex0(so, lo, pat, d, 0, g) : v == 1 ? arg_rex1(so, lo, pat, d, 0, g) : arg_rexn(so, lo, pat, d, mn, mx, 0, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            ALIGNED(e->sval, e, char *);
            for (i = 0; i < mx; i++)
                VF("C17", e->sval[i][0] == 0, "a pattern value does not start as the empty text");
            e->count = 0;
            for (i = 0; i < mx; i++)
                e->sval[i] = gl + (i & 3);
            VF("C17", e->count == 0, "a value array overlaps the count");
            hdr(&e->hdr, e, 1, dflt ? pat : dt, g, mn, mx);
            /* the pattern is still intact behind all those values */
            e->hdr.resetfn(e);
            if (mx > 0)
                VF("C17", e->hdr.scanfn(e, "xy") == 0 && e->count == 1, "the values overlap the pattern");
            tab[0] = e;
            break;
        }
        case T_FILE: {
            struct arg_file *e = v == 0 ? arg_file0(so, lo, d, g) : v == 1 ? arg_file1(so, lo, d, g) : arg_filen(so, lo, d, mn, mx, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            ALIGNED(e->filename, e, char *);
            ALIGNED(e->basename, e, char *);
            ALIGNED(e->extension, e, char *);
            for (i = 0; i < mx; i++)
                VF("C17", e->filename[i][0] == 0 && e->basename[i][0] == 0 && e->extension[i][0] == 0, "a file value does not start as the empty text");
            e->count = 99;
            for (i = 0; i < mx; i++) {
                e->filename[i] = gl;
                e->basename[i] = gl + 1;
                e->extension[i] = gl + 2;
            }
            for (i = 0; i < mx; i++)
                VF("C17", e->filename[i] == gl && e->basename[i] == gl + 1 && e->extension[i] == gl + 2, "value slots overlap");
            VF("C17", e->count == 99, "a value array overlaps the count");
            hdr(&e->hdr, e, 1, dflt ? "<file>" : dt, g, mn, mx);
            tab[0] = e;
            break;
        }
        default: {
            struct arg_date *e = v == 0 ? arg_date0(so, lo, dflt ? 0 : fmt, d, g) : v == 1 ? arg_date1(so, lo, dflt ? 0 : fmt, d, g)
                                                                                           : arg_daten(so, lo, dflt ? 0 : fmt, d, mn, mx, g);
            if (mx < mn) mx = mn;
            VF("C17", e->count == 0, "a new entry's count is not zero");
            VF("C17", strcmp(e->format, dflt ? "%x" : fmt) == 0, "a date entry does not keep its format");
            ALIGNED(e->tmval, e, struct tm);
            for (i = 0; i < mx; i++)
                VF("C17", e->tmval[i].tm_year == 0 && e->tmval[i].tm_isdst == 0 && e->tmval[i].tm_yday == 0, "a date value does not start zeroed");
            e->count = 99;
            for (i = 0; i < mx; i++) {
                e->tmval[i].tm_sec = 7000 + i;
                e->tmval[i].tm_isdst = i;
            }
            for (i = 0; i < mx; i++)
                VF("C17", e->tmval[i].tm_sec == 7000 + i && e->tmval[i].tm_isdst == i, "value slots overlap");
            VF("C17", e->count == 99, "a value array overlaps the count");
            hdr(&e->hdr, e, 1, dflt ? "%x" : dt, g, mn, mx);
            tab[0] = e;
            break;
        }
    }
    arg_freetable(tab, 1);
    VF("C18", vf_live == live && tab[0] == 0, "creating and releasing an entry leaves memory behind");
    VF_END();
}
// VFSC props=C17,C18 shards=4
void sc_ctor(void) {
    int t = vf_choose(0, NT - 1), v = vf_choose(0, NLIM + 1), d = vf_choose(0, 1);
    VF_SHARD(v);
    vf_cid = 1000 * t + 10 * v + d;
    if (v < 2)
        ctor(t, v, 0, d);
    else
        ctor(t, 2, v - 2, d);
}
/* many values */
// VFSC props=C17,C18 slevel=300000 defs="-DVF_FAST" shards=4
void sc_ctor_many(void) {
    int t = vf_choose(0, NT - 1), l = vf_choose(0, NMORE - 1);
    VF_SHARD(t + l);
    vf_cid = 10 * t + l;
    ctor(t, 2, NLIM + l, 0);
}
/* arg_dbl places its array by address arithmetic: known block addresses of
 * every alignment an allocator may return */
// VFSC props=C17 opts="-absolute-valid-range 0x1000-0x1fff"
void sc_ctor_dbl(void) {
    int v = vf_choose(0, NLIM + NMORE + 1), d = vf_choose(0, 1), b = vf_choose(0, 3), i;
    int mn = v < 2 ? v : lmin[v - 2], mx = v < 2 ? 1 : lmax[v - 2];
    const char *g = d ? 0 : gl;
    struct arg_dbl *e;
    size_t a, z;
    vf_cid = 100 * v + 10 * d + b;
    vf_abs_base = 0x1000 + 4 * (size_t)b;
    VF_BEGIN();
    e = v == 0 ? arg_dbl0(so, lo, d ? 0 : dt, g) : v == 1 ? arg_dbl1(so, lo, d ? 0 : dt, g) : arg_dbln(so, lo, d ? 0 : dt, mn, mx, g);
    if (mx < mn) mx = mn;
    VF("C17", (size_t)e == vf_abs_base, "the entry is not the allocated block");
    VF("C17", e->count == 0, "a new entry's count is not zero");
    hdr(&e->hdr, e, 1, d ? "<double>" : dt, g, mn, mx);
    a = (size_t)e->dval;
    z = a + (size_t)mx * sizeof(double);
    VF("C17", a % sizeof(double) == 0, "the array of doubles is not aligned");
    VF("C17", a >= vf_abs_base + sizeof(struct arg_dbl), "the array of doubles overlaps the entry");
    VF("C17", z <= vf_abs_base + vf_abs_size, "the array of doubles has no room for the maximum number of values");
    VF_END();
}
// VFSC props=C17,C05 slevel=300000
void sc_ctor_end(void) {
    static const int caps[9] = {-1, 0, 1, 2, 5, 20, 21, 64, 300};
    int c = vf_choose(0, 8), i, n;
    struct arg_end *e;
    vf_cid = c;
    n = caps[c] < 1 ? 1 : caps[c];
    VF_BEGIN();
    e = arg_end(caps[c]);
    VF("C17", e->count == 0, "a new end entry's error count is not zero");
    VF("C17", e->hdr.flag == ARG_TERMINATOR, "an end entry does not end the table");
    ALIGNED(e->error, e, int);
    ALIGNED(e->parent, e, void *);
    ALIGNED(e->argval, e, char *);
    e->count = 77;
    for (i = 0; i < n; i++) {
        e->error[i] = 500 + i;
        e->parent[i] = e;
        e->argval[i] = gl;
    }
    for (i = 0; i < n; i++)
        VF("C17", e->error[i] == 500 + i && e->parent[i] == e && e->argval[i] == gl, "error slots overlap");
    VF("C17", e->count == 77 && e->hdr.flag == ARG_TERMINATOR && e->hdr.maxcount == n && e->hdr.parent == e, "error slots overlap the end entry");
    VF_END();
}
// VFSC props=C17
void sc_ctor_rem(void) {
    struct arg_rem *r = arg_rem(dt, gl);
    VF_BEGIN();
    VF("C17", r->hdr.flag == 0 && r->hdr.shortopts == 0 && r->hdr.longopts == 0 && r->hdr.datatype == dt && r->hdr.glossary == gl, "a remark does not keep its texts");
    VF("C17", r->hdr.resetfn == 0 && r->hdr.scanfn == 0 && r->hdr.checkfn == 0, "a remark takes part in parsing");
    VF_END();
}

/* ---- table check and release ---- */
#define MAXN 4
// VFSC props=C25,C18 shards=4
void sc_table(void) {
    void *tab[MAXN + 2];
    int n = vf_choose(0, MAXN), miss = vf_choose(0, 31), how = vf_choose(0, 2), i, want = 0, alive = 0, first = 99;
    VF_SHARD(miss);
    if (miss >= (1 << (n + 1)))
        vf_stop();
    vf_cid = 1000 * n + 10 * miss + how;
    for (i = 0; i <= n; i++) {
        if (miss & (1 << i)) {
            tab[i] = 0;
            want = 1;
            if (first == 99)
                first = i;
        } else if (i == n)
            tab[i] = arg_end(1);
        else
            tab[i] = i & 1 ? (void *)arg_strn(0, 0, 0, 0, 2, 0) : (void *)arg_litn("a", 0, 0, 1, 0);
        if (tab[i])
            alive++;
    }
    VF_BEGIN();
    VF("C25", (arg_nullcheck(tab) != 0) == want, "the table check does not report exactly the tables with a missing entry");
    VF("C25", vf_live == alive, "the table check changes the table");
    if (how == 0) {
        arg_freetable(tab, (size_t)(n + 1));
        for (i = 0; i <= n; i++)
            VF("C25", tab[i] == 0, "a released entry is not marked as released");
        VF("C25", vf_live == 0, "releasing a table leaves entries behind");
        arg_freetable(tab, (size_t)(n + 1));
        VF("C25", vf_live == 0, "a second release does harm");
    } else if (how == 1) { /* only a part of the table */
        int kept = 0;
        arg_freetable(tab, (size_t)n);
        for (i = 0; i < n; i++)
            VF("C25", tab[i] == 0, "a released entry is not marked as released");
        VF("C25", (tab[n] != 0) == !(miss & (1 << n)), "an entry beyond the given length is released");
        VF("C25", vf_live == (tab[n] ? 1 : 0), "releasing a part of a table releases the wrong entries");
    } else { /* the old function stops at the first missing entry */
        int left = 0;
        arg_free(tab);
        for (i = 0; i <= n; i++)
            if (i > first && !(miss & (1 << i)))
                left++;
            else
                VF("C25", tab[i] == 0, "a released entry is not marked as released");
        VF("C25", vf_live == left, "releasing a table releases the wrong entries");
        if (first == 99) {
            arg_free(tab);
            VF("C25", vf_live == 0, "a second release does harm");
        }
    }
    VF_END();
}
// VFSC props=C25
void sc_table_null(void) {
    VF_BEGIN();
    VF("C25", arg_nullcheck(0) != 0, "a missing table passes the table check");
    arg_freetable(0, 0);
    VF_END();
}
/* entries behind the end entry are not looked at */
// VFSC props=C25
void sc_table_behind(void) {
    void *tab[3];
    int how = vf_choose(0, 1);
    vf_cid = how;
    tab[0] = arg_litn("a", 0, 0, 1, 0);
    tab[1] = arg_end(1);
    tab[2] = 0;
    VF_BEGIN();
    VF("C25", arg_nullcheck(tab) == 0, "the table check looks behind the end entry");
    if (how) {
        tab[2] = &how;
        arg_free(tab);
        VF("C25", tab[2] == &how && tab[1] == 0 && tab[0] == 0, "release goes beyond the end entry");
    }
    VF_END();
}

/* ---- allocation failure ---- */
static int panics;
static void my_panic(const char *f, ...) {
    panics++;
    VF("C19", vf_failed, "the panic handler is called although memory was available");
    VF_END();
    vf_stop();
}
static double dbuf[2];
static void *atab[9];
static void build(void) {
    struct arg_dbl *d;
    atab[0] = arg_litn("a", "al", 0, 1, "g");
    atab[1] = arg_intn("i", 0, 0, 0, 1, "g");
    atab[2] = d = arg_dbln("d", 0, 0, 0, 1, "g");
    d->dval = dbuf;
    atab[3] = arg_strn("s", 0, 0, 0, 1, "g");
    atab[4] = arg_filen("f", 0, 0, 0, 1, "g");
    atab[5] = arg_daten("t", 0, "%d", 0, 0, 1, "g");
    atab[6] = arg_rem("r", "g");
    atab[7] = arg_rexn("x", 0, "[ab]c|d", 0, 0, 1, 0, "g");
    atab[8] = arg_end(2);
}
static int cb(int argc, char *argv[], arg_dstr_t res, void *ctx) { return 0; }
static int cmp_int(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static unsigned h1(const void *k) { return 1; }
static int e1(const void *a, const void *b) { return 0; }
static char longtxt[500];
static void operate(int o) {
    char *av[8];
    arg_dstr_t ds;
    int i;
    switch (o) {
        case 0: build(); break;
        case 1:
            av[0] = "p"; av[1] = "-al"; av[2] = "-i7"; av[3] = "-xac"; av[4] = "-t5"; av[5] = "-d1"; av[6] = "zz"; av[7] = 0;
            arg_parse(7, av, atab);
            break;
        case 2:
            ds = arg_dstr_create();
            arg_print_syntax_ds(ds, atab, "");
            arg_print_syntaxv_ds(ds, atab, "");
            arg_print_glossary_ds(ds, atab, 0);
            arg_dstr_destroy(ds);
            break;
        case 3:
            for (i = 0; i < 499; i++)
                longtxt[i] = 'q';
            ds = arg_dstr_create();
            arg_dstr_set(ds, longtxt, ARG_DSTR_VOLATILE);
            arg_dstr_cat(ds, longtxt);
            arg_dstr_catc(ds, 'c');
            arg_dstr_catf(ds, "%s", longtxt);
            arg_dstr_set(ds, "s", ARG_DSTR_STATIC);
            arg_dstr_cat(ds, longtxt);
            arg_dstr_destroy(ds);
            break;
        case 4:
            arg_set_module_name("n");
            arg_set_module_version(1, 2, 3, "t");
            arg_cmd_init();
            arg_cmd_register("c", cb, "d", 0);
            arg_cmd_register("c", cb, "d", 0);
            arg_cmd_itr_destroy(arg_cmd_itr_create());
            arg_cmd_uninit();
            break;
        case 5: {
            int v[4] = {3, 1, 2, 0};
            arg_mgsort(v, 4, sizeof(int), 0, 3, cmp_int);
            break;
        }
        case 6: {
            arg_hashtable_t *h = arg_hashtable_create(1, h1, e1);
            for (i = 0; i < 37; i++)
                arg_hashtable_insert(h, 0, 0);
            break;
        }
        default:
            ds = arg_dstr_create();
            arg_make_syntax_err_msg(ds, atab, atab[8]);
            arg_print_glossary_gnu_ds(ds, atab);
            arg_dstr_destroy(ds);
            break;
    }
}
static const int maxk[8] = {18, 22, 6, 9, 14, 5, 44, 6};
// VFSC props=C19 defs="-DVF_FAST" shards=8
void sc_panic(void) {
    int o = vf_choose(0, 7), k = vf_choose(1, 44);
    if (k > maxk[o])
        vf_stop();
    VF_SHARD(k);
    vf_cid = 100 * o + k;
    arg_set_panic(my_panic);
    if (o == 1 || o == 2 || o == 7)
        build();
    VF_BEGIN();
    vf_fail_at = vf_allocs + k;
    operate(o);
    VF("C19", !vf_failed, "a failed memory request does not reach the panic handler");
    VF_END();
}
/* the library's allocation functions by themselves */
// VFSC props=C19 defs="-DVF_FAST" shards=4 slevel=300000
void sc_alloc(void) {
    static const size_t sz[6] = {0, 1, 7, 16, 100, 600};
    int f = vf_choose(0, 3), a = vf_choose(0, 5), fail = vf_choose(0, 1), b = 0, i, same = 1;
    char *p;
    VF_SHARD(a);
    if (f == 3)
        b = vf_choose(0, 5);
    vf_cid = 1000 * f + 100 * a + 10 * b + fail;
    if (f == 0 && a == 0)
        vf_stop();
    arg_set_panic(my_panic);
    VF_BEGIN();
    if (f == 3) {
        p = xmalloc(sz[a] ? sz[a] : 1);
        for (i = 0; i < (int)sz[a]; i++)
            p[i] = (char)(i % 100);
    }
    if (fail)
        vf_fail_at = vf_allocs + 1;
    switch (f) {
        case 0: p = xmalloc(sz[a]); break;
        case 1: p = xcalloc(sz[a], 2); break;
        case 2: p = xrealloc(0, sz[a]); break;
        default: p = xrealloc(p, sz[b]); break;
    }
    VF("C19", !fail, "a failed memory request does not reach the panic handler");
    VF("C19", p != 0, "an allocation function answers with no memory although there is some");
    if (f == 1)
        for (i = 0; i < 2 * (int)sz[a]; i++)
            if (p[i])
                same = 0;
    if (f == 3)
        for (i = 0; i < (int)(sz[a] < sz[b] ? sz[a] : sz[b]); i++)
            if (p[i] != (char)(i % 100))
                same = 0;
    VF("C19", same, "allocated memory does not have the contents it should have");
    if (f != 1)
        for (i = 0; i < (int)(f == 3 ? sz[b] : sz[a]); i++)
            p[i] = 1;
    xfree(p);
    VF("C19", vf_live == 0, "released memory stays");
    VF_END();
}
/* without a handler the library says so and ends the process, with failure */
// VFSC props=C19 defs="-DVF_FAST"
void sc_panic_default(void) {
    int o = vf_choose(0, 2);
    vf_cid = o;
    vf_allow_exit = 2;
    VF_BEGIN();
    vf_fail_at = 1;
    switch (o) {
        case 0: arg_end(1); break;
        case 1: arg_dstr_create(); break;
        default: arg_daten("t", 0, "%d", 0, 0, 1, "g"); break;
    }
    VF("C19", 0, "the default panic handler returns");
}

/* ---- sort ---- */
struct pair { char key, tag; char pad; };
static int cmp_pair(const void *a, const void *b) { return ((const struct pair *)a)->key - ((const struct pair *)b)->key; }
static int cmp_char(const void *a, const void *b) { return *(const char *)a - *(const char *)b; }
static int cmp_long(const void *a, const void *b) { return *(const long *)a < *(const long *)b ? -1 : *(const long *)a > *(const long *)b; }
/* digits of code in base `base` are the keys */
static void sort(int n, int code, int base, int esize) {
    struct pair p[7];
    char c[7];
    long l[7];
    int key[7], tagseen[7], i, j, cnt;
    for (i = 0; i < n; i++) {
        key[i] = code % base;
        code /= base;
        p[i + 1].key = (char)key[i];
        p[i + 1].tag = (char)i;
        p[i + 1].pad = 5;
        c[i + 1] = (char)key[i];
        l[i + 1] = key[i] * 100000000000l;
        tagseen[i] = 0;
    }
    p[0].key = p[n + 1].key = 55;
    p[0].tag = p[n + 1].tag = 66;
    c[0] = c[n + 1] = 55;
    l[0] = l[n + 1] = 55;
    VF_BEGIN();
    if (esize == 3) {
        arg_mgsort(p, n + 2, sizeof(struct pair), 1, n, cmp_pair);
        for (i = 1; i < n; i++)
            VF("C21", p[i].key <= p[i + 1].key, "the result is not in order");
        for (i = 1; i <= n; i++) {
            int t = p[i].tag;
            VF("C21", t >= 0 && t < n && p[i].key == key[t] && p[i].pad == 5 && !tagseen[t], "the result is not a permutation of the input");
            tagseen[t] = 1;
        }
        VF("C21", p[0].key == 55 && p[0].tag == 66 && p[n + 1].key == 55 && p[n + 1].tag == 66, "elements outside the given range change");
    } else {
        if (esize == 1)
            arg_mgsort(c + 1, n, 1, 0, n - 1, cmp_char);
        else
            arg_mgsort(l + 1, n, sizeof(long), 0, n - 1, cmp_long);
        for (j = 0; j < base; j++) {
            cnt = 0;
            for (i = 0; i < n; i++) {
                if (key[i] == j)
                    cnt++;
                if (esize == 1 ? c[i + 1] == j : l[i + 1] == j * 100000000000l)
                    cnt--;
            }
            VF("C21", cnt == 0, "the result is not a permutation of the input");
        }
        for (i = 1; i < n; i++)
            VF("C21", esize == 1 ? c[i] <= c[i + 1] : l[i] <= l[i + 1], "the result is not in order");
        VF("C21", c[0] == 55 && c[n + 1] == 55 && l[0] == 55 && l[n + 1] == 55, "elements outside the given range change");
    }
    VF("C21", vf_live == 0, "the sort leaves memory behind");
    VF_END();
}
// VFSC props=C21 defs="-DVF_FAST" shards=4
void sc_sort4(void) {
    int n = vf_choose(0, 4), code = vf_choose(0, 255), e = vf_choose(0, 2);
    if ((n == 0 && code > 0) || (n == 1 && code > 0) || (n == 2 && code > 3) || (n == 3 && code > 26))
        vf_stop();
    VF_SHARD(code);
    if (e != 0 && n == 4 && code % 3 != 1)
        vf_stop();
    vf_cid = 10000 * n + 10 * code + e;
    sort(n, code, n ? n : 1, e == 0 ? 3 : e == 1 ? 1 : 8);
}
// VFSC props=C21 defs="-DVF_FAST" shards=4
void sc_sort5(void) {
    int code = vf_choose(0, 242);
    VF_SHARD(code);
    vf_cid = code;
    sort(5, code, 3, 3);
}
// VFSC props=C21 defs="-DVF_FAST" shards=8 tier=thorough
void sc_sort5_full(void) {
    int code = vf_choose(0, 3124);
    VF_SHARD(code);
    vf_cid = code;
    sort(5, code, 5, 3);
}
/* elements larger than a pointer, and odd sizes */
static int cmp_first(const void *a, const void *b) { return *(const unsigned char *)a - *(const unsigned char *)b; }
// VFSC props=C21 defs="-DVF_FAST" shards=8 slevel=300000
void sc_sort_sizes(void) {
    static const int sizes[11] = {2, 4, 5, 12, 16, 24, 40, 64, 100, 128, 300};
    static const int perm[6][4] = {{3, 2, 1, 0}, {0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {1, 1, 0, 0}, {0, 2, 0, 1}};
    unsigned char buf[4 * 300 + 2];
    int s = vf_choose(0, 10), p = vf_choose(0, 5), n = vf_choose(2, 4), e, i, j, used[4];
    VF_SHARD(s);
    vf_cid = 100 * s + 10 * p + n;
    e = sizes[s];
    buf[0] = buf[1 + n * e] = 0xee;
    for (i = 0; i < n; i++) {
        buf[1 + i * e] = (unsigned char)perm[p][i];
        for (j = 1; j < e; j++)
            buf[1 + i * e + j] = (unsigned char)(16 * i + j);
        used[i] = 0;
    }
    VF_BEGIN();
    arg_mgsort(buf + 1, n, e, 0, n - 1, cmp_first);
    VF_END();
    for (i = 0; i < n; i++) {
        int src = (buf[1 + i * e + 1] - 1) / 16, whole = 1;
        VF("C21", src >= 0 && src < n && !used[src] && buf[1 + i * e] == perm[p][src], "the result is not a permutation of the input");
        if (src >= 0 && src < n) {
            used[src] = 1;
            for (j = 1; j < e; j++)
                if (buf[1 + i * e + j] != (unsigned char)(16 * src + j))
                    whole = 0;
        }
        VF("C21", whole, "an element is torn apart");
        if (i)
            VF("C21", buf[1 + i * e] >= buf[1 + (i - 1) * e], "the result is not in order");
    }
    VF("C21", buf[0] == 0xee && buf[1 + n * e] == 0xee, "elements outside the given range change");
    VF("C21", vf_live == 0, "the sort leaves memory behind");
}
