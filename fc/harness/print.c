/* Usage lines, glossaries and wrapped text against a reference rendering. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE the_stream;

/* ---- reference text ---- */
static char rb[4000];
static unsigned rn;
static void r_start(void) { rn = 0; rb[0] = 0; }
static void r_s(const char *s) { strcpy(rb + rn, s); rn += (unsigned)strlen(s); }
static void r_c(char c) { rb[rn++] = c; rb[rn] = 0; }
static int r_pad(unsigned from, unsigned width) {
    while (rn - from < width)
        r_c(' ');
    return 0;
}

/* ---- the entries ---- */
struct ekind {
    int type; /* 0 lit 1 int 2 str 3 file 4 rem 5 date 6 dbl 7 rex */
    const char *so, *lo, *dt, *shown, *gl;
    int optv;
};
#define NEK 13
static const struct ekind ek[NEK] = {
    {0, "a", 0, 0, 0, "first", 0},
    {0, "bB", "bee,bo", 0, 0, "second text", 0},
    {0, 0, "lit", 0, 0, "long only", 0},
    {1, "i", 0, 0, "<int>", "number", 0},
    {2, 0, "str,sto", "TXT", "TXT", "words", 0},
    {3, 0, 0, 0, "<file>", "file names", 0},
    {2, "s", "sv", "VAL", "VAL", "may have a value", 1},
    {4, 0, 0, "note", "note", "a remark", 0},
    {5, 0, "day", "%Y", "%Y", "date", 0},
    {6, 0, 0, 0, "<double>", 0, 0},
    {7, "xy", 0, 0, "[a-z]*", "pattern", 0},
    {2, "Q", "quite-a-long-name,long", "<datatype>", "<datatype>", "past the column", 0},
    {2, 0, "o", "V", "V", "long opt. value", 1},
};
#define NLIM 8
static const int lmin[NLIM] = {0, 1, 0, 1, 0, 2, 1, 0};
static const int lmax[NLIM] = {1, 1, 2, 2, 3, 6, 3, 4};
static int mnof[3], mxof[3], kof[3];
static double dbuf[8];

static void *mk(int j, int k, int lim) {
    const struct ekind *e = &ek[k];
    int mn = lmin[lim], mx = lmax[lim];
    void *p;
    kof[j] = k;
    mnof[j] = mn;
    mxof[j] = mx;
    switch (e->type) {
        case 0: p = arg_litn(e->so, e->lo, mn, mx, e->gl); break;
        case 1: p = arg_intn(e->so, e->lo, e->dt, mn, mx, e->gl); break;
        case 2: p = arg_strn(e->so, e->lo, e->dt, mn, mx, e->gl); break;
        case 3: p = arg_filen(e->so, e->lo, e->dt, mn, mx, e->gl); break;
        case 4:
            p = arg_rem(e->dt, e->gl);
            mnof[j] = mxof[j] = 1;
            break;
        case 5: p = arg_daten(e->so, e->lo, e->dt, 0, mn, mx, e->gl); break;
        case 6: {
            struct arg_dbl *d = arg_dbln(e->so, e->lo, e->dt, mn, mx, e->gl);
            d->dval = dbuf;
            p = d;
            break;
        }
        default: p = arg_rexn(e->so, e->lo, "[a-z]*", e->dt, mn, mx, 0, e->gl); break;
    }
    if (e->optv)
        ((struct arg_hdr *)p)->flag |= ARG_HASOPTVALUE;
    return p;
}
static void r_value(const struct ekind *e) {
    if (e->optv)
        r_c('[');
    r_s(e->shown);
    if (e->optv)
        r_c(']');
}
/* one name (plain style) or all names (verbose style) and the data type */
static void r_option(const struct ekind *e, int all, const char *sep) {
    int i;
    if (!all) {
        if (e->so) {
            r_c('-');
            r_c(e->so[0]);
            if (e->shown)
                r_c(' ');
        } else if (e->lo) {
            r_s("--");
            for (i = 0; e->lo[i] && e->lo[i] != ','; i++)
                r_c(e->lo[i]);
            if (e->shown)
                r_c('=');
        }
    } else {
        if (e->so)
            for (i = 0; e->so[i]; i++) {
                if (i)
                    r_s(sep);
                r_c('-');
                r_c(e->so[i]);
            }
        if (e->lo) {
            if (e->so)
                r_s(sep);
            r_s("--");
            for (i = 0; e->lo[i]; i++)
                if (e->lo[i] == ',') {
                    r_s(sep);
                    r_s("--");
                } else
                    r_c(e->lo[i]);
        }
        if (e->shown) {
            if (e->lo)
                r_c('=');
            else if (e->so)
                r_c(' ');
        }
    }
    if (e->shown)
        r_value(e);
}
static void r_entry(int j, int all) {
    int i, extra = mxof[j] - mnof[j];
    for (i = 0; i < mnof[j]; i++) {
        r_c(' ');
        r_option(&ek[kof[j]], all, "|");
    }
    if (extra == 0)
        return;
    r_s(" [");
    r_option(&ek[kof[j]], all, "|");
    r_s("]");
    if (extra == 2) {
        r_s(" [");
        r_option(&ek[kof[j]], all, "|");
        r_s("]");
    } else if (extra > 2)
        r_s("...");
}
static void r_syntax(int n) {
    int j, mand = 0, opt = 0;
    for (j = 0; j < n; j++)
        if (ek[kof[j]].so && ek[kof[j]].type == 0 && mnof[j] > 0) {
            if (!mand)
                r_s(" -");
            mand = 1;
            r_c(ek[kof[j]].so[0]);
        }
    for (j = 0; j < n; j++)
        if (ek[kof[j]].so && ek[kof[j]].type == 0 && mnof[j] == 0) {
            if (!opt)
                r_s(mand ? "[" : " [-");
            opt = 1;
            r_c(ek[kof[j]].so[0]);
        }
    if (opt)
        r_c(']');
    for (j = 0; j < n; j++)
        if (!(ek[kof[j]].so && ek[kof[j]].type == 0))
            r_entry(j, 0);
}
static void r_syntaxv(int n) {
    int j;
    for (j = 0; j < n; j++)
        r_entry(j, 1);
}
static void r_glossary(int n) {
    int j;
    for (j = 0; j < n; j++)
        if (ek[kof[j]].gl) {
            unsigned s;
            r_s("  ");
            s = rn;
            r_option(&ek[kof[j]], 1, ", ");
            r_pad(s, 20);
            r_c(' ');
            r_s(ek[kof[j]].gl);
            r_c('\n');
        }
}
static void r_gnu(int n) {
    int j;
    for (j = 0; j < n; j++)
        if (ek[kof[j]].gl) {
            unsigned s;
            r_s("  ");
            s = rn;
            if (!ek[kof[j]].so && ek[kof[j]].lo)
                r_s("    ");
            r_option(&ek[kof[j]], 1, ", ");
            if (rn - s > 25) {
                r_s(" \n  ");
                s = rn;
            }
            r_pad(s, 25);
            r_c(' ');
            r_s(ek[kof[j]].gl);
            r_c('\n');
        }
    r_c('\n');
}
static arg_dstr_t ds;
static void cmp_ds(void) {
    VF("C27", strcmp(arg_dstr_cstr(ds), rb) == 0, "a usage text does not show the table exactly");
}
static void cmp_fp(void) {
    VF("C23", vf_outlen == rn || vf_outlen == strlen(arg_dstr_cstr(ds)), "the stream variant writes a text of different length");
    VF("C23", memcmp(vf_out, arg_dstr_cstr(ds), strlen(arg_dstr_cstr(ds)) < vf_outlen ? strlen(arg_dstr_cstr(ds)) : vf_outlen) == 0 && strlen(arg_dstr_cstr(ds)) == vf_outlen,
       "the stream variant writes a different text than the string variant");
    VF("C23", vf_printed == 0, "a printer writes to another stream");
    vf_outlen = 0;
}
/* mask: which printers; fp: the stream variants too */
static void texts(int n, void **tab, int mask, int fp) {
    long live;
    vf_fp = &the_stream;
    VF_BEGIN();
    live = vf_live;
    ds = arg_dstr_create();
    if (mask & 1) {
        arg_print_syntax_ds(ds, tab, "<");
        r_start();
        r_syntax(n);
        r_s("<");
        cmp_ds();
        if (fp) {
            arg_print_syntax(&the_stream, tab, "<");
            cmp_fp();
        }
        arg_dstr_reset(ds);
    }
    if (mask & 2) {
        arg_print_syntaxv_ds(ds, tab, 0);
        r_start();
        r_syntaxv(n);
        cmp_ds();
        if (fp) {
            arg_print_syntaxv(&the_stream, tab, 0);
            cmp_fp();
        }
        arg_dstr_reset(ds);
    }
    if (mask & 4) {
        arg_print_glossary_ds(ds, tab, 0);
        r_start();
        r_glossary(n);
        cmp_ds();
        if (fp) {
            arg_print_glossary(&the_stream, tab, 0);
            cmp_fp();
        }
        arg_dstr_reset(ds);
    }
    if (mask & 8) {
        arg_print_glossary_gnu_ds(ds, tab);
        r_start();
        r_gnu(n);
        cmp_ds();
        if (fp) {
            arg_print_glossary_gnu(&the_stream, tab);
            cmp_fp();
        }
    }
    arg_dstr_destroy(ds);
    VF("C18", vf_live == live, "printing leaves memory behind");
    VF_END();
    VF("C26", vf_printed == 0, "building a text writes to a stream");
}
// VFSC props=C27,C23,C18,C26 shards=4 defs="-DVF_FAST"
void sc_print_one(void) {
    void *tab[2];
    int k = vf_choose(0, NEK - 1), lim = vf_choose(0, NLIM - 1);
    VF_SHARD(k);
    vf_cid = 10 * k + lim;
    tab[0] = mk(0, k, lim);
    tab[1] = arg_end(1);
    texts(1, tab, lim < 2 || lim == 5 ? 15 : 3, lim < 2);
}
static const int first6[6] = {1, 2, 4, 5, 6, 9}, second6[6] = {0, 3, 7, 8, 11, 12};
// VFSC props=C27 shards=8 defs="-DVF_FAST"
void sc_print_two(void) {
    void *tab[3];
    int k = first6[vf_choose(0, 5)], q = second6[vf_choose(0, 5)];
    int m = vf_choose(0, 2);
    VF_SHARD(k + 2 * q + m);
    vf_cid = 1000 * k + 10 * q + m;
    tab[0] = mk(0, k, k & 1);
    tab[1] = mk(1, q, q & 1 ? 6 : 0);
    tab[2] = arg_end(1);
    texts(2, tab, m == 0 ? 3 : m == 1 ? 4 : 8, 0);
}
// VFSC props=C27,C23 shards=16 tier=thorough defs="-DVF_FAST"
void sc_print_two_full(void) {
    void *tab[3];
    int k = vf_choose(0, NEK - 1), q = vf_choose(0, NEK - 1);
    int lim = vf_choose(0, 1) , lim2 = vf_choose(0, 1);
    VF_SHARD(k + 2 * q);
    vf_cid = 1000 * k + 10 * q + 2 * lim + lim2;
    tab[0] = mk(0, k, lim);
    tab[1] = mk(1, q, lim2 ? 6 : 0);
    tab[2] = arg_end(1);
    texts(2, tab, 15, 1);
}
/* switches only: the grouping of three of them */
// VFSC props=C27 shards=4 defs="-DVF_FAST"
void sc_print_switches(void) {
    void *tab[4];
    int a = vf_choose(0, 2), b = vf_choose(0, 2), c = vf_choose(0, 2);
    int l = vf_choose(0, 7);
    VF_SHARD(l);
    vf_cid = 1000 * a + 100 * b + 10 * c + l;
    tab[0] = mk(0, a == 2 ? 3 : a, l & 1);
    tab[1] = mk(1, b == 2 ? 2 : b, (l >> 1) & 1);
    tab[2] = mk(2, c == 2 ? 4 : c, (l >> 2) & 1);
    tab[3] = arg_end(1);
    texts(3, tab, 1, 0);
}
/* the table ends at the end entry: what stands behind it is not looked at, and
 * a table of nothing but an end entry yields empty texts */
// VFSC props=C27,C23 defs="-DVF_FAST"
void sc_print_none(void) {
    void *tab[2];
    tab[0] = arg_end(1);
    tab[1] = 0;
    texts(0, tab, 15, 1);
}
/* single options, caller-defined glossary format */
// VFSC props=C27,C23,C26 defs="-DVF_FAST"
void sc_print_option(void) {
    int k = vf_choose(0, NEK - 1);
    int sfx = vf_choose(0, 1);
    struct ekind e = ek[k];
    void *tab[2];
    vf_cid = 10 * k + sfx;
    vf_fp = &the_stream;
    tab[0] = mk(0, k, 0);
    tab[1] = arg_end(1);
    VF_BEGIN();
    ds = arg_dstr_create();
    arg_print_option_ds(ds, e.so, e.lo, e.shown, sfx ? "\n" : 0);
    e.optv = 0;
    r_start();
    r_option(&e, 1, "|");
    if (sfx)
        r_s("\n");
    cmp_ds();
    arg_print_option(&the_stream, e.so, e.lo, e.shown, sfx ? "\n" : 0);
    cmp_fp();
    arg_dstr_reset(ds);
    arg_print_glossary_ds(ds, tab, sfx ? "<%s>%s|" : "%s: %5s;");
    r_start();
    if (e.gl) {
        if (sfx)
            r_c('<');
        r_option(&ek[k], 1, ", ");
        r_s(sfx ? ">" : ": ");
        r_s(e.gl);
        r_c(sfx ? '|' : ';');
    }
    if (sfx || !e.gl || strlen(e.gl) >= 5)
        cmp_ds();
    arg_print_glossary(&the_stream, tab, sfx ? "<%s>%s|" : "%s: %5s;");
    cmp_fp();
    arg_dstr_destroy(ds);
    VF_END();
}

/* ---- wrapped text ---- */
#define MAXT 6
static void wrap(int n, const char *t, unsigned lm, unsigned w) {
    unsigned i, col = 0, line = 0, k = 0, ind = 0;
    const unsigned rm = lm + w - 1;
    vf_fp = &the_stream;
    vf_outlen = 0;
    VF_BEGIN();
    arg_print_formatted(&the_stream, lm, rm, t);
    VF_END();
    VF("C27", vf_outlen > 0 && vf_out[vf_outlen - 1] == '\n', "wrapped text does not end with a newline");
    VF("C23", vf_printed == 0, "a printer writes to another stream");
    for (i = 0; i < vf_outlen; i++) {
        char c = vf_out[i];
        if (c == '\n') {
            line++;
            col = 0;
            ind = 0;
            continue;
        }
        if (line > 0 && ind < lm) {
            VF("C27", c == ' ', "a continuation line of wrapped text is not indented to the left margin");
            ind++;
            continue;
        }
        col++;
        VF("C27", col <= w, "a line of wrapped text goes beyond the right margin");
        if (c != ' ') {
            while (k < (unsigned)n && (t[k] == ' ' || t[k] == '\n'))
                k++;
            VF("C27", k < (unsigned)n && t[k] == c, "wrapping loses, repeats or reorders characters");
            k++;
        }
    }
    while (k < (unsigned)n && (t[k] == ' ' || t[k] == '\n'))
        k++;
    VF("C27", k == (unsigned)n, "wrapping loses the end of the text");
}
static char cls(int c, int pos) { return c == 0 ? (char)('a' + pos) : c == 1 ? ' ' : '\n'; }
// VFSC props=C27 shards=8 defs="-DVF_FAST"
void sc_wrap5(void) {
    static char t[8];
    int a = vf_choose(0, 2), b = vf_choose(0, 2), c = vf_choose(0, 2), d = vf_choose(0, 2), e = vf_choose(0, 3);
    int w = vf_choose(1, 3);
    VF_SHARD(a + 3 * b + d + e);
    vf_cid = 100000 * a + 10000 * b + 1000 * c + 100 * d + 10 * e + w;
    t[0] = cls(a, 0);
    t[1] = cls(b, 1);
    t[2] = cls(c, 2);
    t[3] = cls(d, 3);
    t[4] = e == 3 ? 0 : cls(e, 4);
    t[5] = 0;
    wrap(e == 3 ? 4 : 5, t, 2, (unsigned)w);
}
// VFSC props=C27,C23 shards=16 tier=thorough defs="-DVF_FAST"
void sc_wrap7(void) {
    static char t[8];
    int a = vf_choose(0, 2), b = vf_choose(0, 2), c = vf_choose(0, 2), d = vf_choose(0, 2), e = vf_choose(0, 2), f = vf_choose(0, 2), g = vf_choose(0, 1);
    int w = vf_choose(1, 4);
    VF_SHARD(a + 3 * b + d + e + 5 * f);
    vf_cid = 10000000 * a + 1000000 * b + 100000 * c + 10000 * d + 1000 * e + 100 * f + 10 * g + w;
    t[0] = cls(a, 0);
    t[1] = cls(b, 1);
    t[2] = cls(c, 2);
    t[3] = cls(d, 3);
    t[4] = cls(e, 4);
    t[5] = cls(f, 5);
    t[6] = cls(g, 6);
    t[7] = 0;
    wrap(7, t, 3, (unsigned)w);
}
/* words are kept whole when they fit: exact text */
static void whole(const char *t, const char *want) {
    VF_BEGIN();
    vf_outlen = 0;
    arg_print_formatted(&the_stream, 2, 7, t);
    VF_END();
    VF("C27", vf_outlen == strlen(want) && memcmp(vf_out, want, vf_outlen) == 0, "text is not wrapped at the last white space that fits");
}
// VFSC props=C27 defs="-DVF_FAST"
void sc_wrap_words(void) {
    vf_fp = &the_stream;
    vf_cid = vf_choose(0, 12);
    switch (vf_cid) {
        case 0: whole("Some text that doesn't fit.", "Some\n  text\n  that\n  doesn'\n  t fit.\n"); break;
        case 1: whole("ab cd ef gh", "ab cd\n  ef gh\n"); break;
        case 2: whole("abcdef ghijkl", "abcdef\n  ghijkl\n"); break;
        case 3: whole("abcdef", "abcdef\n"); break;
        case 4: whole("ab\ncd ef gh", "ab\n  cd ef\n  gh\n"); break;
        case 5: whole("a b c d e", "a b c\n  d e\n"); break;
        case 6: whole("  ab cde   fg", "ab cde\n  fg\n"); break;
        case 7: whole("abcdef\tghijkl", "abcdef\n  ghijkl\n"); break;
        case 8: whole("\tab", "ab\n"); break;
        case 9: whole("a\tb", "a\tb\n"); break;
        case 10: whole("ab\t \tcdefgh", "ab\n  cdefgh\n"); break;
        case 11: whole("abcd\vefgh", "abcd\n  efgh\n"); break;
        default: whole("", "\n"); break;
    }
}
