/* Diagnostics: every error kind of every value type, through a real parse. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE the_stream;
static char rb[3000];
static unsigned rn;
static void r_s(const char *s) { strcpy(rb + rn, s); rn += (unsigned)strlen(s); }
static double dbuf[4];

enum { T_LIT, T_INT, T_DBL, T_STR, T_REX, T_FILE, T_DATE, NT };
static const char *const deftype[NT] = {0, "<int>", "<double>", "<string>", "[0-9]", "<file>", "%d"};
static void *mk(int t, const char *so, const char *lo, int mn, int mx) {
    switch (t) {
        case T_LIT: return arg_litn(so, lo, mn, mx, 0);
        case T_INT: return arg_intn(so, lo, 0, mn, mx, 0);
        case T_DBL: {
            struct arg_dbl *d = arg_dbln(so, lo, 0, mn, mx, 0);
            d->dval = dbuf;
            return d;
        }
        case T_STR: return arg_strn(so, lo, 0, mn, mx, 0);
        case T_REX: return arg_rexn(so, lo, "[0-9]", 0, mn, mx, 0, 0);
        case T_FILE: return arg_filen(so, lo, 0, mn, mx, 0);
        default: return arg_daten(so, lo, "%d", 0, mn, mx, 0);
    }
}
static const char *cur_so, *cur_lo;
static const char *prg = "prg";
static void r_p(const char *s) { r_s(prg); r_s(": "); r_s(s); }
static void r_opt(const char *dt) { /* "-a|-b|--long=<type>" */
    if (cur_so)
        r_s("-a|-b");
    if (cur_so && cur_lo)
        r_s("|");
    if (cur_lo)
        r_s("--all");
    if (dt) {
        if (cur_lo)
            r_s("=");
        else if (cur_so)
            r_s(" ");
        r_s(dt);
    }
}
static void r_missing(int t) {
    r_p("missing option ");
    r_opt(deftype[t]);
    r_s(t == T_LIT ? "\n\n" : "\n");
}
static void r_excess(int t, const char *v) {
    if (t == T_LIT) {
        r_p("extraneous option ");
        r_opt(0);
    } else {
        r_p("excess option ");
        r_opt(v);
    }
    r_s("\n");
}
static void r_bad(int t, const char *v) {
    r_p("");
    switch (t) {
        case T_INT:
        case T_DBL:
            r_s("invalid argument \"");
            r_s(v);
            r_s("\" to option ");
            r_opt(deftype[t]);
            break;
        case T_REX:
            r_s("illegal value  ");
            r_opt(v);
            break;
        default:
            r_s("illegal timestamp format \"");
            r_s(v);
            r_s("\"\ncorrect format is \"99.11.31.23.59.59\"");
            break;
    }
    r_s("\n");
}
static void compare(struct arg_end *en) {
    arg_dstr_t ds;
    long live = vf_live;
    vf_fp = &the_stream;
    vf_outlen = 0;
    ds = arg_dstr_create();
    arg_print_errors_ds(ds, en, prg);
    VF("C20", strcmp(arg_dstr_cstr(ds), rb) == 0, "the diagnostics do not describe the recorded errors");
    arg_print_errors(&the_stream, en, prg);
    VF("C20", vf_outlen == rn && memcmp(vf_out, rb, rn) == 0, "printing the errors again prints something else");
    VF("C23", vf_outlen == strlen(arg_dstr_cstr(ds)) && memcmp(vf_out, arg_dstr_cstr(ds), vf_outlen) == 0 && vf_printed == 0,
       "the stream variant of the diagnostics writes a different text");
    arg_dstr_destroy(ds);
    VF("C18", vf_live == live, "printing diagnostics leaves memory behind");
    VF("C26", vf_printed == 0, "printing diagnostics writes to another stream");
}
/* one entry: missing, in excess, malformed */
// VFSC props=C20,C23,C18,C26 defs="-DVF_FAST" shards=4
void sc_diag_types(void) {
    void *tab[2];
    char *argv[6];
    int t = vf_choose(0, NT - 1), names = vf_choose(0, 3), e = vf_choose(0, 3), n = 1, ret;
    struct arg_end *en;
    const char *w1, *w2;
    VF_SHARD(t + names);
    if (t == T_LIT && names == 3)
        names = 0;
    vf_cid = 100 * t + 10 * names + e;
    cur_so = names == 0 || names == 2 ? "ab" : 0;
    cur_lo = names == 1 || names == 2 ? "all" : 0;
    vf_strftime_mode = 1;
    rn = 0;
    rb[0] = 0;
    tab[0] = mk(t, cur_so, cur_lo, e == 0 ? 2 : 0, e == 0 ? 2 : 1);
    tab[1] = en = arg_end(5);
    if (t == T_LIT) {
        w1 = cur_so ? "-a" : "--all";
        w2 = cur_so ? "-b" : "--all";
    } else {
        w1 = cur_so ? "-b7" : cur_lo ? "--all=7" : "7";
        w2 = cur_lo ? "--all=8" : cur_so ? "-a8" : "8";
    }
    argv[0] = "x";
    switch (e) {
        case 0: /* one of two given */
            argv[n++] = (char *)w1;
            r_missing(t);
            break;
        case 1: /* two of one given */
            argv[n++] = (char *)w1;
            argv[n++] = (char *)w2;
            r_excess(t, "8");
            break;
        case 2: /* malformed */
            if (t == T_INT || t == T_DBL || t == T_REX || t == T_DATE) {
                argv[n++] = cur_so ? "-ax" : cur_lo ? "--all=x" : "x";
                r_bad(t, "x");
            }
            break;
        default: /* value missing, or out of range */
            if (t == T_INT && names != 3) {
                argv[n++] = cur_so ? "-a99999999999" : "--all=99999999999";
                r_p("integer overflow at option ");
                r_opt("<int>");
                r_s(" (99999999999 is too large)\n");
            } else if (t != T_LIT && names != 3) {
                argv[n++] = cur_so ? "-b" : "--all";
                r_p("option \"");
                r_s(cur_so ? "-b" : "--all");
                r_s("\" requires an argument\n");
            }
            break;
    }
    argv[n] = 0;
    VF_BEGIN();
    {
        long live = vf_live;
        ret = arg_parse(n, argv, tab);
        VF("C18", vf_live == live, "parsing leaves memory behind");
        VF("C26", vf_printed == 0, "parsing writes to a stream");
    }
    VF("C05", (ret == 0) == (rn == 0), "errors expected and errors reported differ");
    compare(en);
    VF_END();
}
/* offending words, option names and a program name with conversion specifications in them */
// VFSC props=C20,C23,C18,C26 defs="-DVF_FAST" shards=4
void sc_diag_percent(void) {
    static const char *const txt[4] = {"%d", "50%", "%s%n", "%%"};
    static char word[12];
    void *tab[3];
    char *argv[4];
    int t = vf_choose(T_INT, NT), w = vf_choose(0, 3), e = vf_choose(0, 2), ret;
    struct arg_end *en;
    VF_SHARD(t);
    vf_cid = 100 * t + 10 * w + e;
    cur_so = "ab";
    cur_lo = "all";
    vf_strftime_mode = 1;
    rn = 0;
    rb[0] = 0;
    prg = w & 1 ? "p%s" : "prg";
    argv[0] = "x";
    argv[1] = "-a7";
    argv[2] = word;
    argv[3] = 0;
    tab[1] = en = arg_end(5);
    if (t == NT) { /* words the scanner itself refuses */
        tab[0] = arg_litn("7a", 0, 0, 2, 0);
        switch (e) {
            case 0:
                strcpy(word, txt[w]);
                r_p("unexpected argument \"");
                r_s(word);
                break;
            case 1:
                strcpy(word, "--");
                strcat(word, txt[w]);
                r_p("invalid option \"");
                r_s(word);
                break;
            default:
                strcpy(word, "-%");
                r_p("invalid option \"-%");
                break;
        }
        r_s("\"\n");
    } else {
        tab[0] = mk(t, cur_so, cur_lo, 0, e == 0 ? 1 : 2);
        strcpy(word, "-b");
        strcat(word, txt[w]);
        if (e == 0)
            r_excess(t, txt[w]);
        else if (t == T_STR || t == T_FILE)
            ;
        else
            r_bad(t, txt[w]);
    }
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF("C20", (ret == 0) == (rn == 0), "errors expected and errors reported differ");
    compare(en);
    VF_END();
}
static void r_intval(const char *v, int n) {
    if (n) {
        r_p("excess option -i|--in=");
        r_s(v);
        r_s("\n");
    } else {
        r_p("invalid argument \"");
        r_s(v);
        r_s("\" to option -i|--in=N\n");
    }
}
/* several errors: order and completeness, end-entry errors, capacity */
// VFSC props=C20,C23 defs="-DVF_FAST" shards=4
void sc_diag_many(void) {
    static const char *const words[8] = {"-z", "--zap", "pos", "-a", "-i", "--in=q", "--al=v", "-i5"};
    void *tab[4];
    char *argv[5];
    int a = vf_choose(0, 7), b = vf_choose(0, 5), c = vf_choose(2, 3), cap = vf_choose(0, 1);
    int k[3], j, q;
    int na = 0, ni = 0, stored = 0, more = 0;
    struct arg_end *en;
    vf_cid = 1000 * a + 100 * b + 10 * c + cap;
    VF_SHARD(a);
    k[0] = a;
    k[1] = b;
    k[2] = c;
    tab[0] = arg_litn("a", "al", 0, 1, 0);
    tab[1] = arg_intn("i", "in", "N", 1, 1, 0);
    tab[2] = en = arg_end(cap ? 5 : 1);
    argv[0] = "x";
    rn = 0;
    rb[0] = 0;
    cur_so = 0;
    cur_lo = 0;
    /* options first */
    for (j = 0; j < 3; j++) {
        argv[1 + j] = (char *)words[k[j]];
    }
    argv[4] = 0;
    {
        int npos = 0, take = 0;
        for (j = 0; j < 3; j++) {
            int w = k[j], err = 1;
            unsigned at = rn;
            if (take) {
                take = 0;
                r_intval(words[w], ni);
                /* every word used as value here is no number */
            } else
                switch (w) {
                    case 0: r_p("invalid option \"-z\"\n"); break;
                    case 1: r_p("invalid option \"--zap\"\n"); break;
                    case 2: npos++; err = 0; break;
                    case 3:
                        if (na++)
                            r_p("extraneous option -a|--al\n");
                        else
                            err = 0;
                        break;
                    case 4:
                        if (j == 2)
                            r_p("option \"-i\" requires an argument\n");
                        else {
                            take = 1;
                            err = 0;
                        }
                        break;
                    case 5: r_intval("q", ni); break;
                    case 6: r_p("invalid option \"--al=v\"\n"); break;
                    default:
                        ni++;
                        err = 0;
                        break;
                }
            if (err) {
                stored++;
                if (!cap && stored > 1) {
                    rn = at;
                    rb[rn] = 0;
                    more = 1;
                }
            }
        }
        for (j = 0, q = 0; j < npos; j++) {
            unsigned at = rn;
            r_p("unexpected argument \"pos\"\n");
            stored++;
            if (!cap && stored > 1) {
                rn = at;
                rb[rn] = 0;
                more = 1;
            }
        }
    }
    if (ni == 0 && stored == 0) {
        unsigned at = rn;
        r_p("missing option -i|--in=N\n");
        stored++;
        if (!cap && stored > 1) {
            rn = at;
            rb[rn] = 0;
            more = 1;
        }
    }
    if (more) {
        rn = 0;
        rb[0] = 0;
        r_p("too many errors to display\n");
    }
    VF_BEGIN();
    arg_parse(4, argv, tab);
    compare(en);
    VF_END();
}
/* diagnostics for very long words and names stay within their buffers */
// VFSC props=C01,C15 defs="-DVF_FAST" shards=4
void sc_diag_long(void) {
    static char longval[420], word[430], name[230];
    static const int len[6] = {150, 190, 194, 197, 200, 400};
    int t = vf_choose(T_INT, NT - 1), l = vf_choose(0, 5), i, n;
    void *tab[2];
    char *argv[6];
    struct arg_end *en;
    arg_dstr_t ds;
    VF_SHARD(t);
    vf_cid = 10 * t + l;
    n = len[l];
    word[0] = '-';
    word[1] = 'a';
    for (i = 0; i < n; i++)
        word[2 + i] = '7';
    word[2 + n] = 0;
    tab[0] = mk(t, "ab", l & 1 ? 0 : "long", 0, 1);
    tab[1] = en = arg_end(3);
    argv[0] = "x";
    argv[1] = "-a7";
    argv[2] = word;
    argv[3] = 0;
    VF_BEGIN();
    arg_parse(3, argv, tab);
    ds = arg_dstr_create();
    arg_print_errors_ds(ds, en, prg);
    VF("C15", strlen(arg_dstr_cstr(ds)) < 900, "a diagnostic is not terminated");
    arg_dstr_destroy(ds);
    VF_END();
}
/* refused values of many lengths, for every type: the text is shown as it was
 * given */
// VFSC props=C20 defs="-DVF_FAST" shards=7 slevel=60000
void sc_diag_lengths(void) {
    static const int L[9] = {2, 9, 10, 20, 21, 32, 64, 65, 100};
    static char v[110];
    void *tab[2];
    char *argv[6];
    struct arg_end *en;
    int t = vf_choose(T_INT, NT), k = vf_choose(0, 8), e = vf_choose(0, 1), names = vf_choose(0, 1), i, n = L[k], ac = 1, ovf = 0, ret;
    VF_SHARD(t + k);
    if (t == NT) {
        if (e || k < 3)
            vf_stop();
        ovf = 1;
        t = T_INT;
    }
    if (e == 0 && (t == T_STR || t == T_FILE))
        vf_stop();
    vf_cid = 1000 * (t + 10 * ovf) + 10 * k + 2 * e + names;
    cur_so = names ? 0 : "ab";
    cur_lo = names ? "all" : 0;
    vf_strftime_mode = 1;
    rn = 0;
    rb[0] = 0;
    tab[0] = mk(t, cur_so, cur_lo, 0, 1);
    tab[1] = en = arg_end(5);
    for (i = 0; i < n; i++)
        v[i] = ovf ? (char)('1' + i % 9) : (char)('a' + i % 23);
    v[n] = 0;
    argv[0] = "x";
    if (e) {
        argv[ac++] = names ? "--all=7" : "-a7";
        r_excess(t, v);
    } else if (ovf) {
        r_p("integer overflow at option ");
        r_opt(deftype[t]);
        r_s(" (");
        r_s(v);
        r_s(" is too large)\n");
    } else
        r_bad(t, v);
    argv[ac++] = names ? "--all" : "-b";
    argv[ac++] = v;
    argv[ac] = 0;
    VF_BEGIN();
    ret = arg_parse(ac, argv, tab);
    VF("C20", ret == 1, "an error is not found");
    compare(en);
    VF_END();
}
