/* Large instances: many entries, many words, many values, many errors, long
 * words and long names.  One or a few input classes each, so that the sizes
 * can go well past anything the small exhaustive scenarios use; defects that
 * only show from some size on are what these are for. */
#include "vf.h"
#include <string.h>

static char pool[220][16];   /* texts of words */
static char *argv[240];
static int argc;
static void word(char *w) {
    argv[argc++] = w;
    argv[argc] = 0;
}
/* pool[i] = prefix + two letters that differ for every i */
static char *mk(int i, const char *prefix) {
    char *p = pool[i];
    strcpy(p, prefix);
    p += strlen(p);
    *p++ = (char)('a' + i / 15);
    *p++ = (char)('a' + i % 15);
    *p = 0;
    return pool[i];
}

/* ---- a table with 37 entries and a command line with up to 120 words ---- */
#define NLIT 14
#define NSTR 12
#define NINT 6
static char lname[NLIT][8], sname[NSTR][8], iname[NINT][8], lshort[NLIT][2];
static struct arg_lit *lit[NLIT];
static struct arg_str *str[NSTR], *pos;
static struct arg_int *num[NINT];
static struct arg_end *en;
static void *tab[NLIT + NSTR + NINT + 3];
static int ntab;
static void two(char *b, const char *p, int i) {
    strcpy(b, p);
    b += strlen(b);
    b[0] = (char)('a' + i % 5);
    b[1] = (char)('a' + i / 5);
    b[2] = 0;
}
static void mk_table(int cap, int npos) {
    int i;
    ntab = 0;
    for (i = 0; i < NLIT; i++) {
        two(lname[i], "sw", i);
        lshort[i][0] = (char)('A' + i);
        lshort[i][1] = 0;
        tab[ntab++] = lit[i] = arg_litn(lshort[i], lname[i], 0, 3, "g");
    }
    for (i = 0; i < NSTR; i++) {
        two(sname[i], "val", i);
        tab[ntab++] = str[i] = arg_strn(0, sname[i], 0, 0, 3, "g");
    }
    for (i = 0; i < NINT; i++) {
        two(iname[i], "num", i);
        tab[ntab++] = num[i] = arg_intn(0, iname[i], 0, 0, 2, "g");
    }
    tab[ntab++] = arg_rem("r", "g");
    tab[ntab++] = pos = arg_strn(0, 0, 0, 0, npos, "g");
    tab[ntab++] = en = arg_end(cap);
    argc = 0;
    word("prog");
}
static char eqs[NSTR][20], opt[NLIT + NSTR + NINT][16];
static char *dash(int i, const char *name) {
    strcpy(opt[i], "--");
    strcat(opt[i], name);
    return opt[i];
}
// VFSC props=C01,C03,C04,C05,C06,C08,C18,C26 defs="-DVF_FAST" slevel=300000 shards=4
void sc_big_line(void) {
    static char *kept[240];
    static const char *expos[60];
    int v = vf_choose(0, 3), i, npos = 0, ret, p = 0, n;
    long live;
    VF_SHARD(v);
    vf_cid = v;
    mk_table(30, 60);
    switch (v) {
        case 0: /* in table order, positional words between the options */
            for (i = 0; i < NLIT; i++) {
                word(dash(i, lname[i]));
                if (i % 3 == 0)
                    word((char *)(expos[npos++] = mk(p++, "w")));
            }
            for (i = 0; i < NSTR; i++) {
                word(dash(NLIT + i, sname[i]));
                word(mk(150 + i, "v"));
                if (i % 2)
                    word((char *)(expos[npos++] = mk(p++, "w")));
            }
            for (i = 0; i < NINT; i++) {
                word(dash(NLIT + NSTR + i, iname[i]));
                word("12");
            }
            break;
        case 1: /* backwards, 30 positional words first, values glued with '=' */
            for (i = 0; i < 30; i++)
                word((char *)(expos[npos++] = mk(p++, "w")));
            for (i = NINT - 1; i >= 0; i--) {
                word(dash(NLIT + NSTR + i, iname[i]));
                word("12");
            }
            for (i = NSTR - 1; i >= 0; i--) {
                strcpy(eqs[i], "--");
                strcat(eqs[i], sname[i]);
                strcat(eqs[i], "=val");
                word(eqs[i]);
            }
            for (i = 0; i < 15; i++)
                word((char *)(expos[npos++] = mk(p++, "w")));
            for (i = NLIT - 1; i >= 0; i--)
                word(dash(i, lname[i]));
            word((char *)(expos[npos++] = mk(p++, "w")));
            break;
        case 2: /* one long cluster, every word separated by a positional one */
            word((char *)(expos[npos++] = mk(p++, "w")));
            word("-ABCDEFGHIJKLMN");
            word((char *)(expos[npos++] = mk(p++, "w")));
            for (i = 0; i < NSTR; i++) {
                word(dash(NLIT + i, sname[i]));
                word(mk(150 + i, "v"));
                word((char *)(expos[npos++] = mk(p++, "w")));
            }
            for (i = 0; i < NINT; i++) {
                word(dash(NLIT + NSTR + i, iname[i]));
                word("12");
                word((char *)(expos[npos++] = mk(p++, "w")));
            }
            break;
        default: /* 20 words, "--", 40 words that look like options */
            for (i = 0; i < NLIT; i++)
                word(dash(i, lname[i]));
            for (i = 0; i < NINT; i++) {
                word(dash(NLIT + NSTR + i, iname[i]));
                word("12");
            }
            for (i = 0; i < 20; i++)
                word((char *)(expos[npos++] = mk(p++, "w")));
            for (i = 0; i < NSTR; i++) {
                word(dash(NLIT + i, sname[i]));
                word(mk(150 + i, "v"));
            }
            word("--");
            for (i = 0; i < 40; i++)
                word((char *)(expos[npos++] = mk(p++, "--w")));
    }
    n = argc;
    for (i = 0; i <= n; i++)
        kept[i] = argv[i];
    live = vf_live;
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF("C05", ret == 0 && en->count == 0, "a long correct command line is refused");
    VF("C18", vf_live == live, "parsing a long command line leaves memory behind");
    VF("C26", vf_printed == 0, "parsing a long command line prints");
    for (i = 0; i <= n; i++)
        VF("C08", argv[i] == kept[i], "the caller's vector is rearranged");
    for (i = 0; i < NLIT; i++)
        VF("C06", lit[i]->count == 1, "an option of a long command line is lost or counted twice");
    for (i = 0; i < NSTR; i++)
        VF("C06", str[i]->count == 1 && str[i]->sval[0] == (v == 1 ? eqs[i] + 8 : pool[150 + i]), "an option value of a long command line is lost or misplaced");
    for (i = 0; i < NINT; i++)
        VF("C06", num[i]->count == 1 && num[i]->ival[0] == 12, "an integer of a long command line is lost or misplaced");
    VF("C06", pos->count == npos, "positional words of a long command line are lost");
    for (i = 0; i < npos; i++)
        VF("C06", pos->sval[i] == expos[i], "positional words of a long command line are lost or reordered");
    VF("C04", ret == 0, "a long correct command line is refused");
    VF("C03", pos->count <= 60, "an entry holds more than its maximum");
    arg_freetable(tab, (size_t)ntab);
    VF("C18", vf_live == 0, "releasing a large table leaves memory behind");
    VF_END();
}

/* ---- many errors ---- */
// VFSC props=C01,C05,C20 defs="-DVF_FAST" slevel=300000 shards=4
void sc_big_errors(void) {
    static const int caps[6] = {20, 29, 30, 31, 35, 64};
    static const char prg[] = "p";
    int c = vf_choose(0, 5), i, n = 30, ret, k;
    VF_SHARD(c);
    vf_cid = caps[c];
    mk_table(caps[c], 1);
    word(mk(0, "w"));
    for (i = 0; i < 10; i++)
        word(mk(1 + i, "--q"));
    for (i = 0; i < 10; i++)
        word(i & 1 ? "-z" : "-y");
    for (i = 0; i < 10; i++)
        word(mk(20 + i, "e"));
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    k = caps[c] < n ? caps[c] : n;
    VF("C05", ret == k && en->count == k, "the number of errors is wrong when there are many");
    for (i = 0; i < k; i++) {
        if (caps[c] < n && i == caps[c] - 1)
            VF("C05", en->error[i] == ARG_ELIMIT && en->parent[i] == en && en->argval[i] == 0, "the error list does not end with the limit mark");
        else if (i < 10)
            VF("C05", en->error[i] == ARG_ELONGOPT && en->parent[i] == en && en->argval[i] == pool[1 + i], "an unknown long option is recorded wrongly");
        else if (i < 20)
            VF("C05", en->error[i] == (i & 1 ? 'z' : 'y') && en->parent[i] == en, "an unknown short option is recorded wrongly");
        else if (i == 20) /* offered to the full entry */
            VF("C05", en->error[i] == ARG_ERR_MAXCOUNT && en->parent[i] == pos && en->argval[i] == pool[20], "an excess word is recorded wrongly");
        else
            VF("C05", en->error[i] == ARG_ENOMATCH && en->parent[i] == en && en->argval[i] == pool[i], "an unused word is recorded wrongly");
    }
    if (c < 4) {
        arg_dstr_t ds = arg_dstr_create();
        const char *s;
        int lines = 0, len;
        arg_print_errors_ds(ds, en, prg);
        s = arg_dstr_cstr(ds);
        len = (int)strlen(s);
        for (i = 0; i < len; i++)
            if (s[i] == '\n')
                lines++;
        VF("C20", lines == k && len > 0 && s[len - 1] == '\n', "many errors are not printed one per line");
        VF("C20", strstr(s, "p: invalid option \"--qab\"\n") == s, "the first of many errors is not printed first");
    }
    VF_END();
}

/* ---- many values for one entry ---- */
// VFSC props=C01,C03,C04,C05,C07,C18 defs="-DVF_FAST" slevel=300000 shards=8
void sc_big_counts(void) {
    int t = vf_choose(0, 3), d = vf_choose(0, 3), i, n, ret, exp;
    static void *tb[2];
    struct arg_lit *l;
    struct arg_str *s;
    struct arg_file *f;
    struct arg_int *m;
    int count;
    long live;
    VF_SHARD(t * 2 + d / 2);
    vf_cid = 10 * t + d;
    n = d == 0 ? 32 : d == 1 ? 39 : d == 2 ? 40 : 42; /* limits 33..40 */
    switch (t) {
        case 0: tb[0] = l = arg_litn("l", 0, 33, 40, 0); break;
        case 1: tb[0] = s = arg_strn("l", 0, 0, 33, 40, 0); break;
        case 2: tb[0] = f = arg_filen(0, 0, 0, 33, 40, 0); break;
        default: tb[0] = m = arg_intn(0, "l", 0, 33, 40, 0); break;
    }
    tb[1] = en = arg_end(50);
    argc = 0;
    word("prog");
    for (i = 0; i < n; i++)
        word(t == 0 ? "-l" : t == 1 ? mk(i, "-l") : t == 2 ? mk(i, "f/b.") : i & 1 ? "--l=3" : "--l=44");
    live = vf_live;
    exp = n < 33 ? 1 : n <= 40 ? 0 : n - 40;
    VF_BEGIN();
    ret = arg_parse(argc, argv, tb);
    ret = arg_parse(argc, argv, tb); /* and once more: nothing is left from the first time */
    VF("C05", ret == exp, "the number of errors is wrong for many values");
    VF("C04", (ret == 0) == (n >= 33 && n <= 40), "limits are not enforced for many values");
    VF("C18", vf_live == live, "parsing many values leaves memory behind");
    count = n < 40 ? n : 40;
    switch (t) {
        case 0: VF("C03", l->count == count, "a count is wrong"); break;
        case 1:
            VF("C03", s->count == count, "a count is wrong");
            for (i = 0; i < count; i++)
                VF("C07", s->sval[i] == pool[i] + 2, "one of many values is wrong");
            break;
        case 2:
            VF("C03", f->count == count, "a count is wrong");
            for (i = 0; i < count; i++)
                VF("C07", f->filename[i] == pool[i] && f->basename[i] == pool[i] + 2 && f->extension[i] == pool[i] + 3, "one of many values is wrong");
            break;
        default:
            VF("C03", m->count == count, "a count is wrong");
            for (i = 0; i < count; i++)
                VF("C07", m->ival[i] == (i & 1 ? 3 : 44), "one of many values is wrong");
    }
    if (ret == 1)
        VF("C05", en->error[0] == ARG_ERR_MINCOUNT && en->parent[0] == tb[0], "too few values are recorded wrongly");
    VF_END();
}

/* ---- long words: the last but one character is arbitrary ---- */
static char lw[4][640];
static void fill(char *p, int n) {
    int i;
    for (i = 0; i < n; i++)
        p[i] = (char)('a' + i % 23);
    p[n - 2] = vf_anychar();
    p[n] = 0;
}
// VFSC props=C01,C02,C06,C08 slevel=300000 shards=7
void sc_long_word(void) {
    static const int L[7] = {31, 63, 64, 100, 128, 255, 600};
    static void *tb[5];
    struct arg_str *s, *p;
    struct arg_file *f;
    int k = vf_choose(0, 6), ret;
    VF_SHARD(k);
    vf_cid = k;
    tb[0] = s = arg_strn("s", "string", 0, 0, 3, 0);
    tb[1] = f = arg_filen("f", 0, 0, 0, 1, 0);
    tb[2] = p = arg_strn(0, 0, 0, 0, 2, 0);
    tb[3] = en = arg_end(5);
    strcpy(lw[0], "--string=");
    fill(lw[0] + 9, L[k]);
    strcpy(lw[1], "-s");
    fill(lw[1] + 2, L[k]);
    fill(lw[2], L[k]);
    strcpy(lw[3], "x");
    fill(lw[3] + 1, L[k]);
    lw[3][L[k] - 1] = 'q'; /* what arbitrary file names give is C13's */
    argc = 0;
    word("prog");
    word(lw[0]);
    word(lw[1]);
    word("-f");
    word(lw[3]);
    word("-s");
    word(lw[2]);
    word(lw[3]);
    VF_BEGIN();
    ret = arg_parse(argc, argv, tb);
    VF("C06", ret == 0, "a long word is refused");
    VF("C06", s->count == 3 && s->sval[0] == lw[0] + 9 && s->sval[1] == lw[1] + 2 && s->sval[2] == lw[2], "a long value is lost or cut");
    VF("C06", p->count == 1 && p->sval[0] == lw[3] && f->count == 1 && f->filename[0] == lw[3], "a long word is lost or cut");
    VF("C08", argv[1] == lw[0] && lw[0][8] == '=' && lw[0][0] == '-' && lw[1][1] == 's' && lw[3][0] == 'x' && lw[0][9 + L[k]] == 0, "a long word is changed");
    VF_END();
}
/* ---- long names ---- */
// VFSC props=C01,C24 slevel=300000 shards=6
void sc_long_name(void) {
    static const int L[6] = {20, 33, 64, 100, 199, 300};
    static char n1[640], w[320], n2[320];
    static void *tb[4];
    struct arg_lit *a, *b;
    int k = vf_choose(0, 5), v = vf_choose(0, 4), i, n, ret;
    VF_SHARD(k);
    vf_cid = 10 * k + v;
    n = L[k];
    for (i = 0; i < n; i++)
        n1[i] = n2[i] = (char)('a' + i % 7);
    n1[n] = n2[n] = 0;
    n2[n - 1] = 'z';            /* differs in the last letter only */
    n1[n] = ',';
    n1[n + 1] = 'q';
    n1[n + 2] = 0;
    tb[0] = arg_strn(0, "other", 0, 0, 1, 0);
    tb[1] = a = arg_litn(0, n1, 0, 2, 0);
    tb[2] = b = arg_litn(0, n2, 0, 2, 0);
    tb[3] = en = arg_end(5);
    strcpy(w, "--");
    for (i = 0; i < n; i++)
        w[i + 2] = n1[i];
    w[n + 2] = 0;
    if (v == 1)
        w[n + 1] = 'z';
    if (v == 2)
        w[n + 1] = 0;           /* common beginning: ambiguous */
    if (v == 3)
        w[n + 1] = 'y';         /* neither */
    if (v == 4) {
        w[n + 2] = 'x';         /* longer than both */
        w[n + 3] = 0;
    }
    argc = 0;
    word("prog");
    word(w);
    VF_BEGIN();
    ret = arg_parse(argc, argv, tb);
    VF("C24", ret == (v >= 2), "a long option name is matched wrongly");
    VF("C24", a->count == (v == 0) && b->count == (v == 1), "a long option name is taken for another");
    if (v >= 2)
        VF("C24", en->error[0] == ARG_ELONGOPT && en->argval[0] == w, "a long name that does not match is reported wrongly");
    VF_END();
}

/* ---- long numbers, dates, patterns, paths ---- */
// VFSC props=C09 slevel=300000
void sc_long_int(void) {
    static char w[200];
    static const int L[4] = {12, 25, 70, 150};
    struct arg_int *e;
    int k = vf_choose(0, 3), v = vf_choose(0, 6), i, n = 0, r;
    vf_cid = 10 * k + v;
    if (v == 1)
        for (; n < L[k]; n++)
            w[n] = ' ';
    if (v == 2)
        w[n++] = '-';
    if (v >= 4) {
        w[n++] = '0';
        w[n++] = v == 4 ? 'x' : v == 5 ? 'o' : 'b';
    }
    if (v != 1 && v != 3)
        for (i = 0; i < L[k]; i++)
            w[n++] = '0';
    w[n++] = '1';
    w[n++] = '1';
    if (v == 3) {
        w[n++] = 'K';
        w[n++] = 'B';
        for (i = 0; i < L[k]; i++)
            w[n++] = ' ';
    }
    w[n] = 0;
    e = arg_intn("n", 0, 0, 0, 2, 0);
    VF_BEGIN();
    r = e->hdr.scanfn(e, w);
    VF("C09", r == 0 && e->count == 1, "a number with many digits or blanks is refused");
    VF("C09", e->ival[0] == (v == 2 ? -11 : v == 3 ? 11264 : v == 4 ? 17 : v == 5 ? 9 : v == 6 ? 3 : 11), "a number with many digits has the wrong value");
    w[n] = 'x';
    w[n + 1] = 0;
    r = e->hdr.scanfn(e, w);
    VF("C09", r == ARG_ERR_BADINT && e->count == 1, "a long text that is no number is accepted");
    VF_END();
}
// VFSC props=C10 slevel=300000
void sc_long_dbl(void) {
    static double db[2];
    static char w[200];
    static const int L[3] = {12, 60, 150};
    struct arg_dbl *e;
    int k = vf_choose(0, 2), v = vf_choose(0, 3), i, n = 0, r;
    vf_cid = 10 * k + v;
    if (v == 1)
        for (; n < L[k]; n++)
            w[n] = ' ';
    if (v == 2)
        for (; n < L[k]; n++)
            w[n] = '0';
    w[n++] = '1';
    w[n++] = '.';
    w[n++] = '5';
    if (v == 3)
        for (i = 0; i < L[k]; i++)
            w[n++] = '0';
    w[n] = 0;
    e = arg_dbln("n", 0, 0, 0, 2, 0);
    e->dval = db;
    VF_BEGIN();
    r = e->hdr.scanfn(e, w);
    VF("C10", r == 0 && e->count == 1 && e->dval[0] == 1.5, "a number with many digits or blanks is refused or wrong");
    w[n] = 'x';
    w[n + 1] = 0;
    r = e->hdr.scanfn(e, w);
    VF("C10", r == ARG_ERR_BADDOUBLE && e->count == 1, "a long text that is no number is accepted");
    VF_END();
}
// VFSC props=C13 slevel=300000 shards=4
void sc_long_path(void) {
    static char w[700];
    static const int L[4] = {40, 130, 257, 520};
    struct arg_file *e;
    int k = vf_choose(0, 3), v = vf_choose(0, 3), i, n, r;
    VF_SHARD(k);
    vf_cid = 10 * k + v;
    n = L[k];
    for (i = 0; i < n; i++) {
        char c = vf_anychar();
        if (c == '/' || c == '.')
            c = 'x';
        w[i] = c;
    }
    if (v == 0) { /* a deep path with dots in its directories */
        for (i = 5; i < n - 20; i += 9)
            w[i] = i & 1 ? '/' : '.';
        w[n - 12] = '/';
        w[n - 4] = '.';
    }
    if (v == 1) /* separator far in front */
        w[3] = '/';
    if (v == 2) /* dot far in front */
        w[3] = '.';
    if (v == 3) { /* many dots */
        for (i = 2; i < n - 1; i += 3)
            w[i] = '.';
        w[n - 1] = 'q';
        w[n - 2] = 'q';
        w[n - 3] = '.';
    }
    w[n] = 0;
    e = arg_filen(0, 0, 0, 0, 1, 0);
    VF_BEGIN();
    r = e->hdr.scanfn(e, w);
    VF("C13", r == 0 && e->count == 1 && e->filename[0] == w, "a long file name is refused");
    VF("C13", e->basename[0] == (v == 0 ? w + n - 11 : v == 1 ? w + 4 : w), "the base name of a long path is wrong");
    VF("C13", e->extension[0] == (v == 0 ? w + n - 4 : v == 1 ? w + n : v == 2 ? w + 3 : w + n - 3), "the extension of a long path is wrong");
    VF_END();
}
// VFSC props=C12 slevel=300000 shards=4
void sc_long_rex(void) {
    static char w[330], pt[330];
    static const int L[4] = {9, 14, 20, 28};
    struct arg_rex *e;
    int k = vf_choose(0, 3), v = vf_choose(0, 4), i, n, m = 0, r, want = 1;
    VF_SHARD(k);
    vf_cid = 10 * k + v;
    n = L[k];
    for (i = 0; i < n; i++)
        w[i] = 'a';
    w[n] = 0;
    switch (v) {
        case 0: strcpy(pt, "a+"); break;
        case 1: strcpy(pt, "[^b]*c"); w[n - 1] = 'c'; break;
        case 2: strcpy(pt, "a*"); w[n - 1] = 'b'; want = 0; break;
        case 3: /* a set with many members */
            pt[m++] = '[';
            for (i = 0; i < n; i++)
                pt[m++] = (char)('b' + i % 20);
            pt[m++] = 'a';
            pt[m++] = ']';
            pt[m++] = '+';
            pt[m] = 0;
            break;
        default: /* a long literal pattern */
            for (i = 0; i < n; i++)
                pt[m++] = 'a';
            pt[m] = 0;
    }
    e = arg_rexn(0, 0, pt, 0, 0, 1, 0, 0);
    VF_BEGIN();
    r = e->hdr.scanfn(e, w);
    VF("C12", r == (want ? 0 : ARG_ERR_REGNOMATCH) && e->count == want, "a long text is matched wrongly");
    if (want)
        VF("C12", e->sval[0] == w, "the matched text is not kept");
    VF_END();
}
/* ---- sort of many elements ---- */
static int cmp_int(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
// VFSC props=C21 defs="-DVF_FAST" slevel=300000 shards=4
void sc_sort_many(void) {
    static const int N[8] = {6, 7, 8, 12, 17, 25, 33, 40};
    static int a[42], seen[64];
    int k = vf_choose(0, 7), v = vf_choose(0, 4), i, n;
    VF_SHARD(k);
    vf_cid = 10 * k + v;
    n = N[k];
    for (i = 0; i < 64; i++)
        seen[i] = 0;
    for (i = 0; i < n; i++) {
        a[i + 1] = v == 0 ? i : v == 1 ? n - i : v == 2 ? (i * 7) % n : v == 3 ? (i * 5) % 3 : (i & 1 ? i : 40 - i);
        seen[a[i + 1]]++;
    }
    a[0] = 99;
    a[n + 1] = -99;
    VF_BEGIN();
    arg_mgsort(a, n + 2, sizeof(int), 1, n, cmp_int);
    for (i = 1; i < n; i++)
        VF("C21", a[i] <= a[i + 1], "many elements come out unsorted");
    for (i = 1; i <= n; i++)
        seen[a[i]]--;
    for (i = 0; i < 64; i++)
        VF("C21", seen[i] == 0, "many elements do not come out as a permutation");
    VF("C21", a[0] == 99 && a[n + 1] == -99 && vf_live == 0, "elements outside the range are touched, or memory is left");
    VF_END();
}
/* ---- release and check of a large table ---- */
// VFSC props=C25,C18 defs="-DVF_FAST" slevel=300000
void sc_table_many(void) {
    static void *tb[41];
    int hole = vf_choose(0, 4), free_kind = vf_choose(0, 1), i, h;
    h = hole == 0 ? -1 : hole == 1 ? 0 : hole == 2 ? 17 : hole == 3 ? 38 : 39; /* 39 is the end entry */
    vf_cid = 10 * hole + free_kind;
    for (i = 0; i < 39; i++)
        tb[i] = i == h ? 0 : i % 3 == 0 ? (void *)arg_litn("a", 0, 0, 1, 0) : i % 3 == 1 ? (void *)arg_strn(0, "b", 0, 0, 3, 0) : (void *)arg_rem("x", 0);
    tb[39] = h == 39 ? 0 : (void *)arg_end(20);
    tb[40] = 0;
    VF_BEGIN();
    VF("C25", (arg_nullcheck(tb) != 0) == (h >= 0), "a missing entry of a large table is overlooked, or seen where none is");
    if (free_kind == 0 || h >= 0)
        arg_freetable(tb, 40);
    else
        arg_free(tb);
    for (i = 0; i < 40; i++)
        VF("C25", tb[i] == 0, "an entry of a large table is not cleared");
    VF("C25", vf_live == 0, "an entry of a large table is not released");
    VF("C18", vf_live == 0, "an entry of a large table is not released");
    VF_END();
}
