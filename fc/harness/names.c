/* Long and short option names: every small set of names, every word. */
#include "vf.h"
#include <string.h>

/* name lists an entry can have, and the names in them */
#define NL 7
static const char *const list[NL] = {"ab", "abc", "abd", "ab,bb", "abcd,abce", "b", "abc,ab"};
static const char *const nm[NL][2] = {{"ab", 0}, {"abc", 0}, {"abd", 0}, {"ab", "bb"}, {"abcd", "abce"}, {"b", 0}, {"abc", "ab"}};
#define NW 13
static const char *const word[NW] = {"--a", "--ab", "--abc", "--abd", "--abce", "--abcde", "--b", "--bb", "--c", "--ab=7", "--abc=", "--b=7", "--=7"};
static const int wlen[NW] = {1, 2, 3, 3, 4, 5, 1, 2, 1, 2, 3, 1, 0};
enum { LIT, INT, OPT };

static void *mk(int kind, const char *names) {
    struct arg_str *s;
    switch (kind) {
        case LIT: return arg_litn(0, names, 0, 3, 0);
        case INT: return arg_intn(0, names, 0, 0, 3, 0);
        default:
            s = arg_strn(0, names, 0, 0, 3, 0);
            s->hdr.flag |= ARG_HASOPTVALUE;
            return s;
    }
}
static int count(int kind, void *p) { return kind == LIT ? ((struct arg_lit *)p)->count : kind == INT ? ((struct arg_int *)p)->count : ((struct arg_str *)p)->count; }

static void longname(const int *l, const int *kind, int n, int w) {
    void *tab[4];
    struct arg_end *en;
    char *argv[4];
    const char *key = word[w] + 2, *val = 0;
    int i, j, exact = -1, part = -1, ambig = 0, hit, ret, len = wlen[w], nargs;
    for (i = 0; i < n; i++)
        tab[i] = mk(kind[i], list[l[i]]);
    tab[n] = en = arg_end(4);
    argv[0] = "p";
    argv[1] = (char *)word[w];
    argv[2] = "7";
    argv[3] = 0;
    if (key[len] == '=')
        val = key + len + 1;
    for (i = 0; i < n; i++)
        for (j = 0; j < 2; j++) {
            const char *x = nm[l[i]][j];
            if (!x || strncmp(x, key, (size_t)len) != 0)
                continue;
            if (x[len] == 0) {
                if (exact < 0)
                    exact = i;
            } else if (part < 0)
                part = i;
            else if (part != i)
                ambig = 1;
        }
    hit = exact >= 0 ? exact : ambig ? -1 : part;
    if (hit >= 0 && kind[hit] == LIT && val)
        hit = -1; /* takes no value */
    /* the word after it is its value only if it needs one and has none */
    nargs = hit >= 0 && kind[hit] == INT && !val ? 3 : 2;
    VF_BEGIN();
    ret = arg_parse(nargs, argv, tab);
    VF_END();
    if (hit < 0) {
        VF("C24", ret == 1 && en->error[0] == ARG_ELONGOPT && en->parent[0] == en && en->argval[0] == argv[1], "an unknown, ambiguous or misused long option name is not reported as such");
        for (i = 0; i < n; i++)
            VF("C24", count(kind[i], tab[i]) == 0, "an unknown, ambiguous or misused long option name selects an option");
        return;
    }
    if (kind[hit] == OPT && val && !*val) {
        VF("C24", count(OPT, tab[hit]) == 1, "an option with an empty optional value is not counted");
    } else if (kind[hit] == INT && val && !*val) {
        VF("C24", ret == 2 && en->error[0] == ARG_EMISSARG && count(INT, tab[hit]) == 0, "an empty value for an option that needs one is not reported");
    } else {
        VF("C24", ret == 0, "a full or unambiguous long option name is refused");
        VF("C24", count(kind[hit], tab[hit]) == 1, "a full or unambiguous long option name does not select its option");
        if (kind[hit] == INT)
            VF("C24", ((struct arg_int *)tab[hit])->ival[0] == 7, "the value of a long option is not the one given");
        if (kind[hit] == OPT && val)
            VF("C24", ((struct arg_str *)tab[hit])->sval[0] == val, "the value of a long option is not the one given");
        if (kind[hit] == OPT && !val)
            VF("C24", ((struct arg_str *)tab[hit])->sval[0][0] == 0, "a long option without its optional value has one");
    }
    for (i = 0; i < n; i++)
        if (i != hit)
            VF("C24", count(kind[i], tab[i]) == 0, "a long option name selects another option, too");
}
// VFSC props=C24 shards=8
void sc_name_two(void) {
    int l[3], k[3], w;
    l[0] = vf_choose(0, NL - 1);
    l[1] = vf_choose(0, NL - 1);
    w = vf_choose(0, NW - 1);
    VF_SHARD(w);
    k[0] = vf_choose(0, 2);
    k[1] = vf_choose(0, 1);
    if (k[1]) {
        if (l[0] > 3 || l[1] > 3 || k[0] == OPT)
            vf_stop();
        k[1] = k[0] + 1;
    } else if (k[0] == OPT && l[0] > 2)
        vf_stop();
    else
        k[1] = k[0];
    vf_cid = l[0] * 10000 + l[1] * 1000 + w * 10 + k[0] * 3 + (k[1] == k[0]);
    longname(l, k, 2, w);
}
/* three entries of one kind: the full name after two names it abbreviates,
 * abbreviations common to the first and the third, ... */
// VFSC props=C24 shards=8
void sc_name_three(void) {
    int l[3], k[3], w;
    l[0] = vf_choose(0, NL - 1);
    l[1] = vf_choose(0, NL - 1);
    l[2] = vf_choose(0, NL - 1);
    VF_SHARD(l[2] + l[1]);
    w = vf_choose(0, 3);
    if (w == 3)
        w = 7;
    k[0] = k[1] = k[2] = LIT;
    vf_cid = l[0] * 10000 + l[1] * 1000 + l[2] * 100 + w;
    longname(l, k, 3, w);
}

/* short options: clusters of three letters over entries that take no, an
 * optional or a mandatory value; the same letter in two entries */
// VFSC props=C24,C06 shards=5
void sc_name_short(void) {
    static const char let[7] = {'a', 'b', 'c', 'd', '9', 'z', 0};
    struct arg_lit *x, *y;
    struct arg_str *o, *r;
    struct arg_end *en;
    void *tab[5];
    char w[6];
    char *argv[4];
    int i = vf_choose(0, 5), j = vf_choose(0, 6), k = vf_choose(0, 6), ret, p, nx = 0, ny = 0, no = 0, nr = 0, ne = 0;
    const char *vo = 0, *vr = 0;
    char t[3];
    VF_SHARD(k);
    if (j == 6)
        k = 6;
    vf_cid = 100 * i + 10 * j + k;
    tab[0] = x = arg_litn("a9", 0, 0, 5, 0);
    tab[1] = y = arg_litn("ba", "b", 0, 5, 0);
    tab[2] = o = arg_strn("c", 0, 0, 0, 5, 0);
    o->hdr.flag |= ARG_HASOPTVALUE;
    tab[3] = r = arg_strn("d", 0, 0, 0, 5, 0);
    tab[4] = en = arg_end(4);
    w[0] = '-';
    t[0] = w[1] = let[i];
    t[1] = w[2] = let[j];
    t[2] = w[3] = let[k];
    w[4] = 0;
    argv[0] = "p";
    argv[1] = w;
    argv[2] = "-b";
    argv[3] = 0;
    for (p = 0; p < 3 && t[p]; p++) {
        if (t[p] == 'a' || t[p] == '9')
            nx++;
        else if (t[p] == 'b')
            ny++;
        else if (t[p] == 'c') {
            no++;
            vo = p < 2 && t[p + 1] ? w + p + 2 : "";
            break;
        } else if (t[p] == 'd') {
            nr++;
            vr = p < 2 && t[p + 1] ? w + p + 2 : argv[2];
            break;
        } else
            ne++;
    }
    if (vr != argv[2])
        ny++; /* "-b" is an option of its own */
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    VF("C24", ret == ne, "known short options are refused or unknown ones accepted");
    for (p = 0; p < 3; p++)
        if (p < ne)
            VF("C24", en->error[p] == 'z' && en->parent[p] == en, "an unknown short option is not reported as such");
    VF("C24", x->count == nx && y->count == ny, "short options of a cluster are lost, invented or given to another entry");
    VF("C24", o->count == no && r->count == nr, "short options with a value are lost, invented or given to another entry");
    if (nr)
        VF("C24", r->sval[0] == vr, "a short option's value is neither the rest of its word nor the next word");
    if (no)
        VF("C24", *vo ? o->sval[0] == vo : o->sval[0][0] == 0, "a short option's optional value is not the rest of its word");
    VF("C06", x->count + y->count + o->count + r->count + ret == nx + ny + no + nr + ne, "a word is lost or used twice");
}

/* every character as a short option, and as one that no entry has */
// VFSC props=C24,C05,C20,C01 defs="-DVF_FAST" shards=8
void sc_short_every(void) {
    static char so[2], w1[4], w2[3];
    static void *tb[3];
    static char *av[5];
    int c = vf_choose(-128, 127), kind = vf_choose(0, 3), ret, ac = 1, n;
    struct arg_lit *l;
    struct arg_str *s;
    struct arg_end *e;
    VF_SHARD(c + 128);
    vf_cid = 10 * (c & 255) + kind;
    if (c == 0 || c == -1 || c == ':' || c == '-')
        return; /* NUL, and what the option syntax and the scanner reserve */
    so[0] = (char)c;
    so[1] = 0;
    w1[0] = w2[0] = '-';
    w1[1] = w2[1] = (char)c;
    w1[2] = 'v';
    w1[3] = w2[2] = 0;
    l = 0;
    s = 0;
    if (kind == 0)
        tb[0] = l = arg_litn(so, 0, 0, 2, 0);
    else if (kind < 3) {
        tb[0] = s = arg_strn(so, 0, 0, 0, 3, 0);
        if (kind == 2)
            s->hdr.flag |= ARG_HASOPTVALUE;
    } else
        tb[0] = l = arg_litn(c == 'x' ? "y" : "x", 0, 0, 2, 0);
    tb[1] = e = arg_end(4);
    av[0] = "prog";
    if (kind == 1 || kind == 2)
        av[ac++] = w1;
    av[ac++] = w2;
    if (kind == 1)
        av[ac++] = "val";
    av[ac] = 0;
    VF_BEGIN();
    ret = arg_parse(ac, av, tb);
    switch (kind) {
        case 0: VF("C24", ret == 0 && l->count == 1, "a short option is not recognised"); break;
        case 1: VF("C24", ret == 0 && s->count == 2 && s->sval[0] == w1 + 2 && s->sval[1] == av[3], "a short option or its value is not recognised"); break;
        case 2: VF("C24", ret == 0 && s->count == 2 && s->sval[0] == w1 + 2, "a short option with an optional value is not recognised"); break;
        default: {
            static const char pn[] = "p";
            arg_dstr_t ds = arg_dstr_create();
            VF("C24", ret == 1 && l->count == 0, "an unknown short option is not refused");
            VF("C05", ret == 1 && (char)e->error[0] == (char)c && e->parent[0] == e && e->argval[0] == 0, "an unknown short option is recorded wrongly");
            arg_print_errors_ds(ds, e, pn);
            n = (int)strlen(arg_dstr_cstr(ds));
            VF("C20", n == 23 && memcmp(arg_dstr_cstr(ds), "p: invalid option \"-", 20) == 0 && arg_dstr_cstr(ds)[20] == (char)c && arg_dstr_cstr(ds)[21] == '"' && arg_dstr_cstr(ds)[22] == '\n',
               "an unknown short option is printed as another error");
        }
    }
    VF_END();
}

/* names with marks and digits in them, abbreviated in front of, at and behind
 * the mark, with and without a value in the same word */
#define ND 12
static const char *const dl[ND] = {"foo", "foo-bar", "foo-baz", "foo_x", "foo.y", "foo1", "foo-bar-z", "f-o", "-oo", "foo-", "no-foo", "f"};
// VFSC props=C24 defs="-DVF_FAST" shards=8 slevel=60000
void sc_name_marks(void) {
    static const char *const key[16] = {"f", "fo", "foo", "foo-", "foo-b", "foo-ba", "foo-bar", "foo-bar-", "foo_", "foo.", "foo1", "f-", "-", "no", "no-f", "foo-baz"};
    static const int klen[16] = {1, 2, 3, 4, 5, 6, 7, 8, 4, 4, 4, 2, 1, 2, 4, 7};
    static const int sets[10][3] = {{1, 2, 0}, {1, 2, 3}, {0, 1, 2}, {6, 1, 2}, {3, 4, 5}, {7, 0, 11}, {8, 1, 10}, {9, 1, 0}, {10, 0, 5}, {1, 6, 9}};
    static char w[16];
    void *tab[5];
    struct arg_str *e[3], *p;
    struct arg_end *en;
    char *argv[4];
    int q = vf_choose(0, 9), k = vf_choose(0, 15), v = vf_choose(0, 2), i, j, n = 0, part = -1, exact = -1, amb = 0, hit, ret;
    VF_SHARD(k);
    vf_cid = 1000 * q + 10 * k + v;
    for (i = 0; i < 3; i++) {
        tab[i] = e[i] = arg_strn(0, dl[sets[q][i]], 0, 0, 3, 0);
        if (strncmp(dl[sets[q][i]], key[k], (size_t)klen[k]) == 0) {
            if (dl[sets[q][i]][klen[k]] == 0)
                exact = i;
            else if (part < 0)
                part = i;
            else
                amb = 1;
        }
    }
    tab[3] = p = arg_strn(0, 0, 0, 0, 3, 0);
    tab[4] = en = arg_end(3);
    hit = exact >= 0 ? exact : amb ? -1 : part;
    w[n++] = '-';
    w[n++] = '-';
    for (i = 0; i < klen[k]; i++)
        w[n++] = key[k][i];
    if (v) {
        w[n++] = '=';
        w[n++] = v == 1 ? 'v' : '-';
    }
    w[n] = 0;
    if (k == 12 && !v) /* "---" */
        hit = exact >= 0 ? exact : amb ? -1 : part;
    argv[0] = "p";
    argv[1] = w;
    argv[2] = "next";
    argv[3] = 0;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    for (j = 0; j < 3; j++)
        VF("C24", e[j]->count == (j == hit), "a long option name with a mark in it selects an option it does not name, or not the one it names");
    if (hit < 0)
        VF("C24", ret == 1 && en->error[0] == ARG_ELONGOPT && en->argval[0] == w, "an unknown or ambiguous long option name is not reported as such");
    else {
        VF("C24", ret == 0, "a full or unambiguous long option name is refused");
        VF("C24", e[hit]->sval[0] == (v ? w + n - 1 : argv[2]), "the value of a long option is not the one given");
    }
    VF("C24", p->count == (hit < 0 || v), "the word behind an option goes to the wrong place");
}

/* the word behind an option that needs a value is that value, whatever it
 * looks like; what follows is read as if nothing had happened */
// VFSC props=C24,C06 defs="-DVF_FAST" shards=8 slevel=60000
void sc_value_words(void) {
    static const char *const form[6] = {"-v", "--val", "--va", "-xv", "-yxv", "--val"};
    static const char *const val[12] = {"--", "-", "-x", "--lit", "--val", "--val=3", "", "=", "a=b", "---", "-v", "-?"};
    static const char *const aft[6] = {"", "-x", "--", "pos", "--lit", "-vq"};
    void *tab[5];
    struct arg_str *s, *p;
    struct arg_lit *x, *y;
    struct arg_end *en;
    char *argv[6];
    int f = vf_choose(0, 5), v = vf_choose(0, 11), a = vf_choose(0, 5), lead, n = 1, nx, ny, ns = 1, np, ret;
    VF_SHARD(v + a);
    lead = (f + v + a) & 1;
    vf_cid = 1000 * f + 40 * v + 2 * a + lead;
    tab[0] = x = arg_litn("x", "lit", 0, 5, 0);
    tab[1] = s = arg_strn("v", "val", 0, 0, 5, 0);
    tab[2] = y = arg_litn("y", 0, 0, 5, 0);
    tab[3] = p = arg_strn(0, 0, 0, 0, 5, 0);
    tab[4] = en = arg_end(3);
    argv[0] = "p";
    if (lead)
        argv[n++] = "first";
    argv[n++] = (char *)form[f];
    argv[n++] = (char *)val[v];
    if (a)
        argv[n++] = (char *)aft[a];
    argv[n] = 0;
    nx = (f == 3 || f == 4) + (a == 1 || a == 4);
    ny = f == 4;
    np = lead + (a == 3);
    if (a == 5)
        ns = 2;
    VF_BEGIN();
    ret = arg_parse(n, argv, tab);
    VF_END();
    if (v != 6 || f == 0 || f == 3 || f == 4) /* an empty value of a long option counts as a missing one */
        VF("C24", ret == 0 && en->count == 0, "a correct command line is refused because of what an option's value looks like");
    VF("C24", s->count == ns && s->sval[0] == val[v], "the word behind an option that needs a value is not its value");
    if (ns == 2)
        VF("C24", s->sval[1] == aft[5] + 2, "the value of the option behind is not the one given");
    VF("C06", x->count == nx && y->count == ny && p->count == np, "words behind an option's value are lost, or read in another way");
    if (lead)
        VF("C06", p->sval[0][0] == 'f', "a positional word in front of the option is lost");
    if (a == 3)
        VF("C06", p->sval[np - 1] == aft[3], "a positional word behind the value is lost");
}
