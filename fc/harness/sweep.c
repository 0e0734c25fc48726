/* Size sweeps: every size of a range, one concrete input class per size, so
 * that a limit that is off by one or too small at any of these sizes shows. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *argv[160];
static int argc;
static struct arg_end *en;
static void word(const char *w) {
    argv[argc++] = (char *)w;
    argv[argc] = 0;
}
static void begin(void) {
    argc = 0;
    word("prog");
}
static char pool[150][4];
static char *pw(int i) {
    pool[i][0] = 'w';
    pool[i][1] = (char)('a' + i / 20);
    pool[i][2] = (char)('a' + i % 20);
    pool[i][3] = 0;
    return pool[i];
}
static void letters(char *b, int n) {
    int i;
    for (i = 0; i < n; i++)
        b[i] = (char)('a' + i % 23);
    b[n] = 0;
}

/* all small sizes, and the neighbours of round numbers */
static const int sizes[117] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 38, 39, 40, 41, 46, 47, 48, 49, 50, 51, 58, 59, 60, 61, 62, 63, 64, 65, 70, 71, 72, 73, 78, 79, 80, 81, 94, 95, 96, 97, 98, 99, 100, 101, 118, 119, 120, 121, 126, 127, 128, 129, 148, 149, 150, 151, 158, 159, 160, 161, 178, 179, 180, 181, 190, 191, 192, 193, 198, 199, 200, 201, 218, 219, 220, 221, 238, 239, 240, 241, 248, 249, 250, 251, 254, 255, 256, 257, 262, 263, 264, 265};
/* ---- number of words ---- */
static void words(int n, int v) {
    static void *tab[4];
    static char *kept[160];
    struct arg_lit *a;
    struct arg_str *p;
    int i, ret, ok = 1;
    vf_cid = 10 * n + v;
    tab[0] = a = arg_litn("a", 0, 0, 1, 0);
    tab[1] = p = arg_strn(0, 0, 0, 0, 140, 0);
    tab[2] = en = arg_end(4);
    begin();
    if (v == 1)
        word("-a");
    for (i = 0; i < n; i++)
        word(pw(i));
    if (v == 2)
        word("-a");
    for (i = 0; i <= argc; i++)
        kept[i] = argv[i];
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF("C05", ret == 0 && en->count == 0, "a correct command line of this many words is refused");
    VF("C06", p->count == n && a->count == (v > 0), "words are lost or invented");
    for (i = 0; i < n; i++)
        if (p->sval[i] != pool[i])
            ok = 0;
    VF("C06", ok, "words are delivered in the wrong order");
    ok = 1;
    for (i = 0; i <= argc; i++)
        if (argv[i] != kept[i])
            ok = 0;
    VF("C08", ok, "the caller's vector changes");
    arg_freetable(tab, 3);
    VF("C18", vf_live == 0, "memory is left behind");
    VF_END();
}
// VFSC props=C01,C05,C06,C08,C18 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_words(void) {
    int n = vf_choose(0, 66), v = vf_choose(0, 1);
    VF_SHARD(n);
    words(n, v ? 2 : (n & 1));
}
// VFSC props=C01,C05,C06,C08,C18 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_words_full(void) {
    int n = vf_choose(0, 134), v = vf_choose(0, 2);
    VF_SHARD(n);
    words(n, v);
}
/* ---- number of entries ---- */
static char names[70][6], dashed[3][8];
// VFSC props=C01,C04,C24,C25,C18 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_entries(void) {
    static void *tab[72];
    struct arg_lit *first, *last;
    int n = vf_choose(2, 66), i, ret;
    VF_SHARD(n);
    vf_cid = n;
    for (i = 0; i < n; i++) {
        names[i][0] = 'o';
        names[i][1] = (char)('a' + i / 10);
        names[i][2] = (char)('k' + i % 10);
        names[i][3] = 0;
        tab[i] = arg_litn(0, names[i], i == n - 1, 2, 0);
    }
    tab[n] = en = arg_end(6);
    first = tab[0];
    last = tab[n - 1];
    strcpy(dashed[0], "--");
    strcat(dashed[0], names[n - 1]);
    strcpy(dashed[1], "--");
    strcat(dashed[1], names[0]);
    begin();
    word(dashed[1]);
    VF_BEGIN();
    VF("C25", arg_nullcheck(tab) == 0, "a complete table does not pass the table check");
    ret = arg_parse(argc, argv, tab);
    VF("C04", ret == 1 && en->parent[0] == last && en->error[0] == ARG_ERR_MINCOUNT && first->count == 1, "a missing last entry is not reported");
    word(dashed[0]);
    word(dashed[0]);
    word("--oz");
    ret = arg_parse(argc, argv, tab);
    VF("C24", ret == 1 && en->error[0] == ARG_ELONGOPT && en->argval[0] == argv[argc - 1], "an unknown option is not reported");
    VF("C24", first->count == 1 && last->count == 2, "an option is counted for another entry");
    tab[n / 2 == n - 1 ? 0 : n / 2] = (free(tab[n / 2 == n - 1 ? 0 : n / 2]), (void *)0);
    VF("C25", arg_nullcheck(tab) != 0, "an incomplete table passes the table check");
    arg_freetable(tab, (size_t)(n + 1));
    VF("C18", vf_live == 0, "memory is left behind");
    VF_END();
}
/* ---- capacity of the end entry ---- */
// VFSC props=C05,C01 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_errors(void) {
    static void *tab[3];
    int cap = vf_choose(1, 66), d = vf_choose(0, 1), n, i, ret, want, ok = 1;
    VF_SHARD(cap);
    n = cap + d;
    vf_cid = 10 * cap + d + 1;
    tab[0] = arg_litn("a", 0, 0, 1, 0);
    tab[1] = en = arg_end(cap);
    begin();
    for (i = 0; i < n; i++)
        word("-q");
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    want = n > cap ? cap : n;
    VF("C05", ret == want && en->count == want, "the number of errors is wrong");
    for (i = 0; i < want; i++)
        if (en->error[i] != (n > cap && i == cap - 1 ? ARG_ELIMIT : 'q') || en->parent[i] != en)
            ok = 0;
    VF("C05", ok, "the recorded errors are wrong");
    VF_END();
}
/* ---- number of values ---- */
// VFSC props=C03,C04,C17 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_values(void) {
    static void *tab[3];
    static double room[60];
    struct arg_hdr *h;
    int t = vf_choose(0, 6), m = vf_choose(1, 34), over = vf_choose(0, 1), i, ret, ok = 1, cnt;
    VF_SHARD(m);
    if (!over && m % 4)
        vf_stop();
    vf_cid = 1000 * t + 10 * m + over;
    switch (t) {
        case 0: tab[0] = arg_litn("t", 0, m, m, 0); break;
        case 1: tab[0] = arg_intn("t", 0, 0, m, m, 0); break;
        case 2:
            tab[0] = arg_dbln("t", 0, 0, m, m, 0);
            ((struct arg_dbl *)tab[0])->dval = room;
            break;
        case 3: tab[0] = arg_strn("t", 0, 0, m, m, 0); break;
        case 4: tab[0] = arg_rexn("t", 0, "[0-9]+", 0, m, m, 0, 0); break;
        case 5: tab[0] = arg_filen("t", 0, 0, m, m, 0); break;
        default: tab[0] = arg_daten("t", 0, "%d", 0, m, m, 0); break;
    }
    h = tab[0];
    tab[1] = en = arg_end(4);
    begin();
    for (i = 0; i < m + over; i++)
        word(t == 0 ? "-t" : i == m - 1 ? "-t7" : i == m ? "-t9" : "-t5");
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF("C03", ret == over, "the maximum is not exactly the given one");
    VF("C04", over || ret == 0, "a command line with exactly the minimum is refused");
    if (over)
        VF("C03", en->error[0] == ARG_ERR_MAXCOUNT && en->parent[0] == tab[0] && (t == 0 || en->argval[0] == argv[m + 1] + 2), "the excess is not reported with its text");
#define V(i) ((i) == m - 1 ? 7 : 5)
    for (i = 0; i < m; i++)
        switch (t) {
            case 1: if (((struct arg_int *)tab[0])->ival[i] != V(i)) ok = 0; break;
            case 2: if (((struct arg_dbl *)tab[0])->dval[i] != V(i)) ok = 0; break;
            case 3: if (((struct arg_str *)tab[0])->sval[i] != argv[i + 1] + 2) ok = 0; break;
            case 4: if (((struct arg_rex *)tab[0])->sval[i] != argv[i + 1] + 2) ok = 0; break;
            case 5: if (((struct arg_file *)tab[0])->filename[i] != argv[i + 1] + 2 || ((struct arg_file *)tab[0])->basename[i] != argv[i + 1] + 2 || ((struct arg_file *)tab[0])->extension[i] != argv[i + 1] + 3) ok = 0; break;
            case 6: if (((struct arg_date *)tab[0])->tmval[i].tm_mday != V(i)) ok = 0; break;
            default: break;
        }
    VF("C03", ok, "the values are not the ones given");
    cnt = t == 0 ? ((struct arg_lit *)tab[0])->count : t == 1 ? ((struct arg_int *)tab[0])->count : t == 2 ? ((struct arg_dbl *)tab[0])->count : t == 3 ? ((struct arg_str *)tab[0])->count
        : t == 4 ? ((struct arg_rex *)tab[0])->count : t == 5 ? ((struct arg_file *)tab[0])->count : ((struct arg_date *)tab[0])->count;
    VF("C03", cnt == m, "the count is not the number of values");
    VF_END();
}
/* ---- length of words ---- */
static char lw[4][400];
static void sw_len(int n) {
    static void *tab[4];
    struct arg_str *s;
    struct arg_file *f;
    int ret;
    vf_cid = n;
    tab[0] = s = arg_strn("s", "string", 0, 0, 3, 0);
    tab[1] = f = arg_filen(0, 0, 0, 0, 1, 0);
    tab[2] = en = arg_end(4);
    strcpy(lw[0], "--string=");
    letters(lw[0] + 9, n);
    strcpy(lw[1], "-s");
    letters(lw[1] + 2, n);
    letters(lw[2], n);
    strcat(lw[2], "/");
    letters(lw[2] + n + 1, n / 3 + 1);
    strcat(lw[2], ".e");
    strcpy(lw[3], "--");
    letters(lw[3] + 2, n);
    begin();
    word(lw[0]);
    word(lw[1]);
    word("-s");
    word(lw[0] + 9);
    word(lw[2]);
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF("C06", ret == 0 && s->count == 3 && s->sval[0] == lw[0] + 9 && s->sval[1] == lw[1] + 2 && s->sval[2] == lw[0] + 9, "a value of this length is lost or cut");
    VF("C06", f->count == 1 && f->filename[0] == lw[2], "a word of this length is lost or cut");
    VF("C13", f->basename[0] == lw[2] + n + 1 && f->extension[0] == lw[2] + n + 1 + n / 3 + 1, "base name or extension of a long path is wrong");
    VF("C08", (int)strlen(lw[0]) == 9 + n && (int)strlen(lw[1]) == 2 + n, "the words of the caller change");
    begin();
    word(lw[3]);
    ret = arg_parse(argc, argv, tab);
    VF("C24", ret == 1 && en->error[0] == ARG_ELONGOPT && en->argval[0] == lw[3], "an unknown option of this length is not reported");
    VF_END();
}
// VFSC props=C01,C06,C08,C13,C24 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_len(void) {
    int k = vf_choose(1, 116);
    VF_SHARD(k);
    sw_len(sizes[k]);
}
// VFSC props=C01,C06,C08,C13,C24 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_len_full(void) {
    int n = vf_choose(1, 270);
    VF_SHARD(n);
    sw_len(n);
}
/* ---- length of names, in parsing and in usage texts ---- */
static char nm[400], want[1200];
static void sw_names(int n) {
    static void *tab[3];
    struct arg_lit *l;
    arg_dstr_t ds;
    int i;
    vf_cid = n;
    letters(nm, n);
    nm[n - 1] = 'Z';
    tab[0] = l = arg_litn(0, nm, 0, 1, "g");
    tab[1] = en = arg_end(4);
    strcpy(lw[0], "--");
    strcat(lw[0], nm);
    begin();
    word(lw[0]);
    VF_BEGIN();
    VF("C24", arg_parse(argc, argv, tab) == 0 && l->count == 1, "a name of this length is not found");
    lw[0][n + 2] = 'x';
    lw[0][n + 3] = 0;
    VF("C24", arg_parse(argc, argv, tab) == 1 && l->count == 0, "a longer name is taken for the option");
    ds = arg_dstr_create();
    arg_print_syntax_ds(ds, tab, "|");
    arg_print_syntaxv_ds(ds, tab, "|");
    strcpy(want, " [--");
    strcat(want, nm);
    strcat(want, "]| [--");
    strcat(want, nm);
    strcat(want, "]|");
    VF("C27", strcmp(arg_dstr_cstr(ds), want) == 0, "the syntax line does not show a name of this length");
    arg_dstr_reset(ds);
    arg_print_glossary_ds(ds, tab, 0);
    strcpy(want, "  --");
    strcat(want, nm);
    for (i = 2 + n; i < 20; i++)
        strcat(want, " ");
    strcat(want, " g\n");
    VF("C27", strcmp(arg_dstr_cstr(ds), want) == 0, "the glossary does not show a name of this length");
    arg_dstr_reset(ds);
    arg_print_glossary_gnu_ds(ds, tab);
    VF("C27", strstr(arg_dstr_cstr(ds), nm) == arg_dstr_cstr(ds) + 8, "the GNU glossary does not show a name of this length");
    arg_dstr_destroy(ds);
    VF_END();
}
// VFSC props=C01,C24,C27 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_names(void) {
    int k = vf_choose(1, 89);
    VF_SHARD(k);
    sw_names(sizes[k]);
}
// VFSC props=C01,C24,C27 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_names_full(void) {
    int n = vf_choose(1, 190);
    VF_SHARD(n);
    sw_names(n);
}
/* ---- length of data types and glossaries ---- */
static void sw_types(int n) {
    static void *tab[3];
    arg_dstr_t ds;
    int i;
    vf_cid = n;
    letters(nm, n);
    nm[n - 1] = 'Z';
    letters(lw[1], n + 100);
    lw[1][n + 99] = 'Y';
    tab[0] = arg_strn("s", "st", nm, 1, 1, lw[1]);
    tab[1] = en = arg_end(4);
    VF_BEGIN();
    ds = arg_dstr_create();
    arg_print_syntax_ds(ds, tab, "|");
    arg_print_syntaxv_ds(ds, tab, "|");
    strcpy(want, " -s ");
    strcat(want, nm);
    strcat(want, "| -s|--st=");
    strcat(want, nm);
    strcat(want, "|");
    VF("C27", strcmp(arg_dstr_cstr(ds), want) == 0, "the syntax line does not show a data type of this length");
    arg_dstr_reset(ds);
    arg_print_glossary_ds(ds, tab, 0);
    strcpy(want, "  -s, --st=");
    strcat(want, nm);
    for (i = 9 + n; i < 20; i++)
        strcat(want, " ");
    strcat(want, " ");
    strcat(want, lw[1]);
    strcat(want, "\n");
    VF("C27", strcmp(arg_dstr_cstr(ds), want) == 0, "the glossary does not show a data type or glossary of this length");
    arg_dstr_reset(ds);
    arg_print_option_ds(ds, "s", "st", nm, "");
    strcpy(want, "-s|--st=");
    strcat(want, nm);
    VF("C27", strcmp(arg_dstr_cstr(ds), want) == 0, "an option is not printed with a data type of this length");
    arg_dstr_destroy(ds);
    VF_END();
}
// VFSC props=C27,C15 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_types(void) {
    int k = vf_choose(1, 87);
    VF_SHARD(k);
    sw_types(sizes[k]);
}
// VFSC props=C27,C15 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_types_full(void) {
    int n = vf_choose(1, 180);
    VF_SHARD(n);
    sw_types(n);
}
/* ---- length of the texts in error messages ---- */
static void sw_messages(int n) {
    static void *tab[4];
    static FILE fp;
    arg_dstr_t ds;
    vf_cid = n;
    vf_fp = &fp;
    letters(nm, n);
    tab[0] = arg_intn("i", 0, 0, 0, 1, "g");
    tab[1] = en = arg_end(4);
    strcpy(lw[0], "-i");
    strcat(lw[0], nm);
    strcpy(lw[1], "--");
    strcat(lw[1], nm);
    begin();
    word(lw[0]);
    word(lw[1]);
    word(nm);
    VF_BEGIN();
    VF("C20", arg_parse(argc, argv, tab) == 3, "the errors are not found");
    ds = arg_dstr_create();
    arg_print_errors_ds(ds, en, "prog");
    strcpy(want, "prog: invalid argument \"");
    strcat(want, nm);
    strcat(want, "\" to option -i <int>\nprog: invalid option \"--");
    strcat(want, nm);
    strcat(want, "\"\nprog: unexpected argument \"");
    strcat(want, nm);
    strcat(want, "\"\n");
    VF("C20", strcmp(arg_dstr_cstr(ds), want) == 0, "the messages do not show texts of this length");
    vf_outlen = 0;
    if (n % 8 == 0)
        arg_print_errors(&fp, en, "prog");
    VF("C23", n % 8 || (vf_outlen == strlen(want) && memcmp(vf_out, want, vf_outlen) == 0), "stream and string variant print different messages");
    arg_dstr_destroy(ds);
    VF_END();
}
// VFSC props=C20,C23 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_messages(void) {
    int k = vf_choose(1, 103);
    VF_SHARD(k);
    sw_messages(sizes[k]);
}
// VFSC props=C20,C23 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_messages_full(void) {
    int n = vf_choose(1, 240);
    VF_SHARD(n);
    sw_messages(n);
}
/* ---- length of dynamic strings ---- */
static void sw_dstr(int n, int v) {
    arg_dstr_t ds;
    vf_cid = 10 * n + v;
    letters(nm, n);
    ds = arg_dstr_create();
    VF_BEGIN();
    switch (v) {
        case 0:
            arg_dstr_set(ds, nm, ARG_DSTR_VOLATILE);
            arg_dstr_catc(ds, '!');
            break;
        case 1:
            arg_dstr_cat(ds, nm);
            arg_dstr_cat(ds, "!");
            break;
        case 2:
            arg_dstr_catf(ds, "%s", nm);
            arg_dstr_catf(ds, "%c", '!');
            break;
        default:
            arg_dstr_set(ds, nm, ARG_DSTR_STATIC);
            arg_dstr_catf(ds, "%s", "!");
            break;
    }
    strcpy(want, nm);
    strcat(want, "!");
    VF("C14", strcmp(arg_dstr_cstr(ds), want) == 0, "the text is not what the operations produced");
    arg_dstr_destroy(ds);
    VF("C14", vf_live == 0, "destroying the string does not release all of its memory");
    VF_END();
}
// VFSC props=C14 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_dstr(void) {
    int k = vf_choose(0, 115);
    int v = vf_choose(0, 3);
    VF_SHARD(k);
    sw_dstr(sizes[k], v);
}
// VFSC props=C14 defs="-DVF_FAST" slevel=300000 shards=16 tier=thorough
void sc_sweep_dstr_full(void) {
    int n = vf_choose(0, 264);
    int v = vf_choose(0, 3);
    VF_SHARD(n);
    sw_dstr(n, v);
}
/* ---- commands: lengths of names, number of commands ---- */
static int pr(int c, char *v[], arg_dstr_t r, void *x) { return c + (x == nm); }
// VFSC props=C16,C22 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_cmd(void) {
    static void *tab[2];
    arg_cmd_info_t *c;
    arg_dstr_t ds;
    int n = vf_choose(1, 98), code = 3;
    VF_SHARD(n);
    vf_cid = n;
    letters(nm, n);
    letters(lw[0], 2 * n);
    begin();
    tab[0] = en = arg_end(1);
    ds = arg_dstr_create();
    VF_BEGIN();
    arg_set_module_name(lw[0]);
    arg_cmd_init();
    arg_cmd_register(nm, pr, lw[0], nm);
    nm[n] = 'q';
    nm[n + 1] = 0;
    VF("C16", arg_cmd_info(nm) == 0, "a longer name is taken for the command");
    nm[n] = 0;
    c = arg_cmd_info(nm);
    VF("C16", c && strcmp(c->name, nm) == 0 && strcmp(c->description, lw[0]) == 0 && c->ctx == nm, "a command with a name of this length is not found or changed");
    VF("C16", arg_cmd_dispatch(nm, argc, argv, ds) == 2, "the command is not called with the caller's arguments");
    arg_dstr_reset(ds);
    arg_make_help_msg(ds, nm, tab);
    strcpy(want, nm);
    strcat(want, ": ");
    strcat(want, lw[0]);
    strcat(want, "\nUsage:\n  ");
    strcat(want, lw[0]);
    strcat(want, "\n \nAvailable options:\n\n");
    VF("C22", strcmp(arg_dstr_cstr(ds), want) == 0, "the help text is not exactly name, description and usage");
    arg_dstr_destroy(ds);
    arg_cmd_uninit();
    VF_END();
}
// VFSC props=C16,C18 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_cmds(void) {
    arg_cmd_itr_t it;
    int n = vf_choose(1, 40), i, s = 0, ok = 1;
    VF_SHARD(n);
    vf_cid = n;
    VF_BEGIN();
    arg_cmd_init();
    for (i = 0; i < n; i++)
        arg_cmd_register(pw(i), pr, "d", pool[i]);
    VF("C16", arg_cmd_count() == (unsigned)n, "the number of commands is wrong");
    for (i = 0; i < n; i++) {
        arg_cmd_info_t *c = arg_cmd_info(pool[i]);
        if (!c || c->ctx != pool[i])
            ok = 0;
    }
    VF("C16", ok, "a command is lost");
    it = arg_cmd_itr_create();
    do
        s++;
    while (s <= n && arg_cmd_itr_advance(it));
    VF("C16", s == n, "iteration does not visit every command exactly once");
    arg_cmd_itr_destroy(it);
    arg_cmd_uninit();
    VF("C18", vf_live == 0, "the registry leaves memory behind");
    VF_END();
}
/* ---- sort ---- */
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
// VFSC props=C21 defs="-DVF_FAST" slevel=300000 shards=8
void sc_sweep_sort(void) {
    static int v[72];
    int n = vf_choose(0, 40), k = vf_choose(0, 2), i, sum = 0, sq = 0;
    VF_SHARD(n);
    vf_cid = 10 * n + k;
    v[0] = v[n + 1] = -7;
    for (i = 0; i < n; i++) {
        v[i + 1] = k == 0 ? n - i : k == 1 ? (i * 37 + 11) % 67 : i % 5;
        sum += v[i + 1];
        sq += v[i + 1] * v[i + 1];
    }
    VF_BEGIN();
    arg_mgsort(v + 1, n, sizeof(int), 0, n - 1, cmp);
    for (i = 0; i < n; i++) {
        sum -= v[i + 1];
        sq -= v[i + 1] * v[i + 1];
        if (i)
            VF("C21", v[i] <= v[i + 1], "the result is not in order");
    }
    VF("C21", sum == 0 && sq == 0, "the result is not a permutation of the input");
    VF("C21", v[0] == -7 && v[n + 1] == -7, "elements outside the given range change");
    VF("C21", vf_live == 0, "the sort leaves memory behind");
    VF_END();
}
