/* Every printer on every kind of stream: the caller's own, standard output and
 * standard error.  What arrives is the text of the string variant. */
#include "vf.h"
#include <stdio.h>
#include <string.h>

static FILE own;
static FILE *pick(int s) { return s == 0 ? &own : s == 1 ? stdout : stderr; }
static arg_dstr_t ds;
static void same(const char *what) {
    size_t n = strlen(arg_dstr_cstr(ds));
    VF("C23", vf_printed == 0, "a printer writes to another stream than the one given");
    VF("C23", vf_outlen == n, "the text on a stream differs in length from the text of the string variant");
    if (vf_outlen == n)
        VF("C23", memcmp(vf_out, arg_dstr_cstr(ds), n) == 0, "the text on a stream differs from the text of the string variant");
}
// VFSC props=C23,C26 defs="-DVF_FAST" shards=3
void sc_streams_usage(void) {
    int s = vf_choose(0, 2), p = vf_choose(0, 4), tabk = vf_choose(0, 3), sfx = vf_choose(0, 1);
    static void *tab[6];
    int n = 0;
    FILE *fp = pick(s);
    VF_SHARD(s);
    vf_cid = 1000 * s + 100 * p + 10 * tabk + sfx;
    if (tabk & 1) {
        tab[n++] = arg_litn("v", "verbose", 0, 3, sfx ? "be verbose, 100% of the time, and wrap this text because it is too long for a line" : 0);
        tab[n++] = arg_strn(0, "a-very-long-option-name-for-one", "TYPE", 1, 3, "x");
    }
    if (tabk & 2) {
        tab[n++] = arg_rem("and", "remark");
        tab[n++] = arg_filen(0, 0, 0, 0, 9, "");
    }
    tab[n++] = arg_end(2);
    VF_BEGIN();
    vf_fp = fp;
    vf_outlen = 0;
    ds = arg_dstr_create();
    switch (p) {
        case 0:
            arg_print_syntax_ds(ds, tab, sfx ? "%s\n" : 0);
            arg_print_syntax(fp, tab, sfx ? "%s\n" : 0);
            break;
        case 1:
            arg_print_syntaxv_ds(ds, tab, sfx ? "%s\n" : 0);
            arg_print_syntaxv(fp, tab, sfx ? "%s\n" : 0);
            break;
        case 2:
            arg_print_glossary_ds(ds, tab, sfx ? "%s|%-9s\n" : 0);
            arg_print_glossary(fp, tab, sfx ? "%s|%-9s\n" : 0);
            break;
        case 3:
            arg_print_glossary_gnu_ds(ds, tab);
            arg_print_glossary_gnu(fp, tab);
            break;
        default:
            arg_print_option_ds(ds, tabk & 1 ? "o" : 0, tabk & 2 ? "oo,p" : 0, sfx ? "T" : 0, sfx ? "\n" : 0);
            arg_print_option(fp, tabk & 1 ? "o" : 0, tabk & 2 ? "oo,p" : 0, sfx ? "T" : 0, sfx ? "\n" : 0);
    }
    same("usage");
    VF_END();
}
// VFSC props=C23,C26,C20 defs="-DVF_FAST" shards=3
void sc_streams_errors(void) {
    int s = vf_choose(0, 2), cap = vf_choose(1, 3), w = vf_choose(0, 5), prog = vf_choose(1, 2);
    static void *tab[4];
    static char *argv[6];
    struct arg_end *en;
    int argc = 1, i, lines = 0;
    FILE *fp = pick(s);
    VF_SHARD(s);
    vf_cid = 1000 * s + 100 * cap + 10 * w + prog;
    tab[0] = arg_litn("v", 0, 0, 1, 0);
    tab[1] = arg_intn("i", 0, 0, w == 5, 1, 0);
    tab[2] = en = arg_end(cap);
    argv[0] = "x";
    switch (w) {
        case 0: break;
        case 1: argv[argc++] = "one"; argv[argc++] = "two"; break;
        case 2: argv[argc++] = "-z"; argv[argc++] = "-i"; break;
        case 3: argv[argc++] = "-iq"; argv[argc++] = "-vv"; break;
        case 4: argv[argc++] = "--bad=x%sy"; break;
        default: break;
    }
    argv[argc] = 0;
    VF_BEGIN();
    arg_parse(argc, argv, tab);
    vf_fp = fp;
    vf_outlen = 0;
    ds = arg_dstr_create();
    arg_print_errors_ds(ds, en, prog == 1 ? "" : "prog %d");
    arg_print_errors(fp, en, prog == 1 ? "" : "prog %d");
    same("errors");
    for (i = 0; i < (int)vf_outlen && i < 1000; i++)
        lines += vf_out[i] == '\n';
    VF("C20", lines == en->count, "the number of messages is not the number of errors");
    VF_END();
}
// VFSC props=C23,C26 defs="-DVF_FAST"
void sc_streams_wrapped(void) {
    static const char *const txt[5] = {"", "a", "two words", "a longer text\nwith 100% of everything in it", " \n "};
    int s = vf_choose(0, 2), k = vf_choose(0, 4), lm = vf_choose(0, 1);
    FILE *fp = pick(s);
    static char first[200];
    unsigned n, i;
    vf_cid = 100 * s + 10 * k + lm;
    VF_BEGIN();
    vf_fp = &own;
    vf_outlen = 0;
    arg_print_formatted(&own, lm ? 4 : 0, 13, txt[k]);
    n = (unsigned)vf_outlen;
    for (i = 0; i < n && i < sizeof first; i++)
        first[i] = vf_out[i];
    vf_fp = fp;
    vf_outlen = 0;
    arg_print_formatted(fp, lm ? 4 : 0, 13, txt[k]);
    VF("C23", vf_printed == 0 && vf_outlen == n && n < sizeof first && memcmp(first, vf_out, n) == 0, "wrapped text depends on the stream, or goes to another one");
    VF_END();
}
