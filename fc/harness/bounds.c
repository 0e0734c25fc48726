/* Usage texts for entries with oversized, empty and odd names: the analyser's
 * memory alarms are the verdict; the texts must come out terminated. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE the_stream;
static char big1[420], big2[420], gl[300];
static void rep(char *b, const char *unit, int ulen, int n) {
    int i;
    for (i = 0; i < n; i++)
        b[i] = unit[i % ulen];
    b[n] = 0;
}
static void show(void *e) {
    void *tab[2];
    arg_dstr_t ds;
    size_t n;
    tab[0] = e;
    tab[1] = arg_end(1);
    vf_fp = &the_stream;
    VF_BEGIN();
    ds = arg_dstr_create();
    arg_print_syntax_ds(ds, tab, "\n");
    arg_print_syntaxv_ds(ds, tab, "\n");
    arg_print_glossary_ds(ds, tab, 0);
    arg_print_glossary_gnu_ds(ds, tab);
    n = strlen(arg_dstr_cstr(ds));
    VF("C15", n > 0 && n < 5000, "a usage text is not terminated");
    arg_print_option(&the_stream, ((struct arg_hdr *)e)->shortopts, ((struct arg_hdr *)e)->longopts, ((struct arg_hdr *)e)->datatype, "");
    arg_dstr_destroy(ds);
    VF_END();
}
static const int nshort[8] = {48, 49, 50, 51, 65, 66, 67, 90};
// VFSC props=C15 defs="-DVF_FAST" shards=4
void sc_long_shorts(void) {
    int i = vf_choose(0, 7), v = vf_choose(0, 1);
    VF_SHARD(i);
    vf_cid = 10 * i + v;
    rep(big1, "abcdefghijk", 11, nshort[i]);
    show(v ? (void *)arg_strn(big1, 0, "T", 0, 1, "g") : (void *)arg_litn(big1, 0, 1, 1, "g"));
}
static const int nlong[9] = {60, 192, 193, 194, 195, 196, 197, 198, 230};
// VFSC props=C15 defs="-DVF_FAST" shards=4
void sc_long_names(void) {
    int i = vf_choose(0, 8), v = vf_choose(0, 3);
    VF_SHARD(i);
    vf_cid = 10 * i + v;
    rep(big1, v == 3 ? "ab,cde," : "lmnop", v == 3 ? 7 : 5, nlong[i]);
    switch (v) {
        case 0: show(arg_litn(0, big1, 0, 1, "g")); break;
        case 1: show(arg_strn("s", big1, "TY", 0, 1, "g")); break;
        case 2: show(arg_intn(0, big1, 0, 1, 1, "g")); break;
        default: show(arg_litn("q", big1, 0, 1, "g")); break;
    }
}
static const int ndt[9] = {100, 192, 194, 195, 196, 197, 198, 199, 300};
// VFSC props=C15 defs="-DVF_FAST" shards=4
void sc_long_types(void) {
    int i = vf_choose(0, 8), v = vf_choose(0, 3);
    VF_SHARD(i);
    vf_cid = 10 * i + v;
    rep(big1, "TYPES", 5, ndt[i]);
    switch (v) {
        case 0: show(arg_strn(0, 0, big1, 0, 1, "g")); break;
        case 1: show(arg_filen("f", 0, big1, 0, 1, "g")); break;
        case 2: show(arg_rem(big1, "g")); break;
        default: {
            struct arg_str *s = arg_strn("o", "oo", big1, 0, 1, "g");
            s->hdr.flag |= ARG_HASOPTVALUE;
            show(s);
        }
    }
}
// VFSC props=C15 defs="-DVF_FAST" shards=4
void sc_long_gloss(void) {
    static const int n[5] = {1, 52, 53, 104, 205};
    int i = vf_choose(0, 4), v = vf_choose(0, 1);
    VF_SHARD(i);
    vf_cid = 10 * i + v;
    rep(gl, v ? "word and " : "x", v ? 9 : 1, n[i]);
    rep(big2, "nm", 2, 30);
    show(arg_strn("s", big2, "T", 0, 2, gl));
}
static const char *const odd[6] = {"", "a", ",", "a,", ",a", "a,,b"};
// VFSC props=C15 defs="-DVF_FAST" shards=4
void sc_odd_names(void) {
    int s = vf_choose(0, 2), l = vf_choose(0, 6), d = vf_choose(0, 2), g = vf_choose(0, 1);
    VF_SHARD(l);
    vf_cid = 1000 * s + 100 * l + 10 * d + g;
    show(arg_strn(s == 0 ? 0 : s == 1 ? "" : "ab", l == 6 ? 0 : odd[l], d == 0 ? 0 : d == 1 ? "" : "t", 0, 1, g ? "" : "gg"));
}
