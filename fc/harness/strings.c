/* Arbitrary short texts as command-line words, on ordinary and odd tables:
 * no undefined behaviour (C01), and the parse always comes back (C02). */
#include "vf.h"

#define NA 8
static char cls(int i) {
    switch (i) {
        case 0: return '-';
        case 1: return '=';
        case 2: return ':';
        case 3: return 'a';
        case 4: return 'c';
        case 5: return 'x';
        case 6: return '1';
        default: return 0;
    }
}
/* any other character */
static char other(void) {
    char c = vf_anychar();
    if (c == '-' || c == '=' || c == ':' || c == 'a' || c == 'c' || c == 'x' || c == '1' || c == '/' || c == '.' || c == ' ' || (c >= 9 && c <= 13) ||
        (c >= '0' && c <= '9') || c == '+' || c == ',' || c == 'b' || c == 'y' || c == '?' || c == 'W' || c == ';')
        c = 'z';
    return c;
}
static void *tab[8];
static double dbuf[4];
static struct arg_end *en;

static void ordinary(void) {
    struct arg_str *s;
    tab[0] = arg_litn("a", "a,ac", 0, 2, "g");
    tab[1] = arg_intn("c", "c", 0, 0, 2, "g");
    tab[2] = s = arg_strn("x", "x", 0, 0, 2, "g");
    s->hdr.flag |= ARG_HASOPTVALUE;
    tab[3] = arg_rem("r", 0);
    tab[4] = arg_filen(0, 0, 0, 0, 2, "g");
    tab[5] = en = arg_end(2);
}
/* empty names, empty lists, separators on their own, option letters that
 * mean something to getopt */
static void odd(int which) {
    switch (which) {
        case 0:
            tab[0] = arg_litn("", "", 0, 1, 0);
            tab[1] = arg_intn("a", ",", 0, 0, 1, 0);
            tab[2] = arg_strn("", ",,x", 0, 0, 1, 0);
            break;
        case 1:
            tab[0] = arg_litn(":", "x,,y", 0, 1, 0);
            tab[1] = arg_intn("-", "a,", 0, 0, 1, 0);
            tab[2] = arg_strn("?", ",a,b", 0, 0, 1, 0);
            break;
        default:
            tab[0] = arg_litn("aa", "a,a", 0, 1, 0);
            tab[1] = arg_intn("W;", "=", 0, 0, 1, 0);
            tab[2] = arg_strn("c=", "c=", 0, 0, 1, 0);
            break;
    }
    tab[3] = en = arg_end(which);
}
static void one(char a, char b, char c, char d, const char *next) {
    char w[5];
    char *argv[4];
    int ret;
    w[0] = a; w[1] = b; w[2] = c; w[3] = d; w[4] = 0;
    argv[0] = "prog";
    argv[1] = w;
    argv[2] = (char *)next;
    argv[3] = 0;
    VF_BEGIN();
    ret = arg_parse(next ? 3 : 2, argv, tab);
    VF_END();
    VF("C02", ret >= 0, "the parse does not return a number of errors");
}
// VFSC props=C01,C02 shards=8
void sc_word3(void) {
    int i, j, k;
    char o, x, y, z;
    ordinary();
    o = other();
    i = vf_choose(0, NA - 1);
    VF_SHARD(i);
    j = vf_choose(0, NA - 1);
    k = vf_choose(0, NA);
    x = cls(i); y = cls(j); z = k == NA ? 0 : cls(k);
    if (i == NA - 1) x = o;
    if (j == NA - 1) y = o;
    if (k == NA - 1) z = o;
    vf_cid = 100 * i + 10 * j + k;
    one(x, y, z, 0, "1");
}
/* words that start with a dash, up to four characters */
// VFSC props=C01,C02 shards=8
void sc_word4(void) {
    int i, j, k;
    char o, x, y, z;
    ordinary();
    o = other();
    i = vf_choose(0, NA - 1);
    VF_SHARD(i);
    j = vf_choose(0, NA - 1);
    k = vf_choose(0, NA - 1);
    x = cls(i); y = cls(j); z = cls(k);
    if (i == NA - 1) x = o;
    if (j == NA - 1) y = o;
    if (k == NA - 1) z = o;
    vf_cid = 100 * i + 10 * j + k;
    one('-', x, y, z, 0);
}
// VFSC props=C01,C02 shards=8
void sc_word_odd(void) {
    int i, j, k, w;
    char o, y, z;
    o = other();
    w = vf_choose(0, 2);
    j = vf_choose(0, NA - 1);
    VF_SHARD(j);
    k = vf_choose(0, NA);
    i = vf_choose(0, 1);
    odd(w);
    y = cls(j); z = k == NA ? 0 : cls(k);
    if (j == NA - 1) y = o;
    if (k == NA - 1) z = o;
    vf_cid = 1000 * w + 100 * i + 10 * j + k;
    if (i)
        one('-', y, z, 0, "1");
    else
        one('-', '-', y, z, 0);
}
/* degenerate command lines */
// VFSC props=C01,C02
void sc_word_empty(void) {
    int w = vf_choose(0, 3), k = vf_choose(0, 4);
    char *argv[4];
    argv[0] = "prog";
    argv[1] = k == 2 ? "" : k == 3 ? "-" : "--";
    argv[2] = "--";
    argv[3] = 0;
    if (w == 3)
        ordinary();
    else
        odd(w);
    if (k == 0)
        argv[0] = 0;
    if (k == 1)
        argv[1] = 0;
    vf_cid = 10 * w + k;
    VF_BEGIN();
    arg_parse(k < 2 ? k : k == 4 ? 3 : 2, argv, tab);
    VF_END();
}
/* tables that hold nothing but the end marker */
// VFSC props=C01,C02
void sc_word_notable(void) {
    int k = vf_choose(0, 5);
    char *argv[3];
    argv[0] = "prog";
    argv[1] = k == 0 ? "a" : k == 1 ? "-a" : k == 2 ? "--a" : k == 3 ? "--" : k == 4 ? "-" : "";
    argv[2] = 0;
    tab[0] = en = arg_end(1);
    vf_cid = k;
    VF_BEGIN();
    arg_parse(2, argv, tab);
    VF_END();
}
