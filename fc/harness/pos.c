/* Positional entries of kinds that refuse words: every word goes to the first
 * entry, from the current one on, that takes it; a word no entry takes is the
 * error of the last entry that refused it, and so are all words after it
 * unexpected arguments. */
#include "vf.h"
#include <string.h>

enum { P_INT, P_DBL, P_REX, P_DATE, P_STR, P_FILE, P_LIT, P_REM };
enum { W_7, W_X, W_EMPTY, W_A, W_15, W_DASH, NW };
static char *const text[NW] = {"7", "x", "", "a", "1.5", "-"};
/* which kind takes which word */
static const char takes[6][NW] = {
    {1, 0, 0, 0, 0, 0},
    {1, 0, 0, 0, 1, 0},
    {0, 0, 0, 1, 0, 0},
    {1, 0, 0, 0, 0, 0},
    {1, 1, 1, 1, 1, 1},
    {1, 1, 1, 1, 1, 1},
};
static const int refusal[4] = {ARG_ERR_BADINT, ARG_ERR_BADDOUBLE, ARG_ERR_REGNOMATCH, ARG_ERR_BADDATE};
#define NT 10
static const int kind[NT][4] = {
    {P_INT, P_STR, -1, -1},     {P_INT, P_DBL, -1, -1},       {P_REX, P_INT, P_REX, -1}, {P_DATE, P_FILE, -1, -1}, {P_INT, P_LIT, P_REM, P_INT},
    {P_LIT, -1, -1, -1},        {P_STR, P_INT, -1, -1},       {P_DBL, P_INT, -1, -1},    {P_FILE, P_REX, P_INT, -1}, {P_INT, -1, -1, -1},
};
static const int most[NT][4] = {
    {1, 1, 0, 0}, {2, 1, 0, 0}, {1, 1, 2, 0}, {1, 1, 0, 0}, {1, 9, 9, 2}, {9, 0, 0, 0}, {1, 2, 0, 0}, {2, 2, 0, 0}, {1, 1, 1, 0}, {2, 0, 0, 0},
};
static void *tab[6];
static struct arg_end *en;
static double dbuf[4];
static int ntab;
static void build(int t, int cap) {
    int i;
    for (i = 0; i < 4 && kind[t][i] >= 0; i++) {
        int m = most[t][i];
        switch (kind[t][i]) {
            case P_INT: tab[i] = arg_intn(0, 0, 0, 0, m, "g"); break;
            case P_DBL: {
                struct arg_dbl *d = arg_dbln(0, 0, 0, 0, m, "g");
                d->dval = dbuf;
                tab[i] = d;
                break;
            }
            case P_REX: tab[i] = arg_rexn(0, 0, "[ab]+", 0, 0, m, 0, "g"); break;
            case P_DATE: tab[i] = arg_daten(0, 0, "%d", 0, 0, m, "g"); break;
            case P_STR: tab[i] = arg_strn(0, 0, 0, 0, m, "g"); break;
            case P_FILE: tab[i] = arg_filen(0, 0, 0, 0, m, "g"); break;
            case P_LIT: tab[i] = arg_litn("l", "lit", 0, m, "g"); break;
            default: tab[i] = arg_rem("r", "g"); break;
        }
    }
    ntab = i;
    tab[i] = en = arg_end(cap);
}
static int count_of(int k, void *e) {
    switch (k) {
        case P_INT: return ((struct arg_int *)e)->count;
        case P_DBL: return ((struct arg_dbl *)e)->count;
        case P_REX: return ((struct arg_rex *)e)->count;
        case P_DATE: return ((struct arg_date *)e)->count;
        case P_STR: return ((struct arg_str *)e)->count;
        case P_FILE: return ((struct arg_file *)e)->count;
        default: return 0;
    }
}
static int holds(int k, void *e, int i, int w, const char *p) {
    switch (k) {
        case P_INT: return ((struct arg_int *)e)->ival[i] == 7;
        case P_DBL: return dbuf[i] == (w == W_7 ? 7.0 : 1.5);
        case P_REX: return ((struct arg_rex *)e)->sval[i] == p;
        case P_DATE: return ((struct arg_date *)e)->tmval[i].tm_mday == 7;
        case P_STR: return ((struct arg_str *)e)->sval[i] == p;
        default: return ((struct arg_file *)e)->filename[i] == p;
    }
}
static void run(int t, int n, const int *w, int cap, int dd) {
    char *argv[8], *kept[8];
    int argc = 0, i, ti = 0, cnt[4], got[4][4], r_n = 0, r_code[5], ret, ended = 0, last = 0;
    void *r_par[5], *lastpar = 0;
    char *r_arg[5];
    long live;
    int first;
    argv[argc++] = "prog";
    if (dd)
        argv[argc++] = "--";
    first = argc;
    for (i = 0; i < n; i++)
        argv[argc++] = text[w[i]];
    argv[argc] = 0;
    for (i = 0; i <= argc; i++)
        kept[i] = argv[i];
    for (i = 0; i < 4; i++)
        cnt[i] = 0;
    /* the reference reading */
    for (i = 0; i < n; i++) {
        int done = 0;
        last = 0;
        while (!ended && !done) {
            if (ti == ntab) {
                ended = 1;
                if (last) {
                    r_code[r_n] = last;
                    r_par[r_n] = lastpar;
                    r_arg[r_n++] = argv[first + i];
                    done = 1;
                }
            } else if (kind[t][ti] == P_LIT || kind[t][ti] == P_REM) {
                ti++;
            } else if (cnt[ti] == most[t][ti]) {
                last = ARG_ERR_MAXCOUNT;
                lastpar = tab[ti];
                ti++;
            } else if (!takes[kind[t][ti]][w[i]]) {
                last = refusal[kind[t][ti]];
                lastpar = tab[ti];
                ti++;
            } else {
                got[ti][cnt[ti]++] = i;
                done = 1;
            }
        }
        if (!done) {
            r_code[r_n] = ARG_ENOMATCH;
            r_par[r_n] = en;
            r_arg[r_n++] = argv[first + i];
        }
    }
    live = vf_live;
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    VF_END();
    VF("C02", ret >= 0, "the parse does not return a number of errors");
    VF("C18", vf_live == live, "parsing leaves memory allocated (or releases memory it does not own)");
    for (i = 0; i <= argc; i++)
        VF("C08", argv[i] == kept[i], "the caller's argument vector is changed by parsing");
    for (i = 0; i < ntab; i++) {
        int k = kind[t][i], j;
        if (k == P_LIT || k == P_REM)
            continue;
        VF("C03", count_of(k, tab[i]) >= 0 && count_of(k, tab[i]) <= most[t][i], "an entry's count is outside 0..maximum");
        VF("C06", count_of(k, tab[i]) == cnt[i], "a positional is lost, invented or given to another entry");
        for (j = 0; j < cnt[i]; j++)
            VF("C06", holds(k, tab[i], j, w[got[i][j]], argv[first + got[i][j]]), "a positional entry does not hold the words given to it in order");
    }
    VF("C05", ret == (r_n < cap ? r_n : cap), "the number of errors differs from the words no entry takes");
    VF("C05", ret == en->count, "the returned number of errors is not the recorded one");
    VF("C06", (ret == 0) == (r_n == 0), "a word no entry takes is not reported, or one that was taken is");
    for (i = 0; i < r_n && i < cap; i++) {
        if (r_n > cap && i == cap - 1) {
            VF("C05", en->error[i] == ARG_ELIMIT && en->parent[i] == en, "an overflowing error list does not end in the overflow marker");
        } else {
            VF("C05", en->error[i] == r_code[i], "a refused positional is recorded with the wrong kind of error");
            VF("C05", en->parent[i] == r_par[i], "a refused positional is attributed to the wrong entry");
            VF("C05", en->argval[i] == r_arg[i], "a refused positional is recorded with the wrong text");
        }
    }
}
// VFSC props=C01,C02,C03,C05,C06,C08,C18 slevel=100000 shards=8
void sc_pos_pairs(void) {
    int t, w[4], cap, dd;
    t = vf_choose(0, NT - 1);
    VF_SHARD(t);
    w[0] = vf_choose(0, NW - 1);
    w[1] = vf_choose(0, NW - 1);
    cap = vf_choose(1, 2);
    dd = cap - 1;
    vf_cid = 10000 * t + 1000 * cap + 100 * dd + 10 * w[0] + w[1];
    build(t, cap);
    run(t, 2, w, cap, dd);
}
// VFSC props=C02,C05,C06 slevel=100000 shards=8
void sc_pos_triples(void) {
    int t, w[4];
    t = vf_choose(0, 6);
    VF_SHARD(t);
    w[0] = vf_choose(0, 4);
    w[1] = vf_choose(0, 4);
    w[2] = vf_choose(0, 4);
    vf_cid = 1000 * t + 100 * w[0] + 10 * w[1] + w[2];
    build(t, 4);
    run(t, 3, w, 4, 0);
}
// VFSC props=C01,C02,C03,C05,C06,C08 slevel=300000 shards=16 tier=thorough
void sc_pos_quads(void) {
    int t, w[4];
    t = vf_choose(0, NT - 1);
    w[0] = vf_choose(0, NW - 1);
    VF_SHARD(w[0] + 6 * t);
    w[1] = vf_choose(0, NW - 1);
    w[2] = vf_choose(0, NW - 1);
    w[3] = vf_choose(0, NW - 1);
    vf_cid = 10000 * t + 1000 * w[0] + 100 * w[1] + 10 * w[2] + w[3];
    build(t, 5);
    run(t, 4, w, 5, 0);
}
