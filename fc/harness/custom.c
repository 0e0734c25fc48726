/* Entries of the caller's own kind: the parser and the printer use an entry
 * only through its header and its four functions.  The functions here record
 * every call; the record is compared with the one the documentation implies. */
#include "vf.h"
#include <string.h>

#define NE 4
struct own {
    struct arg_hdr hdr;
    int id;
};
static struct own e[NE];
static struct arg_end *en;
static void *tab[NE + 1];

#define ML 60
struct ev {
    int what, id, code; /* what: 1 reset, 2 scan, 3 check, 4 error */
    const char *text;
};
static struct ev got[ML], want[ML];
static int ng, nw;
static int chk, alien;
static void put(int what, int id, int code, const char *text) {
    if (ng < ML) {
        got[ng].what = what;
        got[ng].id = id;
        got[ng].code = code;
        got[ng].text = text;
    }
    ng++;
}
static void expect(int what, int id, int code, const char *text) {
    want[nw].what = what;
    want[nw].id = id;
    want[nw].code = code;
    want[nw].text = text;
    nw++;
}
static int idof(void *p) {
    int i;
    for (i = 0; i < NE; i++)
        if (p == (void *)&e[i])
            return i;
    alien = 1;
    return NE;
}
static int verdict(int id, const char *v) { /* what entry id says to a text */
    if (v && v[0] == 'q')
        return id == 1 ? -21 : id == 2 ? 11 : id == 3 ? 12 : 1000000;
    if (v && v[0] == 'r' && id == 2)
        return 13;
    return 0;
}
static int say(int id) { return chk == 1 && id == 1 ? 31 : chk == 1 && id == 3 ? -32 : chk == 2 && id == 0 ? 7 : 0; }
static void my_reset(void *p) { put(1, idof(p), 0, 0); }
static int my_scan(void *p, const char *v) {
    int id = idof(p);
    put(2, id, 0, v);
    return verdict(id, v);
}
static int my_check(void *p) {
    int id = idof(p);
    put(3, id, 0, 0);
    return say(id);
}
static const char prog[] = "prog";
static arg_dstr_t the_ds;
static void my_error(void *p, arg_dstr_t ds, int code, const char *v, const char *pn) {
    put(4, idof(p), code, v);
    VF("C28", ds == the_ds && pn == prog, "an entry's error function is given another string or program name");
}
static const char *const words[8] = {"-a", "-bx", "--bb=q", "p", "q", "r", "--opt", "-o5"};
/* the record of a parse of these words, and the errors */
static int xe_code[20], xe_id[20];
static const char *xe_text[20];
static int nx;
static void xerr(int id, int code, const char *t) {
    xe_id[nx] = id;
    xe_code[nx] = code;
    xe_text[nx] = t;
    nx++;
}
static void model(int argc, char **argv, int mask) {
    int i, id, c, lastc = 0, lasti = 0;
    const char *pos[8];
    int np = 0, k;
    for (i = 0; i < NE; i++)
        if (e[i].hdr.resetfn)
            expect(1, i, 0, 0);
    for (i = 1; i < argc; i++) {
        const char *w = argv[i], *v;
        if (w[0] != '-') {
            pos[np++] = w;
            continue;
        }
        id = w == words[0] ? 0 : w == words[1] || w == words[2] ? 1 : 3;
        v = w == words[1] ? w + 2 : w == words[2] ? w + 5 : w == words[7] ? w + 2 : 0;
        if (e[id].hdr.scanfn) {
            expect(2, id, 0, v);
            c = verdict(id, v);
            if (c)
                xerr(id, c, v);
        }
    }
    for (k = 0; k < np;) {
        id = 2; /* the only positional one */
        if (e[id].hdr.scanfn && !lastc) {
            expect(2, id, 0, pos[k]);
            c = verdict(id, pos[k]);
            if (c == 0) {
                k++;
                continue;
            }
            lastc = c;
            xerr(id, c, pos[k++]);
            continue;
        }
        xerr(NE, ARG_ENOMATCH, pos[k++]);
    }
    if (nx == 0)
        for (i = 0; i < NE; i++)
            if (e[i].hdr.checkfn) {
                expect(3, i, 0, 0);
                if (say(i))
                    xerr(i, say(i), 0);
            }
}
static void same_record(void) {
    int i;
    VF("C28", ng == nw && !alien, "the functions of the entries are called too often, too seldom or for another entry");
    for (i = 0; i < nw && i < ng; i++) {
        VF("C28", got[i].what == want[i].what && got[i].id == want[i].id, "the functions of the entries are called in another order");
        VF("C28", got[i].code == want[i].code && got[i].text == want[i].text, "a function of an entry is given another text or code");
    }
}
static void mk(int mask) {
    int i;
    for (i = 0; i < NE; i++) {
        e[i].id = i;
        e[i].hdr.flag = (char)(i == 1 ? ARG_HASVALUE : i == 3 ? ARG_HASVALUE | ARG_HASOPTVALUE : i == 2 ? ARG_HASVALUE : 0);
        e[i].hdr.shortopts = i == 0 ? "a" : i == 1 ? "b" : i == 3 ? "o" : 0;
        e[i].hdr.longopts = i == 1 ? "bb" : i == 3 ? "opt" : 0;
        e[i].hdr.datatype = "X";
        e[i].hdr.glossary = 0;
        e[i].hdr.mincount = 0;
        e[i].hdr.maxcount = 1; /* the entry's own functions decide, not the limits */
        e[i].hdr.parent = &e[i];
        e[i].hdr.resetfn = mask == 1 && (i & 1) ? 0 : my_reset;
        e[i].hdr.scanfn = (mask == 2 && i == 2) || (mask == 3 && i == 1) ? 0 : my_scan;
        e[i].hdr.checkfn = mask == 1 && i == 1 ? 0 : mask == 3 ? 0 : my_check;
        e[i].hdr.errorfn = mask == 2 && i == 1 ? 0 : my_error;
        e[i].hdr.priv = 0;
        tab[i] = &e[i];
    }
    tab[NE] = en = arg_end(8);
}
// VFSC props=C28 defs="-DVF_FAST" shards=8
void sc_custom(void) {
    int a = vf_choose(0, 7), b = vf_choose(0, 8), c = vf_choose(3, 6), mask = vf_choose(0, 3), i, argc = 1, ret;
    static char *argv[6];
    VF_SHARD(a);
    chk = (a + b + c) % 3;
    vf_cid = 10000 * a + 1000 * b + 100 * c + mask;
    mk(mask);
    argv[0] = "x";
    argv[argc++] = (char *)words[a];
    if (b < 8)
        argv[argc++] = (char *)words[b];
    if (c < 6)
        argv[argc++] = (char *)words[c];
    argv[argc] = 0;
    model(argc, argv, mask);
    VF_BEGIN();
    ret = arg_parse(argc, argv, tab);
    same_record();
    VF("C28", ret == nx && en->count == nx, "what the entries' functions refuse is not what the parse reports");
    for (i = 0; i < nx && i < en->count; i++)
        VF("C28", en->error[i] == xe_code[i] && en->parent[i] == (xe_id[i] == NE ? (void *)en : (void *)&e[xe_id[i]]) && en->argval[i] == xe_text[i],
           "the code of an entry's function is not recorded with its entry and text");
    ng = nw = 0;
    for (i = 0; i < nx; i++)
        if (xe_id[i] < NE && e[xe_id[i]].hdr.errorfn)
            expect(4, xe_id[i], xe_code[i], xe_text[i]);
    the_ds = arg_dstr_create();
    arg_print_errors_ds(the_ds, en, prog);
    same_record();
    VF_END();
}
/* the empty command line, a second parse, and refusals of the check functions */
// VFSC props=C28 defs="-DVF_FAST"
void sc_custom_again(void) {
    int first = vf_choose(0, 8), n = vf_choose(0, 1), mask = vf_choose(0, 3), i, ret;
    static char *argv[4];
    chk = vf_choose(0, 2);
    vf_cid = 1000 * first + 100 * n + 10 * mask + chk;
    mk(mask);
    argv[0] = "x";
    argv[1] = first < 8 ? (char *)words[first] : 0;
    argv[2] = 0;
    VF_BEGIN();
    arg_parse(first < 8 ? 2 : 1, argv, tab);
    ng = nw = nx = 0;
    argv[1] = 0;
    model(n, argv, mask);
    ret = arg_parse(n, argv, tab);
    same_record();
    VF("C28", ret == nx && en->count == nx, "what the entries' functions refuse is not what the parse reports");
    for (i = 0; i < nx && i < en->count; i++)
        VF("C28", en->error[i] == xe_code[i] && en->parent[i] == (void *)&e[xe_id[i]] && en->argval[i] == 0, "the code of an entry's check function is not recorded");
    VF_END();
}
/* what an entry's functions do is the entry's: a code of any size and sign is recorded */
static int any_code;
static int any_scan(void *p, const char *v) { return any_code; }
static int any_check(void *p) { return any_code; }
// VFSC props=C28
void sc_custom_code(void) {
    int how = vf_choose(0, 3), ret, cap = vf_choose(1, 2), k = vf_choose(0, 11);
    static const int codes[12] = {0, 1, -1, 2, 42, 63, 127, 128, 255, 256, 2147483647, -2147483647 - 1};
    static char *argv[4];
    vf_cid = 100 * k + 10 * how + cap;
    mk(0);
    en = arg_end(cap);
    e[0].hdr.shortopts = how == 2 ? 0 : "a";
    e[0].hdr.scanfn = how == 3 ? 0 : any_scan;
    e[0].hdr.checkfn = any_check;
    tab[0] = &e[0];
    tab[1] = en;
    any_code = codes[k];
    argv[0] = "x";
    argv[1] = how == 0 ? "-a" : how == 1 ? "-aa" : how == 2 ? "w" : 0;
    argv[2] = 0;
    VF_BEGIN();
    ret = arg_parse(how == 3 ? 1 : 2, argv, tab);
    if (any_code == 0)
        VF("C28", ret == 0, "an accepted word is reported");
    else if (how == 1 && cap == 1)
        VF("C28", ret == 1 && en->error[0] == ARG_ELIMIT && en->parent[0] == en, "the limit mark is missing");
    else if (how == 1)
        VF("C28", ret == 2 && en->error[0] == any_code && en->error[1] == any_code && en->parent[1] == &e[0], "a code is lost");
    else
        VF("C28", ret == 1 && en->error[0] == any_code && en->parent[0] == &e[0], "a code of an entry's function is not recorded as it is");
    VF_END();
}
