/* Command registry and its hash table, against a reference map. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NN 6
/* 0 and 1 have equal hash values, 2 shares their bucket, 3 is a prefix of 4 */
static const char *const names[NN] = {"ab", "bA", "cd", "x", "xy", ""};
static const char *const descs[3] = {"first", "second, longer description", ""};

static int called, got_argc;
static char **got_argv;
static void *got_ctx;
static arg_dstr_t got_res;
static int p0(int argc, char *argv[], arg_dstr_t res, void *ctx) {
    called = called * 10 + 1;
    got_argc = argc; got_argv = argv; got_res = res; got_ctx = ctx;
    return 40;
}
static int p1(int argc, char *argv[], arg_dstr_t res, void *ctx) {
    called = called * 10 + 2;
    got_argc = argc; got_argv = argv; got_res = res; got_ctx = ctx;
    return -3;
}
static int ctxs[4];
static int r_gen[NN]; /* 0 = absent, else generation + 1 of the latest registration */
static int gen;
static arg_cmdfn *proc_of(int g) { return g & 1 ? p1 : p0; }
static void reg(int i) {
    arg_cmd_register(names[i], proc_of(gen), descs[gen % 3], &ctxs[gen % 4]);
    r_gen[i] = ++gen;
}
static void unreg(int i) {
    arg_cmd_unregister(names[i]);
    r_gen[i] = 0;
}
static void look(int i) {
    arg_cmd_info_t *c = arg_cmd_info(names[i]);
    if (r_gen[i] == 0) {
        VF("C16", c == 0, "a command that is not registered is found");
        return;
    }
    VF("C16", c != 0, "a registered command is not found");
    if (c) {
        int g = r_gen[i] - 1;
        VF("C16", strcmp(c->name, names[i]) == 0 && strcmp(c->description, descs[g % 3]) == 0 && c->proc == proc_of(g) && c->ctx == &ctxs[g % 4],
           "a command's entry is not what was last registered under its name");
    }
}
static void judge(void) {
    int i, n = 0, seen[NN];
    arg_cmd_itr_t it;
    for (i = 0; i < NN; i++) {
        look(i);
        seen[i] = 0;
        if (r_gen[i])
            n++;
    }
    VF("C16", arg_cmd_count() == (unsigned)n, "the number of commands is wrong");
    if (n) {
        int steps = 0, more = 1;
        it = arg_cmd_itr_create();
        while (more && steps <= n) {
            char *k = arg_cmd_itr_key(it);
            arg_cmd_info_t *v = arg_cmd_itr_value(it);
            VF("C16", strcmp(k, v->name) == 0, "iteration pairs a name with another command");
            for (i = 0; i < NN; i++)
                if (strcmp(k, names[i]) == 0) {
                    VF("C16", r_gen[i] && arg_cmd_info(names[i]) == v, "iteration shows a command that is not the registered one");
                    seen[i]++;
                }
            steps++;
            more = arg_cmd_itr_advance(it);
        }
        VF("C16", steps == n, "iteration does not visit every command exactly once");
        for (i = 0; i < NN; i++)
            VF("C16", seen[i] == (r_gen[i] != 0), "iteration does not visit every command exactly once");
        for (i = 0; i < NN; i++)
            if (arg_cmd_itr_search(it, (void *)names[i])) {
                VF("C16", r_gen[i] != 0, "an iterator is placed on a command that is not registered");
                VF("C16", strcmp(arg_cmd_itr_key(it), names[i]) == 0 && arg_cmd_itr_value(it) == arg_cmd_info(names[i]), "an iterator is placed on another command than the one asked for");
            } else
                VF("C16", r_gen[i] == 0, "an iterator search does not find a registered command");
        arg_cmd_itr_destroy(it);
    }
}
static void dispatch_all(void) {
    int i;
    char *av[2];
    arg_dstr_t res = arg_dstr_create();
    av[0] = "w";
    av[1] = 0;
    for (i = 0; i < NN; i++)
        if (r_gen[i]) {
            int g = r_gen[i] - 1, r;
            called = 0;
            r = arg_cmd_dispatch(names[i], 1, av, res);
            VF("C16", called == (g & 1 ? 2 : 1) && r == (g & 1 ? -3 : 40), "dispatch does not call the registered function once, or loses its result");
            VF("C16", got_argc == 1 && got_argv == av && got_res == res && got_ctx == &ctxs[g % 4], "dispatch does not pass the caller's arguments on");
        }
    arg_dstr_destroy(res);
}
static void op(int o) {
    if (o < NN)
        reg(o);
    else
        unreg(o - NN);
}
static void after(long live) {
    judge();
    dispatch_all();
    arg_cmd_uninit();
    VF("C18", vf_live == live, "the registry leaves memory behind");
    VF_END();
}
// VFSC props=C16,C18 defs="-DVF_FAST" shards=8
void sc_cmd3(void) {
    int a = vf_choose(0, 2), b = vf_choose(0, 2 * NN - 1), c = vf_choose(0, 8);
    VF_SHARD(b + a);
    vf_cid = 10000 * a + 100 * b + c;
    VF_BEGIN();
    arg_cmd_init();
    op(a);
    op(b);
    if (c >= 3) /* (un)register one of the colliding names or "x" */
        op(c == 3 ? NN : c == 4 ? NN + 1 : c == 5 ? NN + 2 : c == 6 ? 3 : c == 7 ? NN + 3 : NN + 5);
    else
        op(c);
    after(0);
}
/* three colliding names in a chain, then one of them replaced or removed, then another */
// VFSC props=C16 defs="-DVF_FAST" shards=4
void sc_cmd_chain(void) {
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    int p = vf_choose(0, 5), a = vf_choose(0, 2), b = vf_choose(0, 5);
    VF_SHARD(p);
    vf_cid = 100 * p + 10 * a + b;
    VF_BEGIN();
    arg_cmd_init();
    reg(perm[p][0]);
    reg(perm[p][1]);
    reg(perm[p][2]);
    unreg(a);
    if (b < 3)
        reg(b);
    else
        unreg(b - 3);
    after(0);
}
// VFSC props=C16 defs="-DVF_FAST" shards=16 tier=thorough
void sc_cmd4(void) {
    int a = vf_choose(0, 5), b = vf_choose(0, 2 * NN - 1), c = vf_choose(0, 2 * NN - 1), d = vf_choose(0, 2 * NN - 1);
    VF_SHARD(b + a + c);
    vf_cid = 1000000 * a + 10000 * b + 100 * c + d;
    VF_BEGIN();
    arg_cmd_init();
    op(a);
    op(b);
    op(c);
    op(d);
    after(0);
}
/* names and descriptions of the greatest admissible length */
// VFSC props=C16 defs="-DVF_FAST"
void sc_cmd_longest(void) {
    static char nm[ARG_CMD_NAME_LEN], de[ARG_CMD_DESCRIPTION_LEN];
    int i, n = vf_choose(0, 2), d = vf_choose(0, 2);
    arg_cmd_info_t *c;
    vf_cid = 10 * n + d;
    n = n == 0 ? 1 : n == 1 ? ARG_CMD_NAME_LEN - 2 : ARG_CMD_NAME_LEN - 1;
    d = d == 0 ? 1 : d == 1 ? ARG_CMD_DESCRIPTION_LEN - 2 : ARG_CMD_DESCRIPTION_LEN - 1;
    for (i = 0; i < n; i++)
        nm[i] = 'n';
    for (i = 0; i < d; i++)
        de[i] = 'd';
    VF_BEGIN();
    arg_cmd_init();
    arg_cmd_register(nm, p0, de, 0);
    c = arg_cmd_info(nm);
    VF("C16", c && strcmp(c->name, nm) == 0 && strcmp(c->description, de) == 0, "a long name or description is not kept");
    VF("C16", arg_cmd_info("n") == (n == 1 ? c : 0), "a name is found by its beginning");
    VF_END();
}
/* long names that differ in few characters, some with equal hashes */
static char ln[4][ARG_CMD_NAME_LEN];
// VFSC props=C16 defs="-DVF_FAST" shards=4
void sc_cmd_alike(void) {
    static const int N[8] = {8, 15, 16, 31, 40, 63, 64, ARG_CMD_NAME_LEN - 1};
    int k = vf_choose(0, 7), where = vf_choose(0, 2), i, j, n, at;
    arg_cmd_itr_t it;
    arg_cmd_info_t *c;
    VF_SHARD(k);
    vf_cid = 10 * k + where;
    n = N[k];
    at = where == 0 ? 0 : where == 1 ? n / 2 : n - 2;
    for (j = 0; j < 4; j++) {
        for (i = 0; i < n; i++)
            ln[j][i] = 'a';
        ln[j][n] = 0;
    }
    ln[0][at] = 'b'; /* 33 * 'b' + 'A' == 33 * 'a' + 'b' */
    ln[0][at + 1] = 'A';
    ln[1][at + 1] = 'b';
    ln[2][at] = 'B';
    ln[3][n - 1] = 0; /* the beginning of all of them */
    VF_BEGIN();
    arg_cmd_init();
    for (j = 0; j < 4; j++) {
        VF("C16", arg_cmd_info(ln[j]) == 0, "a name is taken for a similar one");
        arg_cmd_register(ln[j], j & 1 ? p1 : p0, descs[j % 3], &ln[j]);
    }
    VF("C16", arg_cmd_count() == 4, "similar names are taken for the same");
    for (j = 0; j < 4; j++) {
        c = arg_cmd_info(ln[j]);
        VF("C16", c && strcmp(c->name, ln[j]) == 0 && c->ctx == &ln[j] && c->proc == (j & 1 ? p1 : p0), "a name is taken for a similar one");
        it = arg_cmd_itr_create();
        VF("C16", arg_cmd_itr_search(it, ln[j]) && arg_cmd_itr_value(it) == c && strcmp(arg_cmd_itr_key(it), ln[j]) == 0, "positioning an iterator finds a similar name");
        arg_cmd_itr_destroy(it);
    }
    arg_cmd_unregister(ln[1]);
    VF("C16", arg_cmd_count() == 3 && arg_cmd_info(ln[1]) == 0 && arg_cmd_info(ln[0]) && arg_cmd_info(ln[2]) && arg_cmd_info(ln[3]), "unregistering removes a similar name");
    VF_END();
}
/* growth of the table */
static char many[72][4];
static void grow(int n) {
    int i, bad = 0;
    arg_cmd_itr_t it;
    arg_cmd_init();
    for (i = 0; i < n; i++) {
        many[i][0] = 'k';
        many[i][1] = (char)('a' + i / 9);
        many[i][2] = (char)('p' + i % 9);
        many[i][3] = 0;
        arg_cmd_register(many[i], i & 1 ? p1 : p0, "d", &many[i]);
        VF("C16", arg_cmd_count() == (unsigned)(i + 1), "the number of commands is wrong while the table grows");
    }
    for (i = 0; i < n; i++) {
        arg_cmd_info_t *c = arg_cmd_info(many[i]);
        VF("C16", c && c->ctx == &many[i] && c->proc == (i & 1 ? p1 : p0), "a command is lost or changed when the table grows");
    }
    it = arg_cmd_itr_create();
    for (i = 1; i <= n + 1; i++)
        if (!arg_cmd_itr_advance(it))
            break;
    VF("C16", i == n, "iteration does not visit every command exactly once after growth");
    arg_cmd_itr_destroy(it);
    for (i = 0; i < n; i += 3)
        arg_cmd_unregister(many[i]);
    for (i = 0; i < n; i++)
        VF("C16", (arg_cmd_info(many[i]) != 0) == (i % 3 != 0), "unregistering after growth removes the wrong commands");
    VF("C16", arg_cmd_count() == (unsigned)(n - (n + 2) / 3), "the number of commands is wrong after growth");
    arg_cmd_uninit();
    VF("C18", vf_live == 0, "the grown registry leaves memory behind");
}
// VFSC props=C16,C18 defs="-DVF_FAST"
void sc_cmd_grow(void) {
    vf_cid = vf_choose(34, 37);
    VF_BEGIN();
    grow(vf_cid);
    VF_END();
}
// VFSC props=C16 defs="-DVF_FAST" tier=thorough
void sc_cmd_grow2(void) {
    vf_cid = vf_choose(62, 70);
    VF_BEGIN();
    grow(vf_cid);
    VF_END();
}

/* one or two entries, in every bucket of the table */
static unsigned own_hash(const void *k) { return *(const unsigned *)k; }
static int own_same(const void *a, const void *b) { return *(const unsigned *)a == *(const unsigned *)b; }
static void bucket(unsigned hv, int two) {
    arg_hashtable_t *h = arg_hashtable_create(32, own_hash, own_same);
    arg_hashtable_itr_t *it;
    unsigned *k = malloc(sizeof *k), *k2 = 0;
    int n = two ? 2 : 1, s = 0, seen1 = 0, seen2 = 0;
    char *v = malloc(1), *v2 = 0;
    unsigned q = hv;
    *k = hv;
    arg_hashtable_insert(h, k, v);
    if (two) {
        k2 = malloc(sizeof *k2);
        v2 = malloc(1);
        *k2 = hv * 7u + 29u;
        arg_hashtable_insert(h, k2, v2);
    }
    VF("C16", arg_hashtable_search(h, &q) == v && arg_hashtable_count(h) == (unsigned)n, "an entry of the hash table is not found");
    it = arg_hashtable_itr_create(h);
    do {
        unsigned *kk = arg_hashtable_itr_key(it);
        if (kk == k) {
            VF("C16", arg_hashtable_itr_value(it) == v, "hash table iteration pairs key and value wrongly");
            seen1++;
        } else {
            VF("C16", kk == k2 && arg_hashtable_itr_value(it) == v2, "hash table iteration pairs key and value wrongly");
            seen2++;
        }
        s++;
    } while (s <= n && arg_hashtable_itr_advance(it));
    VF("C16", s == n && seen1 == 1 && seen2 == two, "hash table iteration misses or repeats entries");
    arg_hashtable_itr_destroy(it);
    if (two) {
        it = arg_hashtable_itr_create(h);
        VF("C16", arg_hashtable_itr_search(it, h, &q) && arg_hashtable_itr_key(it) == k, "iterator search misses an entry");
        arg_hashtable_itr_remove(it);
        arg_hashtable_itr_destroy(it);
        VF("C16", arg_hashtable_search(h, &q) == 0 && arg_hashtable_count(h) == 1, "an entry removed through an iterator stays");
        q = *k2;
        VF("C16", arg_hashtable_search(h, &q) == v2, "removing an entry through an iterator removes another");
    }
    arg_hashtable_destroy(h, 1);
    VF("C18", vf_live == 0, "the hash table leaves memory behind");
}
/* growth through several sizes of the table */
static unsigned kk[140], vv[140];
// VFSC props=C16,C18 defs="-DVF_FAST" slevel=300000 shards=6
void sc_hash_grow(void) {
    static const int N[6] = {35, 63, 64, 70, 126, 130};
    int c = vf_choose(0, 5), spread = vf_choose(0, 2), n, i, s, dup = 0, seen[140];
    arg_hashtable_t *h;
    arg_hashtable_itr_t *it;
    VF_SHARD(c);
    vf_cid = 10 * c + spread;
    n = N[c];
    VF_BEGIN();
    h = arg_hashtable_create(spread == 2 ? 60 : 1, own_hash, own_same);
    for (i = 0; i < n; i++) {
        unsigned *k = malloc(sizeof *k);
        char *v = malloc(2);
        *k = spread == 0 ? (unsigned)i : spread == 1 ? (unsigned)i * 53u : (unsigned)i * 2654435761u;
        v[0] = (char)(i % 100);
        v[1] = (char)(i / 100);
        arg_hashtable_insert(h, k, v);
        kk[i] = *k;
        seen[i] = 0;
        VF("C16", arg_hashtable_count(h) == (unsigned)(i + 1), "the number of entries is wrong while the table grows");
    }
    for (i = 0; i < n; i++) {
        char *v = arg_hashtable_search(h, &kk[i]);
        VF("C16", v && v[0] == i % 100 && v[1] == i / 100, "an entry is lost or changed when the table grows");
    }
    it = arg_hashtable_itr_create(h);
    s = 0;
    do {
        unsigned *k = arg_hashtable_itr_key(it);
        char *v = arg_hashtable_itr_value(it);
        int id = v[0] + 100 * v[1];
        if (id < 0 || id >= n || seen[id] || *k != kk[id])
            dup = 1;
        else
            seen[id] = 1;
        s++;
    } while (s <= n && arg_hashtable_itr_advance(it));
    VF("C16", s == n && !dup, "iteration does not visit every entry exactly once after growth");
    arg_hashtable_itr_destroy(it);
    for (i = 0; i < n; i += 2) {
        arg_hashtable_remove(h, &kk[i]);
    }
    for (i = 0; i < n; i++)
        VF("C16", (arg_hashtable_search(h, &kk[i]) != 0) == (i & 1), "removing after growth removes the wrong entry");
    VF("C16", arg_hashtable_count(h) == (unsigned)(n / 2), "the number of entries is wrong after growth");
    arg_hashtable_destroy(h, 1);
    VF("C18", vf_live == 0, "the grown table leaves memory behind");
    VF_END();
}
// VFSC props=C16,C18 defs="-DVF_FAST" shards=8
void sc_hash_buckets(void) {
    int hv = vf_choose(0, 219), two = vf_choose(0, 1);
    VF_SHARD(hv);
    if (two && hv >= 100)
        vf_stop();
    vf_cid = 10 * hv + two;
    VF_BEGIN();
    bucket((unsigned)hv, two);
    VF_END();
}

/* ---- the hash table by itself: every key in one chain ---- */
static unsigned one_hash(const void *k) { return 7; }
static unsigned two_hash(const void *k) { return *(const char *)k & 1; }
static int same(const void *a, const void *b) { return *(const char *)a == *(const char *)b; }
static arg_hashtable_t *h;
static void *r_v[4];
static char key(int i) { return (char)('a' + i); }
static void h_insert(int i) {
    char *k = malloc(1), *v = malloc(1);
    if (r_v[i]) {
        free(k);
        free(v);
        return;
    }
    *k = key(i);
    *v = key(i);
    arg_hashtable_insert(h, k, v);
    r_v[i] = v;
}
static void h_remove(int i) {
    char k = key(i);
    r_v[i] = 0;
    arg_hashtable_remove(h, &k);
}
static void h_judge(void) {
    int i, n = 0, s = 0;
    arg_hashtable_itr_t *it;
    for (i = 0; i < 4; i++) {
        char k = key(i);
        VF("C16", arg_hashtable_search(h, &k) == r_v[i], "the hash table does not hold what was put in");
        if (r_v[i])
            n++;
    }
    VF("C16", arg_hashtable_count(h) == (unsigned)n, "the hash table's count is wrong");
    it = arg_hashtable_itr_create(h);
    if (n)
        do {
            char *k = arg_hashtable_itr_key(it);
            VF("C16", arg_hashtable_itr_value(it) == r_v[*k - 'a'], "hash table iteration pairs key and value wrongly");
            s++;
        } while (s <= n && arg_hashtable_itr_advance(it));
    VF("C16", s == n, "hash table iteration misses or repeats entries");
    arg_hashtable_itr_destroy(it);
}
// VFSC props=C16,C18 defs="-DVF_FAST" shards=8
void sc_hash_chain(void) {
    int n = vf_choose(1, 4), hf = vf_choose(0, 1), at = vf_choose(0, 3), what = vf_choose(0, 4), i;
    VF_SHARD(n + at + what);
    vf_cid = 1000 * n + 100 * hf + 10 * at + what;
    VF_BEGIN();
    h = arg_hashtable_create(0, hf ? two_hash : one_hash, same);
    for (i = 0; i < n; i++)
        h_insert(i);
    h_judge();
    switch (what) {
        case 0: h_remove(at); break;
        case 1: /* remove through an iterator placed by search */
            {
                char k = key(at);
                arg_hashtable_itr_t *it = arg_hashtable_itr_create(h);
                if (arg_hashtable_itr_search(it, h, &k)) {
                    int more;
                    VF("C16", r_v[at] != 0, "iterator search finds an absent key");
                    r_v[at] = 0;
                    more = arg_hashtable_itr_remove(it);
                    if (more)
                        VF("C16", arg_hashtable_itr_value(it) == r_v[*(char *)arg_hashtable_itr_key(it) - 'a'] && *(char *)arg_hashtable_itr_key(it) != k,
                           "removal leaves the iterator on a wrong entry");
                } else
                    VF("C16", r_v[at] == 0, "iterator search misses a present key");
                arg_hashtable_itr_destroy(it);
            }
            break;
        case 2: /* remove the at-th entry met, then all others through the same iterator */
            {
                arg_hashtable_itr_t *it = arg_hashtable_itr_create(h);
                int j = 0, more = 1;
                while (more && j < 6) {
                    char k = *(char *)arg_hashtable_itr_key(it);
                    if (j >= at) {
                        VF("C16", r_v[k - 'a'] != 0, "an entry is met twice");
                        r_v[k - 'a'] = 0;
                        more = arg_hashtable_itr_remove(it);
                    } else
                        more = arg_hashtable_itr_advance(it);
                    j++;
                }
                VF("C16", j == n, "removal while iterating skips or repeats entries");
                arg_hashtable_itr_destroy(it);
            }
            break;
        case 3: /* change a value */
            {
                char k = key(at), *v = malloc(1);
                int present = r_v[at] != 0;
                *v = 'z';
                if (arg_hashtable_change(h, &k, v)) {
                    VF("C16", present, "an absent key is changed");
                    r_v[at] = v;
                } else {
                    VF("C16", !present, "a present key cannot be changed");
                    free(v);
                }
            }
            break;
        default: /* remove and insert again */
            h_remove(at);
            h_judge();
            h_insert(at);
            break;
    }
    h_judge();
    h_insert(0);
    h_remove(1);
    h_judge();
    if (at & 1) {
        arg_hashtable_destroy(h, 1);
    } else {
        arg_hashtable_destroy(h, 0);
        for (i = 0; i < 4; i++)
            if (r_v[i])
                free(r_v[i]);
    }
    VF("C18", vf_live == 0, "the hash table leaves memory behind");
    VF_END();
}

/* ---- help and error messages ---- */
static char rb[1500];
static unsigned rn;
static void r_s(const char *s) { strcpy(rb + rn, s); rn += (unsigned)strlen(s); }
static void r_help(int registered, const char *mod) {
    if (registered)
        r_s("cmd: does things\n");
    r_s("Usage:\n  ");
    r_s(mod);
    r_s(" [-h|--help] <file>\n \nAvailable options:\n");
    r_s("  -h, --help              show help\n");
    r_s("  <file>                  input\n\n");
}
static void r_errs(int n, const char *mod) {
    if (n) {
        r_s(mod);
        r_s(": invalid option \"-z\"\n");
    }
    if (n > 1) {
        r_s(mod);
        r_s(": invalid option \"--zap\"\n");
    }
    r_s("Usage: \n  ");
    r_s(mod);
    r_s(" [-h|--help] <file>\n\n");
}
// VFSC props=C22 defs="-DVF_FAST" shards=4
void sc_help(void) {
    void *tab[3];
    struct arg_lit *hl;
    struct arg_end *en;
    int help = vf_choose(-1, 2), ner = vf_choose(0, 2), named = vf_choose(0, 2), registered = vf_choose(0, 1);
    int r, code, nerr;
    const char *mod = named == 1 ? "tool" : "<name>";
    char *av[6];
    arg_dstr_t ds;
    VF_SHARD(help + 1);
    vf_cid = 1000 * (help + 1) + 100 * ner + 10 * named + registered;
    tab[0] = hl = arg_litn("h", "help", 0, 1, "show help");
    tab[1] = arg_filen(0, 0, 0, 1, 1, "input");
    tab[2] = en = arg_end(4);
    av[0] = "x";
    av[1] = "f";
    av[2] = ner > 0 ? "-z" : 0;
    av[3] = ner > 1 ? "--zap" : 0;
    av[4] = 0;
    nerr = arg_parse(2 + ner, av, tab);
    rn = 0;
    rb[0] = 0;
    VF_BEGIN();
    if (named)
        arg_set_module_name(named == 1 ? "tool" : "");
    arg_cmd_init();
    arg_cmd_register(registered ? "cmd" : "other", p0, "does things", 0);
    ds = arg_dstr_create();
    arg_dstr_cat(ds, "<");
    rb[0] = '<';
    rb[1] = 0;
    rn = 1;
    code = 77;
    r = arg_make_syntax_err_help_msg(ds, "cmd", help, nerr, tab, en, &code);
    if (help > 0) {
        r_help(registered, mod);
        VF("C22", r != 0 && code == 0, "asking for help is not answered with success");
    } else if (ner > 0) {
        r_errs(ner, mod);
        VF("C22", r != 0 && code == 1, "errors are not answered with failure");
    } else
        VF("C22", r == 0 && code == 77, "a message is produced or an exit code set without help or errors");
    VF("C22", strcmp(arg_dstr_cstr(ds), rb) == 0, "the help or error message is not exact");
    arg_dstr_reset(ds);
    rn = 0;
    rb[0] = 0;
    arg_make_help_msg(ds, "cmd", tab);
    r_help(registered, mod);
    VF("C22", strcmp(arg_dstr_cstr(ds), rb) == 0, "the help message is not exact");
    arg_dstr_reset(ds);
    rn = 0;
    rb[0] = 0;
    arg_make_syntax_err_msg(ds, tab, en);
    r_errs(ner, mod);
    VF("C22", strcmp(arg_dstr_cstr(ds), rb) == 0, "the error message is not exact");
    arg_dstr_destroy(ds);
    VF("C22", vf_printed == 0 && vf_exited == 0, "building a message prints or exits");
    VF_END();
}
// VFSC props=C22,C18 defs="-DVF_FAST"
void sc_version(void) {
    arg_dstr_t ds = arg_dstr_create();
    int v = vf_choose(0, 4);
    vf_cid = v;
    rn = 0;
    rb[0] = 0;
    VF_BEGIN();
    switch (v) {
        case 0:
            r_s("<name> v0.0.0.0\nPlease type '<name> help' to get more information.\n");
            break;
        case 1:
            arg_set_module_name("tool");
            r_s("tool v0.0.0.0\nPlease type 'tool help' to get more information.\n");
            break;
        case 2:
            arg_set_module_name("tool");
            arg_set_module_version(1, 20, 3, "beta");
            r_s("tool v1.20.3.beta\nPlease type 'tool help' to get more information.\n");
            break;
        case 3: /* set again: the last one counts and the first is released */
            arg_set_module_name("a longer name");
            arg_set_module_version(10, 0, 2147483647, "");
            arg_set_module_name("t");
            arg_set_module_version(0, 1, 2, "x");
            r_s("t v0.1.2.x\nPlease type 't help' to get more information.\n");
            break;
        default:
            arg_set_module_version(7, 8, 2147483647, "a-rather-long-tag-for-a-version-number-of-a-module");
            r_s("<name> v7.8.2147483647.a-rather-long-tag-for-a-version-number-of-a-module\nPlease type '<name> help' to get more information.\n");
            break;
    }
    arg_make_get_help_msg(ds);
    VF("C22", strcmp(arg_dstr_cstr(ds), rb) == 0, "the name and version message is not exact");
    arg_dstr_destroy(ds);
    if (v == 0)
        VF("C18", vf_live == 0, "the name and version message leaves memory behind");
    VF_END();
}
/* set a second time: the last name and version count, the first leave nothing behind */
// VFSC props=C22,C18 defs="-DVF_FAST" shards=4
void sc_version_again(void) {
    static const char *const tags[7] = {"beta", "bet", "b", "", "eta", "betab", "2.3"};
    static const char *const mods[5] = {"tool", "too", "tools", "", "ool"};
    int a = vf_choose(0, 1), b = vf_choose(0, 1), c = vf_choose(0, 1), t = vf_choose(0, 6), m = (a + 2 * b + 4 * c + t) % 5;
    long l1, l2, l3;
    arg_dstr_t ds;
    VF_SHARD(t);
    vf_cid = 10000 * a + 1000 * b + 100 * c + 10 * t + m;
    rn = 0;
    rb[0] = 0;
    VF_BEGIN();
    arg_set_module_name("tool");
    arg_set_module_version(1, 2, 3, "beta");
    ds = arg_dstr_create();
    arg_make_get_help_msg(ds);
    VF("C22", strcmp(arg_dstr_cstr(ds), "tool v1.2.3.beta\nPlease type 'tool help' to get more information.\n") == 0, "the name and version message is not exact");
    arg_dstr_destroy(ds);
    arg_set_module_name(mods[m]);
    arg_set_module_version(a ? 4 : 1, b ? 5 : 2, c ? 6 : 3, tags[t]);
    ds = arg_dstr_create();
    arg_make_get_help_msg(ds);
    r_s(m == 3 ? "<name>" : mods[m]);
    r_s(" v");
    r_s(a ? "4." : "1.");
    r_s(b ? "5." : "2.");
    r_s(c ? "6." : "3.");
    r_s(tags[t]);
    r_s("\nPlease type '");
    r_s(m == 3 ? "<name>" : mods[m]);
    r_s(" help' to get more information.\n");
    VF("C22", strcmp(arg_dstr_cstr(ds), rb) == 0, "the name and version message does not show the last ones set");
    arg_dstr_destroy(ds);
    l1 = vf_live;
    arg_set_module_version(a ? 4 : 1, b ? 5 : 2, c ? 6 : 3, tags[t]);
    l2 = vf_live;
    arg_set_module_name(mods[m]);
    l3 = vf_live;
    VF("C18", l1 == l2 && l2 == l3, "a module name or version set before is not released");
    VF_END();
}
/* a name registered again with the same or another function, description and context */
// VFSC props=C16,C18 defs="-DVF_FAST" shards=4
void sc_cmd_again(void) {
    static const char *const ds0[5] = {"first", "firs", "first one", "", "tsrif"};
    int f = vf_choose(0, 1), d = vf_choose(0, 4), x = vf_choose(0, 2), n = vf_choose(0, 2), r, r0;
    void *ctx = x == 0 ? (void *)&ctxs[0] : x == 1 ? (void *)&ctxs[1] : (void *)0;
    char *av[3];
    arg_cmd_info_t *c;
    arg_dstr_t res;
    VF_SHARD(d);
    vf_cid = 1000 * f + 100 * d + 10 * x + n;
    av[0] = "w";
    av[1] = "v";
    av[2] = 0;
    VF_BEGIN();
    arg_cmd_init();
    arg_cmd_register(names[n], p0, ds0[0], &ctxs[0]);
    if (n < 2)
        arg_cmd_register(names[1 - n], p0, ds0[0], &ctxs[0]);
    arg_cmd_register(names[n], f ? p1 : p0, ds0[d], ctx);
    c = arg_cmd_info(names[n]);
    VF("C16", c != 0 && strcmp(c->name, names[n]) == 0 && strcmp(c->description, ds0[d]) == 0 && c->proc == (f ? p1 : p0) && c->ctx == ctx,
       "a command registered again is not what was last registered");
    VF("C16", arg_cmd_count() == (n < 2 ? 2u : 1u), "the number of commands is wrong");
    res = arg_dstr_create();
    called = 0;
    r = arg_cmd_dispatch(names[n], 2, av, res);
    VF("C16", called == (f ? 2 : 1) && r == (f ? -3 : 40) && got_argc == 2 && got_argv == av && got_res == res && got_ctx == ctx,
       "dispatch does not call the function last registered with its context");
    if (n < 2) {
        called = 0;
        r0 = arg_cmd_dispatch(names[1 - n], 2, av, res);
        VF("C16", called == 1 && r0 == 40 && got_ctx == &ctxs[0], "registering a command again changes another");
    }
    arg_dstr_destroy(res);
    arg_cmd_uninit();
    VF("C18", vf_live == 0, "the registry leaves memory behind");
    VF_END();
}
