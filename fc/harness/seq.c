/* Command lines as sequences of token kinds, against a reference reading of
 * the table.  Positional text, unknown options and option values are classes
 * of texts (abstract characters), not samples. */
#include "vf.h"
#include <string.h>

/* ---- the table ---- */
static struct arg_lit *la, *linc;
static struct arg_int *ii;
static struct arg_str *ss, *ps;
static struct arg_file *pf;
static struct arg_rem *rm;
static struct arg_end *en;
static void *tab[8];
enum { E_A, E_INC, E_I, E_S, E_PF, E_PS, NE };
static int emax[NE] = {2, 1, 1, 2, 2, 1};
static int emin[NE];

static void mk_table(int capacity) {
    tab[0] = la = arg_litn("aA", "al,am", 0, 2, "lit");
    tab[1] = linc = arg_litn(0, "inc", 0, 1, "lit");
    tab[2] = ii = arg_intn("i", "int", 0, 0, 1, "int");
    tab[3] = rm = arg_rem("rem", "remark");
    tab[4] = ss = arg_strn("s", "str", 0, 0, 2, "optional value");
    ss->hdr.flag |= ARG_HASOPTVALUE;
    tab[5] = pf = arg_filen(0, 0, 0, 0, 2, "files");
    tab[6] = ps = arg_strn(0, 0, 0, 0, 1, "rest");
    tab[7] = en = arg_end(capacity);
}

/* ---- texts that stand for classes ---- */
static char t_x[3];  /* positional, first char anything but '-' and what starts a number; any second char */
static char t_sx[4]; /* -s<any> */
static char t_sv[8]; /* --str=<any char> */
static char t_vx[4]; /* -i<not a number> */
static void mk_texts(void) {
    char c = vf_anychar(), d = vf_anychar();
    if (d == '/' || d == '.')
        d = 'y';
    if (c == '/' || c == '.' || c == '-' || c == '+' || c == ' ' || (c >= 9 && c <= 13) || (c >= '0' && c <= '9'))
        c = 'x';
    t_x[0] = c; t_x[1] = d; t_x[2] = 0;
    t_sx[0] = '-'; t_sx[1] = 's'; t_sx[2] = d; t_sx[3] = 0;
    t_sv[0] = '-'; t_sv[1] = '-'; t_sv[2] = 's'; t_sv[3] = 't'; t_sv[4] = 'r'; t_sv[5] = '='; t_sv[6] = d; t_sv[7] = 0;
    t_vx[0] = '-'; t_vx[1] = 'i'; t_vx[2] = c; t_vx[3] = 0;
}

enum {
    K_a, K_alpha, K_cluster, K_x, K_i, K_i7, K_int, K_s, K_dd, K_bad, /* 0..9: core */
    K_dash, K_inteq, K_sx, K_str, K_streq, K_7, K_badlong, K_abbrev, K_ambig, K_ai7, K_az, K_litval, K_intempty, K_ibad, K_empty,
    K_exact, NK
};
static const char *const text[NK] = {
    "-a", "--al", "-aA", t_x, "-i", "-i7", "--int", "-s", "--", "-z",
    "-", "--int=7", t_sx, "--str", t_sv, "7", "--zap", "--a", "--in", "-ai7", "-az", "--al=x", "--int=", t_vx, "",
    "--inc"};

/* ---- reference ---- */
static int r_cnt[NE];
static const char *r_val[NE][2];
static int r_n, r_cap;             /* errors seen, capacity */
static int r_code[4];
static void *r_par[4];
static const char *r_arg[4];
static void *ent(int e) {
    switch (e) {
        case E_A: return la;
        case E_INC: return linc;
        case E_I: return ii;
        case E_S: return ss;
        case E_PF: return pf;
        default: return ps;
    }
}
static void r_err(void *par, int code, const char *arg) {
    if (r_n < r_cap) {
        r_code[r_n] = code;
        r_par[r_n] = par;
        r_arg[r_n] = arg;
    } else {
        r_code[r_cap - 1] = ARG_ELIMIT;
        r_par[r_cap - 1] = en;
        r_arg[r_cap - 1] = 0;
    }
    r_n++;
}
static int r_excess; /* bitmask of entries with an excess occurrence */
/* store one occurrence; 0 if there was room */
static int r_store(int e, const char *v, int report) {
    if (r_cnt[e] < emax[e]) {
        r_val[e][r_cnt[e]++] = v;
        return 0;
    }
    if (report) {
        r_excess |= 1 << e;
        r_err(ent(e), ARG_ERR_MAXCOUNT, v);
    }
    return ARG_ERR_MAXCOUNT;
}
static void r_int(const char *v, int number) {
    if (r_cnt[E_I] < emax[E_I] && !number)
        r_err(ii, ARG_ERR_BADINT, v);
    else
        r_store(E_I, v, 1);
}
static int is_number(int k) { return k == K_7; }

static void reference(int n, const int *k, char **argv, int posix) {
    const char *pos[8];
    int np = 0, j, only_pos = 0, nopt = 0, i;
    int e, errlast = 0;
    void *parlast = 0;
    const char *arglast = 0;
    for (j = 0; j < n; j++) {
        char *t = argv[1 + j];
        if (only_pos) {
            pos[np++] = t;
            continue;
        }
        switch (k[j]) {
            case K_a: case K_alpha: case K_abbrev: r_store(E_A, 0, 1); break;
            case K_cluster: r_store(E_A, 0, 1); r_store(E_A, 0, 1); break;
            case K_exact: r_store(E_INC, 0, 1); break;
            case K_i: case K_int:
                if (j + 1 < n) {
                    j++;
                    if (k[j] == K_empty && k[j - 1] == K_int)
                        r_err(en, ARG_EMISSARG, argv[1 + j]);
                    r_int(argv[1 + j], is_number(k[j]));
                } else
                    r_err(en, ARG_EMISSARG, t);
                break;
            case K_i7: r_int(t + 2, 1); break;
            case K_ibad: r_int(t + 2, 0); break;
            case K_ai7: r_store(E_A, 0, 1); r_int(t + 3, 1); break;
            case K_inteq: r_int(t + 6, 1); break;
            case K_intempty: r_err(en, ARG_EMISSARG, t); r_int(t + 6, 0); break;
            case K_s: case K_str: r_store(E_S, 0, 1); break;
            case K_sx: r_store(E_S, t + 2, 1); break;
            case K_streq: r_store(E_S, t + 6, 1); break;
            case K_bad: r_err(en, 'z', 0); break;
            case K_az: r_store(E_A, 0, 1); r_err(en, 'z', 0); break;
            case K_badlong: case K_ambig: case K_litval: r_err(en, ARG_ELONGOPT, t); break;
            case K_dd: only_pos = 1; break;
            default: /* positional: x, 7, "-", "" */
                pos[np++] = t;
                if (posix)
                    only_pos = 1;
                break;
        }
    }
    /* positionals, in order, to the untagged entries, in order */
    e = E_PF;
    i = 0;
    while (i < np && e < NE) {
        if (r_store(e, pos[i], 0) == 0) {
            i++;
            errlast = 0;
        } else {
            errlast = ARG_ERR_MAXCOUNT;
            parlast = ent(e);
            arglast = pos[i];
            e++;
        }
    }
    if (i < np) {
        if (errlast) {
            r_excess |= 1 << (e - 1);
            r_err(parlast, errlast, arglast);
            i++;
        }
        for (; i < np; i++)
            r_err(en, ARG_ENOMATCH, pos[i]);
    }
    (void)nopt;
}

/* analysing the second of two parses: every obligation is then C07's */
static int second;
#define ID(x) (second ? "C07" : (x))

/* n tokens of the given kinds */
static void run(int n, const int *k, int capacity, int posix) {
    char *argv[8];
    char *before[8];
    int j, ret, kept, e;
    argv[0] = "prog";
    for (j = 0; j < n; j++)
        argv[1 + j] = (char *)text[k[j]];
    argv[1 + n] = 0;
    for (j = 0; j <= n + 1; j++)
        before[j] = argv[j];
    vf_env_posix = posix;
    r_cap = capacity;
    r_n = 0;
    r_excess = 0;
    for (e = 0; e < NE; e++)
        r_cnt[e] = 0;
    reference(n, k, argv, posix);
    {
        long live = vf_live;
        int printed = vf_printed;
        unsigned outl = vf_outlen;
        VF_BEGIN();
        ret = arg_parse(n + 1, argv, tab);
        VF_END();
        VF(ID("C18"), vf_live == live, "parsing leaves memory allocated (or releases memory it does not own)");
        VF(ID("C26"), vf_printed == printed && vf_outlen == outl, "parsing writes to a stream");
    }
    for (j = 0; j <= n + 1; j++)
        VF(ID("C08"), argv[j] == before[j], "the caller's argument vector is changed by parsing");
    /* counts */
    VF(ID("C03"), la->count >= 0 && la->count <= 2 && linc->count >= 0 && linc->count <= 1 && ii->count >= 0 && ii->count <= 1, "an option's count is outside 0..maximum");
    VF(ID("C03"), ss->count >= 0 && ss->count <= 2 && pf->count >= 0 && pf->count <= 2 && ps->count >= 0 && ps->count <= 1, "an option's count is outside 0..maximum");
    VF(ID("C24"), la->count == r_cnt[E_A], "the flag option's count differs from its occurrences on the command line");
    VF(ID("C24"), linc->count == r_cnt[E_INC], "the exactly named long option's count differs from its occurrences");
    VF(ID("C24"), ii->count == r_cnt[E_I], "the integer option's count differs from its valid occurrences on the command line");
    VF(ID("C24"), ss->count == r_cnt[E_S], "the optional-value option's count differs from its occurrences on the command line");
    VF(ID("C06"), pf->count == r_cnt[E_PF] && ps->count == r_cnt[E_PS], "positional arguments are lost, invented or given to another entry");
    if (r_cnt[E_I] == 1)
        VF(ID("C24"), ii->ival[0] == 7, "the integer option's value is not the one given");
    for (j = 0; j < 2; j++) {
        if (j < r_cnt[E_S]) {
            if (r_val[E_S][j]) {
                VF(ID("C24"), ss->sval[j] == r_val[E_S][j], "an option's value is not the text attached to it");
                VF(ID("C08"), ss->sval[j] == r_val[E_S][j], "a string value does not alias the caller's text");
            } else
                VF(ID("C24"), ss->sval[j][0] == 0, "an option given without its optional value has a value");
        }
        if (j < r_cnt[E_PF]) {
            VF(ID("C06"), pf->filename[j] == r_val[E_PF][j], "positional arguments are not stored in command-line order");
            VF(ID("C08"), pf->filename[j] == r_val[E_PF][j], "a file value does not alias the caller's text");
        }
    }
    if (r_cnt[E_PS])
        VF(ID("C06"), ps->sval[0] == r_val[E_PS][0], "positional arguments are not stored in command-line order");
    /* errors */
    kept = r_n < r_cap ? r_n : r_cap;
    VF(ID("C05"), ret == en->count, "the returned number of errors is not the recorded one");
    VF(ID("C05"), en->count == kept, "the number of recorded errors differs from the errors on the command line");
    VF(ID("C06"), (ret == 0) == (r_n == 0), "a command line with an unusable token is accepted, or a usable one refused");
    VF(ID("C24"), (ret == 0) == (r_n == 0), "a command line with an unusable option is accepted, or a usable one refused");
    for (j = 0; j < 3; j++)
        if (j < kept) {
            VF(ID("C05"), en->error[j] == r_code[j], "an error is recorded with the wrong kind or out of order");
            VF(ID("C05"), en->parent[j] == r_par[j], "an error is attributed to the wrong table entry");
            VF(ID("C05"), en->argval[j] == r_arg[j], "an error records the wrong argument text");
        }
    /* an excess occurrence of an entry is an error (of that entry while there is room to say so) */
    if (r_excess) {
        VF(ID("C03"), ret > 0, "an occurrence beyond an option's maximum is not an error");
        if (r_n <= r_cap)
            for (e = 0; e < NE; e++)
                if (r_excess & (1 << e)) {
                    int found = 0;
                    for (j = 0; j < 3; j++)
                        if (j < kept && en->parent[j] == ent(e) && en->error[j] == ARG_ERR_MAXCOUNT)
                            found = 1;
                    VF(ID("C03"), found, "an occurrence beyond an option's maximum is not reported against that option");
                }
    }
}

/* every pair of token kinds */
// VFSC props=C02,C03,C05,C06,C08,C18,C24,C26 shards=8
void sc_seq_pairs(void) {
    int k[2];
    mk_table(3);
    mk_texts();
    k[0] = vf_choose(0, NK - 1);
    VF_SHARD(k[0]);
    k[1] = vf_choose(0, NK - 1);
    vf_cid = 100 * k[0] + k[1];
    run(2, k, 3, 0);
}
/* every single token, with and without POSIXLY_CORRECT, error capacity 1 */
// VFSC props=C01,C02,C03,C05,C06,C08,C18,C24,C26
void sc_seq_single(void) {
    int k[2], px;
    mk_table(1);
    mk_texts();
    k[0] = vf_choose(0, NK - 1);
    px = vf_choose(0, 1);
    vf_cid = 100 * k[0] + px;
    run(1, k, 1, px);
}

/* three tokens of the core kinds */
static const int core3[8] = {K_a, K_x, K_i, K_i7, K_s, K_dd, K_bad, K_7};
// VFSC props=C03,C05,C06,C08,C24 shards=8
void sc_seq_triples(void) {
    int k[3], a, b, c;
    mk_table(2);
    mk_texts();
    a = vf_choose(0, 7);
    VF_SHARD(a);
    b = vf_choose(0, 7);
    c = vf_choose(0, 7);
    k[0] = core3[a];
    k[1] = core3[b];
    k[2] = core3[c];
    vf_cid = 10000 * k[0] + 100 * k[1] + k[2];
    run(3, k, 2, 0);
}
// VFSC props=C01,C02,C03,C05,C06,C08,C18,C24,C26 shards=24 tier=thorough
void sc_seq_triples_full(void) {
    int k[3];
    mk_table(3);
    mk_texts();
    k[0] = vf_choose(0, 23);
    VF_SHARD(k[0]);
    k[1] = vf_choose(0, 15);
    k[2] = vf_choose(0, NK - 1);
    vf_cid = 10000 * k[0] + 100 * k[1] + k[2];
    run(3, k, 3, 0);
}
/* POSIXLY_CORRECT: the first positional ends option recognition */
// VFSC props=C05,C06,C24 shards=3
void sc_seq_posix(void) {
    int k[2];
    mk_table(3);
    mk_texts();
    k[0] = core3[vf_choose(0, 7)];
    k[1] = vf_choose(0, NK - 1);
    VF_SHARD(k[1]);
    vf_cid = 100 * k[0] + k[1];
    run(2, k, 3, 1);
}

/* two parses with the same table: the second is as if it were the first */
// VFSC props=C07 shards=8
void sc_seq_twice(void) {
    int k[2], q[2];
    mk_table(3);
    mk_texts();
    k[0] = vf_choose(0, NK - 1);
    VF_SHARD(k[0]);
    k[1] = K_x;
    q[0] = core3[vf_choose(0, 6)];
    q[1] = vf_choose(0, 1) ? K_x : K_a;
    {
        char *argv[4];
        argv[0] = "prog";
        argv[1] = (char *)text[k[1]];
        argv[2] = (char *)text[k[0]];
        argv[3] = 0;
        arg_parse(3, argv, tab);
    }
    second = 1;
    vf_cid = 10000 * k[0] + 100 * q[0] + q[1];
    run(2, q, 3, 0);
}
/* ... and so is the second after a longer line that left values everywhere */
// VFSC props=C07 shards=4
void sc_seq_after_long(void) {
    int k[1];
    char *argv[9];
    mk_table(3);
    mk_texts();
    argv[0] = "prog";
    argv[1] = t_sx;
    argv[2] = "p";
    argv[3] = "-aAi7";
    argv[4] = "q";
    argv[5] = t_sv;
    argv[6] = "r";
    argv[7] = vf_choose(0, 1) ? "--" : "s";
    argv[8] = 0;
    arg_parse(8, argv, tab);
    second = 1;
    k[0] = vf_choose(0, NK - 1);
    VF_SHARD(k[0]);
    vf_cid = k[0];
    run(1, k, 3, 0);
}

/* ---- order of many positionals among options, with and without "--" ---- */
static struct arg_lit *oa;
static struct arg_str *op;
static struct arg_int *oi;
static struct arg_end *oe;
static void *otab[5];
static void order(int n, const int *k, int posix) {
    static const char *const ptxt[6] = {"p0", "p1", "p2", "p3", "p4", "p5"};
    char *argv[8];
    const char *want[6];
    int j, np = 0, na = 0, nai = 0, only = 0, ret;
    argv[0] = "prog";
    for (j = 0; j < n; j++) {
        const char *t;
        switch (k[j]) {
            case 0: t = ptxt[j]; break;
            case 1: t = "-a"; break;
            case 2: t = "--"; break;
            default: t = "-i5"; break;
        }
        argv[1 + j] = (char *)t;
        if (only || k[j] == 0) {
            want[np++] = t;
            if (posix)
                only = 1;
        } else if (k[j] == 1)
            na++;
        else if (k[j] == 2)
            only = 1;
        else
            nai++;
    }
    argv[1 + n] = 0;
    vf_env_posix = posix;
    otab[0] = oa = arg_litn("a", 0, 0, 6, 0);
    otab[1] = oi = arg_intn("i", 0, 0, 0, 6, 0);
    otab[2] = op = arg_strn(0, 0, 0, 0, 6, 0);
    otab[3] = oe = arg_end(2);
    VF_BEGIN();
    ret = arg_parse(n + 1, argv, otab);
    VF_END();
    VF("C06", ret == 0, "a command line of known options and positionals is refused");
    VF("C06", oa->count == na && oi->count == nai, "options mixed with positionals are lost or invented");
    VF("C06", op->count == np, "positional arguments are lost or invented");
    for (j = 0; j < n; j++)
        if (j < np)
            VF("C06", op->sval[j] == want[j], "positional arguments are not stored in command-line order");
}
// VFSC props=C06 shards=8
void sc_order5(void) {
    int k[5], px;
    k[0] = vf_choose(0, 1);
    k[1] = vf_choose(0, 2);
    k[2] = vf_choose(0, 2);
    k[3] = vf_choose(0, 2);
    k[4] = vf_choose(0, 3);
    vf_cid = 10000 * k[0] + 1000 * k[1] + 100 * k[2] + 10 * k[3] + k[4];
    VF_SHARD(k[0] + 2 * k[1] + 7 * k[3]);
    order(5, k, 0);
}
// VFSC props=C06 shards=4
void sc_order_posix(void) {
    int k[4];
    k[0] = vf_choose(0, 3);
    VF_SHARD(k[0]);
    k[1] = vf_choose(0, 3);
    k[2] = vf_choose(0, 2);
    k[3] = vf_choose(0, 1);
    vf_cid = 1000 * k[0] + 100 * k[1] + 10 * k[2] + k[3];
    order(4, k, 1);
}
// VFSC props=C06 shards=16 tier=thorough
void sc_order6(void) {
    int k[6];
    k[0] = vf_choose(0, 3);
    k[1] = vf_choose(0, 3);
    VF_SHARD(k[0] * 4 + k[1]);
    k[2] = vf_choose(0, 2);
    k[3] = vf_choose(0, 2);
    k[4] = vf_choose(0, 2);
    k[5] = vf_choose(0, 2);
    vf_cid = 100000 * k[0] + 10000 * k[1] + 1000 * k[2] + 100 * k[3] + 10 * k[4] + k[5];
    order(6, k, 0);
}

/* ---- blocks: p positionals, q option words, r positionals, maybe "--" ---- */
static void blocks(int p, int q, int r, int dd, int q2) {
    static const char *const ptxt[14] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "pa", "pb", "pc", "pd"};
    char *argv[24];
    int n = 1, np = 0, j, ret;
    argv[0] = "prog";
    for (j = 0; j < p; j++)
        argv[n++] = (char *)ptxt[np++];
    for (j = 0; j < q; j++)
        argv[n++] = j & 1 ? "-o7" : "-a";
    if (dd)
        argv[n++] = "--";
    for (j = 0; j < r; j++)
        argv[n++] = (char *)ptxt[np++];
    if (!dd)
        for (j = 0; j < q2; j++)
            argv[n++] = j & 1 ? "-a" : "-o8";
    argv[n] = 0;
    if (dd)
        q2 = 0;
    otab[0] = oa = arg_litn("a", 0, 0, 12, 0);
    otab[1] = oi = arg_intn("o", 0, 0, 0, 12, 0);
    otab[2] = op = arg_strn(0, 0, 0, 0, 12, 0);
    otab[3] = oe = arg_end(2);
    VF_BEGIN();
    ret = arg_parse(n, argv, otab);
    VF_END();
    VF("C06", ret == 0, "a command line of known options and positionals is refused");
    VF("C06", oa->count == (q + 1) / 2 + q2 / 2 && oi->count == q / 2 + (q2 + 1) / 2, "options mixed with positionals are lost or invented");
    VF("C06", op->count == np, "positional arguments are lost or invented");
    for (j = 0; j < np; j++)
        if (j < op->count)
            VF("C06", op->sval[j] == ptxt[j], "positional arguments are not stored in command-line order");
}
// VFSC props=C06 shards=7
void sc_blocks(void) {
    int p = vf_choose(0, 6), q, r, d;
    VF_SHARD(p);
    q = vf_choose(1, 6);
    r = vf_choose(0, 2);
    d = vf_choose(0, 1);
    vf_cid = 1000 * p + 100 * q + 10 * r + d;
    blocks(p, q, r, d, 0);
}
/* two option blocks, between and after positionals */
// VFSC props=C06 shards=6
void sc_blocks2(void) {
    int p = vf_choose(1, 4), q, r, z;
    q = vf_choose(1, 3);
    VF_SHARD(p + q);
    r = vf_choose(1, 4);
    z = vf_choose(1, 3);
    vf_cid = 1000 * p + 100 * q + 10 * r + z;
    blocks(p, q, r, 0, z);
}

/* the environment may change between two parses: only the current one counts */
// VFSC props=C07 shards=4
void sc_seq_env(void) {
    int k[2], px1, px2, w;
    char *argv[4];
    mk_table(3);
    mk_texts();
    px1 = vf_choose(0, 1);
    px2 = vf_choose(0, 1);
    VF_SHARD(2 * px1 + px2);
    w = vf_choose(0, 3);
    k[0] = vf_choose(0, 1) ? K_x : K_a;
    k[1] = core3[vf_choose(0, 7)];
    vf_env_posix = px1;
    argv[0] = "prog";
    argv[1] = w == 0 ? "p" : w == 1 ? "-a" : w == 2 ? "--" : "--inc";
    argv[2] = w == 3 ? "p" : "-a";
    argv[3] = 0;
    arg_parse(3, argv, tab);
    second = 1;
    vf_cid = 100000 * px1 + 50000 * px2 + 10000 * w + 100 * k[0] + k[1];
    run(2, k, 3, px2);
}

/* Every history at once: all of the library's static variables hold anything
 * (-lib-entry), and the entries hold anything an earlier parse can leave. */
static void *either(void *a, void *b) { return vf_nd() ? a : b; }
static void any_history(int k) {
    int j;
    /* the harness's own state */
    vf_live = 0; vf_allocs = 0; vf_fail_at = 0; vf_failed = 0; vf_panicked = 0; vf_printed = 0; vf_exited = 0; vf_allow_exit = 0; vf_outlen = 0;
    vf_setjmp_mode = 0; vf_longjmps_allowed = 0; vf_strftime_mode = 0; vf_strtol_mode = 0; vf_strtol_used = 0; vf_abs_size = 0; vf_abs_base = 0; vf_env_posix = 0; vf_fp = 0;
    emax[0] = 2; emax[1] = 1; emax[2] = 1; emax[3] = 2; emax[4] = 2; emax[5] = 1;
    mk_table(3);
    mk_texts();
    la->count = vf_range(0, 2);
    linc->count = vf_range(0, 1);
    ii->count = vf_range(0, 1);
    ii->ival[0] = vf_nd();
    ss->count = k < 0 ? vf_range(0, 2) : k;
    ss->sval[0] = either((void *)(t_sx + 2), (void *)(""));
    ss->sval[1] = either((void *)(t_sx + 2), (void *)(""));
    /* a value is left behind only in a counted slot */
    if (ss->count < 1)
        ss->sval[0] = "";
    if (ss->count < 2)
        ss->sval[1] = "";
    pf->count = vf_range(0, 2);
    ps->count = vf_range(0, 1);
    ps->sval[0] = either((void *)(t_x), (void *)(""));
    for (j = 0; j < 2; j++)
        pf->filename[j] = pf->basename[j] = pf->extension[j] = either((void *)(t_x), (void *)(""));
    en->count = vf_range(0, 3);
    for (j = 0; j < 3; j++) {
        en->error[j] = vf_nd();
        en->parent[j] = either((void *)((void *)la), (void *)((void *)en));
        en->argval[j] = either((void *)(t_x), (void *)(0));
    }
    second = 1;
}
// VFSC props=C07 shards=8 opts="-lib-entry"
void sc_any_history(void) {
    int k[1], n;
    k[0] = vf_choose(0, NK - 1);
    VF_SHARD(k[0]);
    n = -1;
    if (k[0] == K_s || k[0] == K_str)
        n = vf_choose(0, 2);
    any_history(n);
    vf_cid = 10 * k[0] + n;
    run(1, k, 3, vf_env_posix);
}
// VFSC props=C07 shards=8 opts="-lib-entry"
void sc_any_history2(void) {
    int k[2], n, px;
    k[0] = core3[vf_choose(0, 7)];
    k[1] = vf_choose(0, NK - 1);
    VF_SHARD(k[1]);
    n = -1;
    if (k[0] == K_s || k[1] == K_s || k[1] == K_str)
        n = vf_choose(0, 2);
    px = vf_choose(0, 1);
    any_history(n);
    vf_cid = 10000 * k[0] + 100 * k[1] + 10 * px + n;
    run(2, k, 3, px);
}
