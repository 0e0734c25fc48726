/* The dynamic string: any short history of operations against a reference
 * text, with lengths on both sides of every buffer limit. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>

#define MAXREF 2400
static char ref[MAXREF];
static int reflen;
static arg_dstr_t ds;
static int custom_live, custom_freed_twice;
static char *custom_ptr[8];
static int ncustom;
static char src[801];
static char sbuf_static[6] = "stat.";
static int custom_sets, custom_state[8]; /* 1 = owned by the string, 2 = released */
static char custom_buf[8][4];

static void my_free(char *p) {
    int i;
    for (i = 0; i < custom_sets; i++)
        if (p == custom_buf[i]) {
            VF("C14", custom_state[i] == 1, "the caller's release function is called twice for one text");
            custom_state[i] = 2;
            return;
        }
    VF("C14", 0, "the caller's release function is called for a text it does not belong to");
}
static void fill(void) {
    int i;
    for (i = 0; i < 800; i++)
        src[i] = (char)('a' + i % 23);
    src[800] = 0;
}
static void r_set(const char *s, int n) {
    memcpy(ref, s, (size_t)n);
    ref[n] = 0;
    reflen = n;
}
static void r_cat(const char *s, int n) {
    memcpy(ref + reflen, s, (size_t)n);
    reflen += n;
    ref[reflen] = 0;
}
/* text of length n, ending at the end of src */
#define T(n) (src + 800 - (n))

static void op(int o) {
    char tmp[260];
    char *d;
    switch (o) {
        case 0:
            arg_dstr_set(ds, sbuf_static, ARG_DSTR_STATIC);
            VF("C14", arg_dstr_cstr(ds) == sbuf_static, "a static text is not used in place");
            r_set(sbuf_static, 5);
            break;
        case 1:
            strcpy(tmp, T(ARG_DSTR_SIZE));
            arg_dstr_set(ds, tmp, ARG_DSTR_VOLATILE);
            r_set(tmp, ARG_DSTR_SIZE);
            memset(tmp, '#', sizeof tmp); /* the caller re-uses its buffer */
            break;
        case 2:
            strcpy(tmp, T(ARG_DSTR_SIZE + 1));
            arg_dstr_set(ds, tmp, ARG_DSTR_VOLATILE);
            r_set(tmp, ARG_DSTR_SIZE + 1);
            memset(tmp, '#', sizeof tmp);
            break;
        case 3:
            d = malloc(31);
            strcpy(d, T(30));
            arg_dstr_set(ds, d, ARG_DSTR_DYNAMIC);
            r_set(d, 30);
            break;
        case 4: {
            int k = custom_sets++;
            custom_buf[k][0] = 'u';
            custom_buf[k][1] = (char)('0' + k);
            custom_buf[k][2] = 0;
            custom_state[k] = 1;
            arg_dstr_set(ds, custom_buf[k], my_free);
            r_set(custom_buf[k], 2);
            break;
        }
        case 5: arg_dstr_set(ds, 0, ARG_DSTR_STATIC); r_set("", 0); break;
        case 6: arg_dstr_cat(ds, "x"); r_cat("x", 1); break;
        case 7: arg_dstr_cat(ds, T(98)); r_cat(T(98), 98); break;
        case 8: arg_dstr_cat(ds, T(99)); r_cat(T(99), 99); break;
        case 9: arg_dstr_cat(ds, T(199)); r_cat(T(199), 199); break;
        case 10: arg_dstr_cat(ds, T(500)); r_cat(T(500), 500); break;
        case 11: arg_dstr_catc(ds, '!'); r_cat("!", 1); break;
        case 12: arg_dstr_catf(ds, "%s-%d", T(40), -17); r_cat(T(40), 40); r_cat("-", 1); r_cat("-17", 3); break;
        case 13: arg_dstr_reset(ds); r_set("", 0); break;
        case 14: arg_dstr_cat(ds, ""); break;
        default: /* replace the text by part of itself */
            d = arg_dstr_cstr(ds);
            if (reflen > 0 && d != sbuf_static) {
                arg_dstr_set(ds, d + 1, ARG_DSTR_VOLATILE);
                memmove(ref, ref + 1, (size_t)reflen);
                reflen--;
            }
            break;
    }
}
static void same_text(int full) {
    const char *c = arg_dstr_cstr(ds);
    int i, eq = 1;
    VF("C14", (int)strlen(c) == reflen, "the text's length is not what the operations produced");
    if ((int)strlen(c) != reflen)
        return;
    for (i = 0; i < reflen; i += full ? 1 : 7)
        if (c[i] != ref[i])
            eq = 0;
    if (reflen && c[reflen - 1] != ref[reflen - 1])
        eq = 0;
    VF("C14", eq, "the text is not what the operations produced");
}
static void finish(void) {
    int i;
    arg_dstr_destroy(ds);
    VF("C14", vf_live == 0, "destroying the string does not release all of its memory");
    for (i = 0; i < custom_sets; i++)
        VF("C14", custom_state[i] == 2, "a text handed over with a release function is never released");
}
// VFSC props=C14 shards=4 defs="-DVF_FAST"
void sc_dstr2(void) {
    int a = vf_choose(0, 15), b;
    VF_SHARD(a);
    b = vf_choose(0, 15);
    vf_cid = a * 16 + b;
    fill();
    ds = arg_dstr_create();
    VF("C14", strlen(arg_dstr_cstr(ds)) == 0, "a new string is not empty");
    VF_BEGIN();
    op(a);
    same_text(1);
    op(b);
    same_text(1);
    finish();
    VF_END();
}
static const int core[8] = {1, 2, 3, 4, 8, 9, 13, 15};
// VFSC props=C14 shards=8 defs="-DVF_FAST"
void sc_dstr3(void) {
    int a = vf_choose(0, 7), b, c;
    b = vf_choose(0, 7);
    VF_SHARD(a + b);
    c = vf_choose(0, 7);
    vf_cid = a * 64 + b * 8 + c;
    fill();
    ds = arg_dstr_create();
    VF_BEGIN();
    op(core[a]);
    op(core[b]);
    op(core[c]);
    same_text(0);
    finish();
    VF_END();
}
// VFSC props=C14 shards=16 tier=thorough defs="-DVF_FAST"
void sc_dstr3_full(void) {
    int a = vf_choose(0, 15), b, c;
    b = vf_choose(0, 15);
    VF_SHARD(a + b);
    c = vf_choose(0, 15);
    vf_cid = a * 256 + b * 16 + c;
    fill();
    ds = arg_dstr_create();
    VF_BEGIN();
    op(a);
    op(b);
    op(c);
    same_text(0);
    finish();
    VF_END();
}
/* appended text of any contents: length and end are right whatever the
 * characters are */
// VFSC props=C14 shards=4 slevel=50000
void sc_dstr_lengths(void) {
    static const int L[12] = {0, 1, 97, 98, 99, 100, 101, 198, 199, 200, 201, 250};
    static char any[260];
    int i, j, k;
    for (i = 0; i < 259; i++)
        any[i] = vf_anychar();
    any[259] = 0;
    j = vf_choose(0, 11);
    VF_SHARD(j);
    k = vf_choose(0, 11);
    vf_cid = j * 12 + k;
    ds = arg_dstr_create();
    VF_BEGIN();
    arg_dstr_cat(ds, any + 259 - L[j]);
    arg_dstr_cat(ds, any + 259 - L[k]);
    VF("C14", (int)strlen(arg_dstr_cstr(ds)) == L[j] + L[k], "appending texts does not add up their lengths");
    arg_dstr_destroy(ds);
    VF("C14", vf_live == 0, "destroying the string does not release all of its memory");
    VF_END();
}
/* formatted text around the sizes its temporary buffer goes through */
// VFSC props=C14 shards=4 defs="-DVF_FAST" slevel=300000
void sc_dstr_catf(void) {
    int n = vf_choose(0, 110);
    VF_SHARD(n);
    if (n > 70) /* 120..131, 250..261, 505..516, 787..790 */
        n = n < 83 ? n + 49 : n < 95 ? n + 167 : n < 107 ? n + 410 : n + 680;
    vf_cid = n;
    fill();
    ds = arg_dstr_create();
    VF_BEGIN();
    arg_dstr_cat(ds, "ab");
    arg_dstr_catf(ds, "%s", T(n));
    arg_dstr_catf(ds, 0);
    r_set("ab", 2);
    r_cat(T(n), n);
    same_text(1);
    finish();
    VF_END();
}
/* long texts, put together in several steps */
static void huge(int k, int how) {
    static const int L[6] = {398, 511, 1000, 1023, 2047, 4000};
    static char t[4100], r[13000];
    int n, i, len = 0, ok = 1;
    const char *c;
    n = L[k];
    for (i = 0; i < n; i++)
        t[i] = (char)('a' + i % 23);
    t[n] = 0;
    ds = arg_dstr_create();
    VF_BEGIN();
    if (how == 0) {
        arg_dstr_set(ds, t, ARG_DSTR_VOLATILE);
        arg_dstr_cat(ds, t);
        arg_dstr_catc(ds, '!');
        len = 2 * n + 1;
    } else if (how == 1) {
        arg_dstr_cat(ds, t);
        arg_dstr_cat(ds, t);
        arg_dstr_cat(ds, t + n - 1);
        len = 2 * n + 1;
    } else if (how == 2) {
        arg_dstr_catf(ds, "%s", t);
        arg_dstr_cat(ds, t);
        arg_dstr_catf(ds, "%d", 7);
        len = 2 * n + 1;
    } else { /* many small steps */
        for (i = 0; i < 230; i++) {
            if (i % 3 == 0)
                arg_dstr_catc(ds, t[i]);
            else {
                char w[2];
                w[0] = t[i];
                w[1] = 0;
                if (i % 3 == 1)
                    arg_dstr_cat(ds, w);
                else
                    arg_dstr_catf(ds, "%s", w);
            }
        }
        len = 230;
    }
    c = arg_dstr_cstr(ds);
    VF("C14", (int)strlen(c) == len, "the text's length is not what the operations produced");
    for (i = 0; i < (how == 3 ? len : 2 * n); i += 3)
        if (c[i] != t[i >= n ? i - n : i])
            ok = 0;
    VF("C14", ok, "the text is not what the operations produced");
    arg_dstr_destroy(ds);
    VF("C14", vf_live == 0, "destroying the string does not release all of its memory");
    VF_END();
}
// VFSC props=C14 shards=4 defs="-DVF_FAST" slevel=300000
void sc_dstr_long(void) {
    int k = vf_choose(0, 2), how = vf_choose(0, 3);
    VF_SHARD(how);
    if (how == 3 && k)
        vf_stop();
    vf_cid = 10 * k + how;
    huge(k, how);
}
// VFSC props=C14 shards=9 defs="-DVF_FAST" slevel=300000 tier=thorough
void sc_dstr_huge(void) {
    int k = vf_choose(3, 5), how = vf_choose(0, 2);
    VF_SHARD(3 * (k - 3) + how);
    vf_cid = 10 * k + how;
    huge(k, how);
}
