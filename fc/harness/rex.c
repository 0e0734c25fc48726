/* Pattern options.  A text is written as a template in which \1 stands for
 * "any one character of the element's set" and \2 for "any one character
 * outside it"; both are abstract characters, so one template covers every
 * such text. */
#include "vf.h"
#include <string.h>

enum { S_ANY, S_A, S_AI, S_DIGIT, S_NDIGIT, S_WORD, S_NWORD, S_SPACE, S_NSPACE, S_ALPHA, S_NALPHA, S_HEX, S_NHEX, S_CNTRL, S_NCNTRL, S_PUNCT, S_NPUNCT, S_LOWER, S_UPPER,
       S_ABC, S_NABC, S_AF, S_NAF, S_AFX, S_DU, S_AFI, S_DOT, S_BS, S_NL, S_TAB, S_ABDASH, NSETS };

/* one element per set */
static const char *const elem[NSETS] = {".", "a", "a", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\a", "\\A", "\\x", "\\X", "\\c", "\\C", "\\p", "\\P", "\\l", "\\u",
                                        "[abc]", "[^abc]", "[a-f]", "[^a-f]", "[a-fx]", "[\\d_]", "[A-F]", "\\.", "\\\\", "\\n", "\\t", "[a\\-b]"};
static int eflags(int set) { return set == S_AI || set == S_AFI ? ARG_REX_ICASE : 0; }

#define LOWER (c >= 'a' && c <= 'z')
#define UPPER (c >= 'A' && c <= 'Z')
#define DIGIT (c >= '0' && c <= '9')
static int in(int set, int c) {
    switch (set) {
        case S_ANY: return 1;
        case S_A: return c == 'a';
        case S_AI: return c == 'a' || c == 'A';
        case S_DIGIT: return DIGIT;
        case S_NDIGIT: return !DIGIT;
        case S_WORD: return LOWER || UPPER || DIGIT || c == '_';
        case S_NWORD: return !(LOWER || UPPER || DIGIT || c == '_');
        case S_SPACE: return c == ' ' || (c >= 9 && c <= 13);
        case S_NSPACE: return !(c == ' ' || (c >= 9 && c <= 13));
        case S_ALPHA: return LOWER || UPPER;
        case S_NALPHA: return !(LOWER || UPPER);
        case S_HEX: return DIGIT || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        case S_NHEX: return !(DIGIT || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
        case S_CNTRL: return (c >= 1 && c <= 31) || c == 127;
        case S_NCNTRL: return !((c >= 1 && c <= 31) || c == 127);
        case S_PUNCT: return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);
        case S_NPUNCT: return !((c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126));
        case S_LOWER: return LOWER;
        case S_UPPER: return UPPER;
        case S_ABC: return c == 'a' || c == 'b' || c == 'c';
        case S_NABC: return !(c == 'a' || c == 'b' || c == 'c');
        case S_AF: return c >= 'a' && c <= 'f';
        case S_NAF: return !(c >= 'a' && c <= 'f');
        case S_AFX: return (c >= 'a' && c <= 'f') || c == 'x';
        case S_DU: return DIGIT || c == '_';
        case S_AFI: return (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        case S_DOT: return c == '.';
        case S_BS: return c == '\\';
        case S_NL: return c == '\n';
        case S_TAB: return c == '\t';
        default: return c == 'a' || c == 'b' || c == '-';
    }
}
/* All characters, in ranges that no set above cuts; each range is one
 * abstract character. */
#define NR 36
static const signed char rlo[NR] = {-128, 1, 9, 10, 11, 14, ' ', '!', '%', '&', '-', '.', '/', '0', ':', 'A', 'B', 'C', 'D', 'G', 'X', 'Y', '[', '\\', ']', '_', '`', 'a', 'b', 'c', 'd', 'g', 'x', 'y', '{', 127};
static const signed char rhi[NR] = {-1, 8, 9, 10, 13, 31, ' ', '$', '%', ',', '-', '.', '/', '9', '@', 'A', 'B', 'C', 'F', 'W', 'X', 'Z', '[', '\\', '^', '_', '`', 'a', 'b', 'c', 'f', 'w', 'x', 'z', '~', 127};
static char cin, cout;
/* one of three ranges inside or outside the set */
static char pick(int set, int want, int k) {
    static const int tin[6][3] = {{27, 27, 27}, {13, 13, 13}, {0, 30, 13}, {15, 30, 18}, {27, 28, 29}, {27, 30, 29}};
    static const int tout[6][3] = {{26, 28, 15}, {12, 14, 0}, {27, 28, 29}, {19, 31, 13}, {30, 26, 16}, {26, 31, 16}};
    int s = set == S_A ? 0 : set == S_DIGIT ? 1 : set == S_NABC ? 2 : set == S_AFI ? 3 : set == S_ABC ? 4 : 5, r;
    r = want ? tin[s][k % 3] : tout[s][k % 3];
    return Frama_C_char_interval(rlo[r], rhi[r]);
}
static struct arg_rex *rx;
static char text[16];
static int build(const char *tmpl) {
    int i;
    for (i = 0; tmpl[i]; i++)
        text[i] = tmpl[i] == '\1' ? cin : tmpl[i] == '\2' ? cout : tmpl[i];
    text[i] = 0;
    return i;
}
static void judge(int ok) {
    int rc;
    long live = vf_live;
    VF_BEGIN();
    rc = rx->hdr.scanfn(rx->hdr.parent, text);
    VF_END();
    if (ok) {
        VF("C12", rc == 0, "a text the pattern describes is refused");
        VF("C12", rx->count == 1 && rx->sval[0] == text, "an accepted text is not stored");
    } else {
        VF("C12", rc == ARG_ERR_REGNOMATCH, "a text the pattern does not describe is accepted");
        VF("C12", rx->count == 0 && rx->sval[0][0] == 0, "a refused text is stored or counted");
    }
    VF("C12", rx->sval[1][0] == 0, "another value is disturbed");
    VF("C12", vf_live == live, "matching does not release its memory");
}
/* pattern = element + quantifier; all texts of up to 4 characters of the
 * element's set, and the same with one foreign character in front or behind */
static const char *const quant[8] = {"", "*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,3}"};
static const int qmin[8] = {1, 0, 1, 0, 2, 1, 2, 0};
static const int qmax[8] = {1, 99, 99, 1, 2, 2, 99, 3};
static char pat[24];
static void element(int set, int q, int n, int foreign) {
    char t[8];
    int i = 0, k;
    strcpy(pat, elem[set]);
    strcat(pat, quant[q]);
    rx = arg_rexn("r", 0, pat, 0, 0, 2, eflags(set), 0);
    if (foreign == 1)
        t[i++] = '\2';
    for (k = 0; k < n; k++)
        t[i++] = '\1';
    if (foreign == 2)
        t[i++] = '\2';
    t[i] = 0;
    build(t);
    judge(!foreign && n >= qmin[q] && n <= qmax[q]);
}
static void charset(int set, int r) {
    rx = arg_rexn("r", 0, elem[set], 0, 0, 2, eflags(set), 0);
    text[0] = Frama_C_char_interval(rlo[r], rhi[r]);
    text[1] = 0;
    judge(in(set, rlo[r]));
}
// VFSC props=C12 shards=8 slevel=40000
void sc_rex_sets(void) {
    int set = vf_choose(0, NSETS - 1), r;
    VF_SHARD(set);
    r = vf_choose(0, NR - 1);
    vf_cid = set * 100 + r;
    charset(set, r);
}
// VFSC props=C12 shards=8 slevel=40000
void sc_rex_quant(void) {
    int s = vf_choose(0, 4), set, q, n, f;
    q = vf_choose(0, 7);
    VF_SHARD(q);
    n = vf_choose(0, 4);
    f = vf_choose(0, 2);
    set = s == 0 ? S_ANY : s == 1 ? S_A : s == 2 ? S_DIGIT : s == 3 ? S_NABC : S_AFI;
    if (set == S_ANY && f)
        vf_stop();
    vf_cid = s * 1000 + q * 100 + n * 10 + f;
    cin = set == S_ANY ? vf_anychar() : pick(set, 1, q + n);
    cout = pick(set, 0, q + n);
    element(set, q, n, f);
}
/* sequences, groups, alternatives, anchors; no two ways to match */
struct item {
    const char *pat;
    int flags, set;
    const char *tmpl;
    int ok;
};
#define I ARG_REX_ICASE
static const struct item items[] = {
    {"ab", 0, S_A, "ab", 1}, {"ab", 0, S_A, "a", 0}, {"ab", 0, S_A, "b", 0}, {"ab", 0, S_A, "abb", 0}, {"ab", 0, S_A, "\2b", 0}, {"ab", 0, S_A, "", 0}, {"ab", 0, S_A, "AB", 0}, {"ab", I, S_A, "aB", 1},
    {"\\d+x", 0, S_DIGIT, "\1x", 1}, {"\\d+x", 0, S_DIGIT, "\1\1\1x", 1}, {"\\d+x", 0, S_DIGIT, "x", 0}, {"\\d+x", 0, S_DIGIT, "\1\1", 0}, {"\\d+x", 0, S_DIGIT, "\1\2x", 0}, {"\\d+x", 0, S_DIGIT, "\1xx", 0},
    {"\\d*x", 0, S_DIGIT, "x", 1}, {"\\d*x", 0, S_DIGIT, "\1\1x", 1}, {"\\d*x", 0, S_DIGIT, "\1", 0},
    {"\\d?x", 0, S_DIGIT, "\1x", 1}, {"\\d?x", 0, S_DIGIT, "x", 1}, {"\\d?x", 0, S_DIGIT, "\1\1x", 0},
    {"\\d{2}-\\d{2}", 0, S_DIGIT, "\1\1-\1\1", 1}, {"\\d{2}-\\d{2}", 0, S_DIGIT, "\1\1-\1", 0}, {"\\d{2}-\\d{2}", 0, S_DIGIT, "\1\1\1-\1\1", 0}, {"\\d{2}-\\d{2}", 0, S_DIGIT, "\1\1-\1\1\1", 0},
    {"[a-f]+\\.[a-f]*", 0, S_AF, "\1\1.\1", 1}, {"[a-f]+\\.[a-f]*", 0, S_AF, "\1.", 1}, {"[a-f]+\\.[a-f]*", 0, S_AF, ".\1", 0}, {"[a-f]+\\.[a-f]*", 0, S_AF, "\1\1", 0}, {"[a-f]+\\.[a-f]*", 0, S_AF, "\1.\2", 0},
    {"a|b", 0, S_ABC, "a", 1}, {"a|b", 0, S_ABC, "b", 1}, {"a|b", 0, S_ABC, "\2", 0}, {"a|b", 0, S_ABC, "ab", 0}, {"a|b", 0, S_ABC, "", 0}, {"a|b", I, S_ABC, "B", 1},
    {"a|b|c", 0, S_ABC, "a", 1}, {"a|b|c", 0, S_ABC, "b", 1}, {"a|b|c", 0, S_ABC, "c", 1}, {"a|b|c", 0, S_ABC, "\2", 0}, {"a|b|c", 0, S_ABC, "\1\1", 0},
    {"one|two", 0, S_A, "one", 1}, {"one|two", 0, S_A, "two", 1}, {"one|two", 0, S_A, "on", 0}, {"one|two", 0, S_A, "onetwo", 0}, {"one|two", 0, S_A, "tw\1", 0}, {"hello|world", I, S_A, "WORLD", 1}, {"hello|world", I, S_A, "worlD", 1}, {"hello|world", I, S_A, "wor", 0},
    {"(ab)", 0, S_A, "ab", 1}, {"(ab)", 0, S_A, "a", 0}, {"(ab)+", 0, S_A, "ab", 1}, {"(ab)+", 0, S_A, "abab", 1}, {"(ab)+", 0, S_A, "aba", 0}, {"(ab)+", 0, S_A, "", 0}, {"(ab)*", 0, S_A, "", 1}, {"(ab)*", 0, S_A, "ababab", 1},
    {"(?:ab){2}", 0, S_A, "abab", 1}, {"(?:ab){2}", 0, S_A, "ab", 0}, {"(?:ab){2}", 0, S_A, "ababab", 0}, {"(ab)?c", 0, S_A, "abc", 1}, {"(ab)?c", 0, S_A, "c", 1}, {"(ab)?c", 0, S_A, "ac", 0},
    {"(ab|cd)e", 0, S_A, "abe", 1}, {"(ab|cd)e", 0, S_A, "cde", 1}, {"(ab|cd)e", 0, S_A, "ade", 0}, {"(ab|cd)e", 0, S_A, "ab", 0}, {"(ab|cd)e", 0, S_A, "abcde", 0},
    {"(a|b)+", 0, S_A, "abba", 1}, {"(a|b)+", 0, S_A, "abca", 0}, {"x(a|b)", 0, S_A, "xb", 1}, {"x(a|b)", 0, S_A, "xx", 0}, {"((a)b)c", 0, S_A, "abc", 1}, {"((a)b)c", 0, S_A, "ac", 0},
    {"^ab$", 0, S_A, "ab", 1}, {"^ab$", 0, S_A, "abc", 0}, {"^ab$", 0, S_A, "\2ab", 0}, {"a$", 0, S_A, "a", 1}, {"a$", 0, S_A, "ab", 0}, {"^a|b$", 0, S_A, "b", 1},
    {".*", 0, S_ANY, "\1\1\1\1", 1}, {".+", 0, S_ANY, "", 0}, {"..", 0, S_ANY, "\1\1", 1}, {"..", 0, S_ANY, "\1", 0}, {"..", 0, S_ANY, "\1\1\1", 0},
    {"[0-9]{1,3}%", 0, S_DIGIT, "\1%", 1}, {"[0-9]{1,3}%", 0, S_DIGIT, "\1\1\1%", 1}, {"[0-9]{1,3}%", 0, S_DIGIT, "\1\1\1\1%", 0}, {"[0-9]{1,3}%", 0, S_DIGIT, "%", 0},
    {"\\w", 0, S_A, "_", 1}, {"\\W", 0, S_A, "_", 0}, {"[\\d_]", 0, S_A, "_", 1},
    {"[\\]]", 0, S_A, "]", 1}, {"[\\]]", 0, S_A, "\\", 0}, {"[\\-a]", 0, S_A, "-", 1}, {"\\(\\)", 0, S_A, "()", 1}, {"\\(\\)", 0, S_A, "", 0}, {"a{0}b", 0, S_A, "b", 1}, {"[^\\d]", 0, S_DIGIT, "\2", 1}, {"[^\\d]", 0, S_DIGIT, "\1", 0},
};
/* escapes as ends of ranges, case-insensitive ranges, alternatives and groups in the middle */
static const struct item items2[] = {
    {"[\\t-\\t]", 0, S_A, "\t", 1}, {"[\\t-\\t]", 0, S_A, "t", 0}, {"[\\t-\\t]", 0, S_A, "\\", 0}, {"[\\t-\\tx]y", 0, S_A, "xy", 1}, {"[\\t-\\tx]y", 0, S_A, "ty", 0}, {"[^\\t-\\t]", 0, S_A, "t", 1}, {"[^\\t-\\t]", 0, S_A, "\t", 0},
    {"[\\n-\\n]", 0, S_A, "\n", 1}, {"[\\n-\\n]", 0, S_A, "n", 0}, {"[\\n-\\n]", 0, S_A, "\\", 0}, {"[\\n-\\nx]y", 0, S_A, "xy", 1}, {"[\\n-\\nx]y", 0, S_A, "ny", 0}, {"[^\\n-\\n]", 0, S_A, "n", 1}, {"[^\\n-\\n]", 0, S_A, "\n", 0},
    {"[\\v-\\v]", 0, S_A, "\v", 1}, {"[\\v-\\v]", 0, S_A, "v", 0}, {"[\\v-\\v]", 0, S_A, "\\", 0}, {"[\\v-\\vx]y", 0, S_A, "xy", 1}, {"[\\v-\\vx]y", 0, S_A, "vy", 0}, {"[^\\v-\\v]", 0, S_A, "v", 1}, {"[^\\v-\\v]", 0, S_A, "\v", 0},
    {"[\\r-\\r]", 0, S_A, "\r", 1}, {"[\\r-\\r]", 0, S_A, "r", 0}, {"[\\r-\\r]", 0, S_A, "\\", 0}, {"[\\r-\\rx]y", 0, S_A, "xy", 1}, {"[\\r-\\rx]y", 0, S_A, "ry", 0}, {"[^\\r-\\r]", 0, S_A, "r", 1}, {"[^\\r-\\r]", 0, S_A, "\r", 0},
    {"[\\f-\\f]", 0, S_A, "\f", 1}, {"[\\f-\\f]", 0, S_A, "f", 0}, {"[\\f-\\f]", 0, S_A, "\\", 0}, {"[\\f-\\fx]y", 0, S_A, "xy", 1}, {"[\\f-\\fx]y", 0, S_A, "fy", 0}, {"[^\\f-\\f]", 0, S_A, "f", 1}, {"[^\\f-\\f]", 0, S_A, "\f", 0},
    {"\\r", 0, S_A, "\r", 1}, {"\\r", 0, S_A, "r", 0}, {"\\r", 0, S_A, "\n", 0},
    {"\\f", 0, S_A, "\f", 1}, {"\\f", 0, S_A, "f", 0}, {"\\f", 0, S_A, "\v", 0},
    {"\\v", 0, S_A, "\v", 1}, {"\\v", 0, S_A, "v", 0}, {"\\v", 0, S_A, "\f", 0},
    {"[\\t-\\r]", 0, S_A, "\t", 1}, {"[\\t-\\r]", 0, S_A, "\n", 1}, {"[\\t-\\r]", 0, S_A, "\v", 1}, {"[\\t-\\r]", 0, S_A, "\f", 1}, {"[\\t-\\r]", 0, S_A, "\r", 1}, {"[\\t-\\r]", 0, S_A, "t", 0}, {"[\\t-\\r]", 0, S_A, "r", 0}, {"[\\t-\\r]", 0, S_A, "-", 0}, {"[\\t-\\r]", 0, S_A, "", 0}, {"[\\t-\\r]", 0, S_A, "", 0}, {"[\\t-\\r]", 0, S_A, " ", 0},
    {"[\\n-\\f]", 0, S_A, "\n", 1}, {"[\\n-\\f]", 0, S_A, "\v", 1}, {"[\\n-\\f]", 0, S_A, "\f", 1}, {"[\\n-\\f]", 0, S_A, "\t", 0}, {"[\\n-\\f]", 0, S_A, "\r", 0}, {"[\\n-\\f]", 0, S_A, "n", 0},
    {"[\\t-\\nx]", 0, S_A, "\t", 1}, {"[\\t-\\nx]", 0, S_A, "\n", 1}, {"[\\t-\\nx]", 0, S_A, "x", 1}, {"[\\t-\\nx]", 0, S_A, "\v", 0}, {"[\\t-\\nx]", 0, S_A, "n", 0}, {"[\\t-\\nx]", 0, S_A, "-", 0},
    {"[ -\\\\]", 0, S_A, " ", 1}, {"[ -\\\\]", 0, S_A, "A", 1}, {"[ -\\\\]", 0, S_A, "\\", 1}, {"[ -\\\\]", 0, S_A, "-", 1}, {"[ -\\\\]", 0, S_A, "]", 0}, {"[ -\\\\]", 0, S_A, "a", 0}, {"[ -\\\\]", 0, S_A, "\t", 0},
    {"[\\(-\\)]", 0, S_A, "(", 1}, {"[\\(-\\)]", 0, S_A, ")", 1}, {"[\\(-\\)]", 0, S_A, "'", 0}, {"[\\(-\\)]", 0, S_A, "*", 0}, {"[\\(-\\)]", 0, S_A, "-", 0},
    {"[\\[-\\]]", 0, S_A, "[", 1}, {"[\\[-\\]]", 0, S_A, "\\", 1}, {"[\\[-\\]]", 0, S_A, "]", 1}, {"[\\[-\\]]", 0, S_A, "Z", 0}, {"[\\[-\\]]", 0, S_A, "^", 0}, {"[\\[-\\]]", 0, S_A, "-", 0},
    {"[\\n\\r]+", 0, S_A, "\n", 1}, {"[\\n\\r]+", 0, S_A, "\r\n", 1}, {"[\\n\\r]+", 0, S_A, "n", 0}, {"[\\n\\r]+", 0, S_A, "", 0}, {"[\\n\\r]+", 0, S_A, "r", 0},
    {"[a-c0-9_]", 0, S_A, "a", 1}, {"[a-c0-9_]", 0, S_A, "b", 1}, {"[a-c0-9_]", 0, S_A, "c", 1}, {"[a-c0-9_]", 0, S_A, "0", 1}, {"[a-c0-9_]", 0, S_A, "9", 1}, {"[a-c0-9_]", 0, S_A, "_", 1}, {"[a-c0-9_]", 0, S_A, "d", 0}, {"[a-c0-9_]", 0, S_A, "-", 0}, {"[a-c0-9_]", 0, S_A, "A", 0}, {"[a-c0-9_]", 0, S_A, "/", 0}, {"[a-c0-9_]", 0, S_A, ":", 0},
    {"[a-cx-z]*", 0, S_A, "abcxyz", 1}, {"[a-cx-z]*", 0, S_A, "", 1}, {"[a-cx-z]*", 0, S_A, "d", 0}, {"[a-cx-z]*", 0, S_A, "w", 0}, {"[a-cx-z]*", 0, S_A, "a-c", 0},
    {"[^a-cx-z]", 0, S_A, "d", 1}, {"[^a-cx-z]", 0, S_A, "w", 1}, {"[^a-cx-z]", 0, S_A, "-", 1}, {"[^a-cx-z]", 0, S_A, "a", 0}, {"[^a-cx-z]", 0, S_A, "b", 0}, {"[^a-cx-z]", 0, S_A, "z", 0},
    {"[^\\d\\s]", 0, S_A, "a", 1}, {"[^\\d\\s]", 0, S_A, "-", 1}, {"[^\\d\\s]", 0, S_A, "5", 0}, {"[^\\d\\s]", 0, S_A, " ", 0}, {"[^\\d\\s]", 0, S_A, "\t", 0},
    {"[\\w.]+@\\w+\\.\\w+", 0, S_A, "a.b@c.de", 1}, {"[\\w.]+@\\w+\\.\\w+", 0, S_A, "a.b@c", 0}, {"[\\w.]+@\\w+\\.\\w+", 0, S_A, "@c.de", 0}, {"[\\w.]+@\\w+\\.\\w+", 0, S_A, "a@b@c.d", 0},
    {"[\\l\\d]", 0, S_A, "a", 1}, {"[\\l\\d]", 0, S_A, "5", 1}, {"[\\l\\d]", 0, S_A, "A", 0}, {"[\\l\\d]", 0, S_A, "-", 0},
    {"[^\\u]", 0, S_A, "a", 1}, {"[^\\u]", 0, S_A, "5", 1}, {"[^\\u]", 0, S_A, "u", 1}, {"[^\\u]", 0, S_A, "A", 0},
    {"[\\\\]", 0, S_A, "\\", 1}, {"[\\\\]", 0, S_A, "a", 0}, {"[\\\\]", 0, S_A, "", 0},
    {"[a^]", 0, S_A, "a", 1}, {"[a^]", 0, S_A, "^", 1}, {"[a^]", 0, S_A, "b", 0},
    {"[.]", 0, S_A, ".", 1}, {"[.]", 0, S_A, "a", 0},
    {"[*+?|()]", 0, S_A, "*", 1}, {"[*+?|()]", 0, S_A, "+", 1}, {"[*+?|()]", 0, S_A, "?", 1}, {"[*+?|()]", 0, S_A, "|", 1}, {"[*+?|()]", 0, S_A, "(", 1}, {"[*+?|()]", 0, S_A, ")", 1}, {"[*+?|()]", 0, S_A, "a", 0},
    {"[_-z]", I, S_A, "_", 1}, {"[_-z]", I, S_A, "a", 1}, {"[_-z]", I, S_A, "A", 1}, {"[_-z]", I, S_A, "z", 1}, {"[_-z]", I, S_A, "Z", 1}, {"[_-z]", I, S_A, "`", 1}, {"[_-z]", I, S_A, "^", 0}, {"[_-z]", I, S_A, "@", 0}, {"[_-z]", I, S_A, "5", 0},
    {"[A-z]", I, S_A, "_", 1}, {"[A-z]", I, S_A, "a", 1}, {"[A-z]", I, S_A, "A", 1}, {"[A-z]", I, S_A, "z", 1}, {"[A-z]", I, S_A, "Z", 1}, {"[A-z]", I, S_A, "[", 1}, {"[A-z]", I, S_A, "@", 0}, {"[A-z]", I, S_A, "{", 0}, {"[A-z]", I, S_A, "5", 0},
    {"[X-b]", I, S_A, "X", 1}, {"[X-b]", I, S_A, "x", 1}, {"[X-b]", I, S_A, "Z", 1}, {"[X-b]", I, S_A, "z", 1}, {"[X-b]", I, S_A, "a", 1}, {"[X-b]", I, S_A, "A", 1}, {"[X-b]", I, S_A, "b", 1}, {"[X-b]", I, S_A, "B", 1}, {"[X-b]", I, S_A, "^", 1}, {"[X-b]", I, S_A, "w", 0}, {"[X-b]", I, S_A, "W", 0}, {"[X-b]", I, S_A, "c", 0}, {"[X-b]", I, S_A, "C", 0},
    {"[a-~]", I, S_A, "a", 1}, {"[a-~]", I, S_A, "A", 1}, {"[a-~]", I, S_A, "Z", 1}, {"[a-~]", I, S_A, "~", 1}, {"[a-~]", I, S_A, "_", 0}, {"[a-~]", I, S_A, "[", 0}, {"[a-~]", I, S_A, "@", 0},
    {"[0-f]", I, S_A, "0", 1}, {"[0-f]", I, S_A, "9", 1}, {"[0-f]", I, S_A, "A", 1}, {"[0-f]", I, S_A, "F", 1}, {"[0-f]", I, S_A, "f", 1}, {"[0-f]", I, S_A, "g", 1}, {"[0-f]", I, S_A, "_", 1}, {"[0-f]", I, S_A, "/", 0},
    {"[0-9]", I, S_A, "0", 1}, {"[0-9]", I, S_A, "9", 1}, {"[0-9]", I, S_A, "a", 0}, {"[0-9]", I, S_A, "/", 0}, {"[0-9]", I, S_A, ":", 0},
    {"[^a-c]", I, S_A, "d", 1}, {"[^a-c]", I, S_A, "D", 1}, {"[^a-c]", I, S_A, "_", 1}, {"[^a-c]", I, S_A, "a", 0}, {"[^a-c]", I, S_A, "A", 0}, {"[^a-c]", I, S_A, "C", 0}, {"[^a-c]", I, S_A, "c", 0},
    {"[a-cX]y", I, S_A, "aY", 1}, {"[a-cX]y", I, S_A, "Cy", 1}, {"[a-cX]y", I, S_A, "xy", 1}, {"[a-cX]y", I, S_A, "dy", 0}, {"[a-cX]y", I, S_A, "a", 0},
    {"x(a|b)y", 0, S_A, "xay", 1}, {"x(a|b)y", 0, S_A, "xby", 1}, {"x(a|b)y", 0, S_A, "xy", 0}, {"x(a|b)y", 0, S_A, "xaby", 0}, {"x(a|b)y", 0, S_A, "xcy", 0}, {"x(a|b)y", 0, S_A, "xa", 0},
    {"x(ab|cd|e)y", 0, S_A, "xaby", 1}, {"x(ab|cd|e)y", 0, S_A, "xcdy", 1}, {"x(ab|cd|e)y", 0, S_A, "xey", 1}, {"x(ab|cd|e)y", 0, S_A, "xady", 0}, {"x(ab|cd|e)y", 0, S_A, "xy", 0}, {"x(ab|cd|e)y", 0, S_A, "xcey", 0},
    {"(a|b)(c|d)", 0, S_A, "ac", 1}, {"(a|b)(c|d)", 0, S_A, "ad", 1}, {"(a|b)(c|d)", 0, S_A, "bc", 1}, {"(a|b)(c|d)", 0, S_A, "bd", 1}, {"(a|b)(c|d)", 0, S_A, "ab", 0}, {"(a|b)(c|d)", 0, S_A, "cd", 0}, {"(a|b)(c|d)", 0, S_A, "a", 0}, {"(a|b)(c|d)", 0, S_A, "c", 0}, {"(a|b)(c|d)", 0, S_A, "acd", 0},
    {"(a|b)\\d(c|d)", 0, S_A, "a1c", 1}, {"(a|b)\\d(c|d)", 0, S_A, "b2d", 1}, {"(a|b)\\d(c|d)", 0, S_A, "a1", 0}, {"(a|b)\\d(c|d)", 0, S_A, "1c", 0}, {"(a|b)\\d(c|d)", 0, S_A, "aac", 0},
    {"(a(b|c)d|e)", 0, S_A, "abd", 1}, {"(a(b|c)d|e)", 0, S_A, "acd", 1}, {"(a(b|c)d|e)", 0, S_A, "e", 1}, {"(a(b|c)d|e)", 0, S_A, "ad", 0}, {"(a(b|c)d|e)", 0, S_A, "abcd", 0}, {"(a(b|c)d|e)", 0, S_A, "ae", 0},
    {"x|yz*", 0, S_A, "x", 1}, {"x|yz*", 0, S_A, "y", 1}, {"x|yz*", 0, S_A, "yzz", 1}, {"x|yz*", 0, S_A, "xz", 0}, {"x|yz*", 0, S_A, "xy", 0}, {"x|yz*", 0, S_A, "z", 0}, {"x|yz*", 0, S_A, "", 0},
    {"x+|y+", 0, S_A, "x", 1}, {"x+|y+", 0, S_A, "xxx", 1}, {"x+|y+", 0, S_A, "yy", 1}, {"x+|y+", 0, S_A, "xy", 0}, {"x+|y+", 0, S_A, "yx", 0}, {"x+|y+", 0, S_A, "", 0},
    {"x\\d|y\\a", 0, S_A, "x1", 1}, {"x\\d|y\\a", 0, S_A, "yq", 1}, {"x\\d|y\\a", 0, S_A, "xq", 0}, {"x\\d|y\\a", 0, S_A, "y1", 0}, {"x\\d|y\\a", 0, S_A, "x", 0}, {"x\\d|y\\a", 0, S_A, "xx1", 0},
    {"(-|\\+)?\\d+", 0, S_A, "5", 1}, {"(-|\\+)?\\d+", 0, S_A, "-5", 1}, {"(-|\\+)?\\d+", 0, S_A, "+55", 1}, {"(-|\\+)?\\d+", 0, S_A, "--5", 0}, {"(-|\\+)?\\d+", 0, S_A, "-", 0}, {"(-|\\+)?\\d+", 0, S_A, "+", 0}, {"(-|\\+)?\\d+", 0, S_A, "5-", 0},
    {"((a|b)c)+", 0, S_A, "ac", 1}, {"((a|b)c)+", 0, S_A, "bcac", 1}, {"((a|b)c)+", 0, S_A, "abc", 0}, {"((a|b)c)+", 0, S_A, "acb", 0}, {"((a|b)c)+", 0, S_A, "ca", 0},
    {"((ab)c(de))f", 0, S_A, "abcdef", 1}, {"((ab)c(de))f", 0, S_A, "abcde", 0}, {"((ab)c(de))f", 0, S_A, "abcdeff", 0}, {"((ab)c(de))f", 0, S_A, "acdef", 0},
    {"(a)(b)(c)(d)(e)", 0, S_A, "abcde", 1}, {"(a)(b)(c)(d)(e)", 0, S_A, "abcd", 0}, {"(a)(b)(c)(d)(e)", 0, S_A, "abced", 0},
    {"(a(b(c(d))))", 0, S_A, "abcd", 1}, {"(a(b(c(d))))", 0, S_A, "abc", 0}, {"(a(b(c(d))))", 0, S_A, "abcdd", 0},
    {"(?:a|b)c(?:d)", 0, S_A, "acd", 1}, {"(?:a|b)c(?:d)", 0, S_A, "bcd", 1}, {"(?:a|b)c(?:d)", 0, S_A, "abcd", 0}, {"(?:a|b)c(?:d)", 0, S_A, "ac", 0},
    {"(a+)b", 0, S_A, "ab", 1}, {"(a+)b", 0, S_A, "aaab", 1}, {"(a+)b", 0, S_A, "b", 0}, {"(a+)b", 0, S_A, "aa", 0}, {"(a+)b", 0, S_A, "abb", 0},
    {"(a*)b", 0, S_A, "b", 1}, {"(a*)b", 0, S_A, "aab", 1}, {"(a*)b", 0, S_A, "a", 0}, {"(a*)b", 0, S_A, "ba", 0},
    {"(a?)(b?)c", 0, S_A, "c", 1}, {"(a?)(b?)c", 0, S_A, "ac", 1}, {"(a?)(b?)c", 0, S_A, "bc", 1}, {"(a?)(b?)c", 0, S_A, "abc", 1}, {"(a?)(b?)c", 0, S_A, "aac", 0}, {"(a?)(b?)c", 0, S_A, "bac", 0}, {"(a?)(b?)c", 0, S_A, "ab", 0},
    {"a{2}b{3}", 0, S_A, "aabbb", 1}, {"a{2}b{3}", 0, S_A, "abbb", 0}, {"a{2}b{3}", 0, S_A, "aabb", 0}, {"a{2}b{3}", 0, S_A, "aaabbb", 0}, {"a{2}b{3}", 0, S_A, "aabbbb", 0},
    {"a{1,2}b{1,2}", 0, S_A, "ab", 1}, {"a{1,2}b{1,2}", 0, S_A, "aab", 1}, {"a{1,2}b{1,2}", 0, S_A, "abb", 1}, {"a{1,2}b{1,2}", 0, S_A, "aabb", 1}, {"a{1,2}b{1,2}", 0, S_A, "a", 0}, {"a{1,2}b{1,2}", 0, S_A, "b", 0}, {"a{1,2}b{1,2}", 0, S_A, "aaab", 0}, {"a{1,2}b{1,2}", 0, S_A, "abbb", 0},
    {"(a{2}b){2}", 0, S_A, "aabaab", 1}, {"(a{2}b){2}", 0, S_A, "aab", 0}, {"(a{2}b){2}", 0, S_A, "aabab", 0}, {"(a{2}b){2}", 0, S_A, "aabaabaab", 0},
    {"\\d+\\.\\d+", 0, S_A, "1.2", 1}, {"\\d+\\.\\d+", 0, S_A, "12.34", 1}, {"\\d+\\.\\d+", 0, S_A, "1", 0}, {"\\d+\\.\\d+", 0, S_A, "1.", 0}, {"\\d+\\.\\d+", 0, S_A, ".2", 0}, {"\\d+\\.\\d+", 0, S_A, "1.2.3", 0}, {"\\d+\\.\\d+", 0, S_A, "1x2", 0},
    {"\\d+(\\.\\d+)?", 0, S_A, "1", 1}, {"\\d+(\\.\\d+)?", 0, S_A, "12.34", 1}, {"\\d+(\\.\\d+)?", 0, S_A, "1.", 0}, {"\\d+(\\.\\d+)?", 0, S_A, ".2", 0}, {"\\d+(\\.\\d+)?", 0, S_A, "1.2.3", 0},
    {"a+b+c+", 0, S_A, "abc", 1}, {"a+b+c+", 0, S_A, "aabbcc", 1}, {"a+b+c+", 0, S_A, "ac", 0}, {"a+b+c+", 0, S_A, "ab", 0}, {"a+b+c+", 0, S_A, "acb", 0}, {"a+b+c+", 0, S_A, "abca", 0},
    {"a*b*c*", 0, S_A, "", 1}, {"a*b*c*", 0, S_A, "abc", 1}, {"a*b*c*", 0, S_A, "c", 1}, {"a*b*c*", 0, S_A, "aacc", 1}, {"a*b*c*", 0, S_A, "ba", 0}, {"a*b*c*", 0, S_A, "cb", 0}, {"a*b*c*", 0, S_A, "d", 0},
    {"a?b?c?", 0, S_A, "", 1}, {"a?b?c?", 0, S_A, "ac", 1}, {"a?b?c?", 0, S_A, "b", 1}, {"a?b?c?", 0, S_A, "abc", 1}, {"a?b?c?", 0, S_A, "aa", 0}, {"a?b?c?", 0, S_A, "ca", 0}, {"a?b?c?", 0, S_A, "abcc", 0},
    {"\"[^\"]*\"", 0, S_A, "\"\"", 1}, {"\"[^\"]*\"", 0, S_A, "\"ab\"", 1}, {"\"[^\"]*\"", 0, S_A, "\"", 0}, {"\"[^\"]*\"", 0, S_A, "\"a", 0}, {"\"[^\"]*\"", 0, S_A, "a\"", 0}, {"\"[^\"]*\"", 0, S_A, "\"a\"b\"", 0},
    {"0x[0-9a-f]+", I, S_A, "0XfF", 1}, {"0x[0-9a-f]+", I, S_A, "0x1", 1}, {"0x[0-9a-f]+", I, S_A, "0x", 0}, {"0x[0-9a-f]+", I, S_A, "x1", 0}, {"0x[0-9a-f]+", I, S_A, "0xg", 0},
    {"^(a|b)$", 0, S_A, "a", 1}, {"^(a|b)$", 0, S_A, "b", 1}, {"^(a|b)$", 0, S_A, "ab", 0}, {"^(a|b)$", 0, S_A, "", 0}, {"^(a|b)$", 0, S_A, "c", 0},
    {"a\\|b", 0, S_A, "a|b", 1}, {"a\\|b", 0, S_A, "a", 0}, {"a\\|b", 0, S_A, "b", 0}, {"a\\|b", 0, S_A, "a\\", 0},
    {"\\*\\+\\?\\{\\}\\[\\]\\^\\$", 0, S_A, "*+?{}[]^$", 1}, {"\\*\\+\\?\\{\\}\\[\\]\\^\\$", 0, S_A, "*", 0}, {"\\*\\+\\?\\{\\}\\[\\]\\^\\$", 0, S_A, "*+?{}[]^", 0},
};
#define NI ((int)(sizeof items / sizeof items[0]))
static void item(int i, int v) {
    cin = items[i].set == S_ANY ? vf_anychar() : pick(items[i].set, 1, i + v);
    cout = pick(items[i].set, 0, 7 * i + v);
    rx = arg_rexn("r", 0, items[i].pat, 0, 0, 2, items[i].flags, 0);
    build(items[i].tmpl);
    judge(items[i].ok);
}
#define NI2 ((int)(sizeof items2 / sizeof items2[0]))
#undef I
static void item2(int i) {
    rx = arg_rexn("r", 0, items2[i].pat, 0, 0, 2, items2[i].flags, 0);
    build(items2[i].tmpl);
    judge(items2[i].ok);
}
// VFSC props=C12 shards=8 slevel=40000 defs="-DVF_FAST"
void sc_rex_items2(void) {
    int i = vf_choose(0, NI2 - 1);
    VF_SHARD(i);
    vf_cid = i;
    item2(i);
}
// VFSC props=C12 shards=8 slevel=40000
void sc_rex_items(void) {
    int i = vf_choose(0, NI - 1);
    int v = vf_choose(0, 2);
    VF_SHARD(i);
    vf_cid = 10 * i + v;
    item(i, v);
}
/* patterns that are not well-formed never match anything and never crash:
 * once up to the point where the compiler gives up, once from there on */
#define NM 26
static const char *const bad[NM] = {"(", ")", "a)", "(a", "((a)", "[", "[]", "[a", "[^", "[^]", "[a-", "[b-a]", "[\\d-z]", "\\", "a\\", "[\\", "a{", "a{x", "a{1", "a{1,", "a{1,2", "a{1;2}", "(?a)", "(?", "a**", "a{99999999999}"};
// VFSC props=C12
void sc_rex_malformed(void) {
    int i = vf_choose(0, NM - 1), rc;
    long live;
    vf_cid = i;
    vf_setjmp_mode = 1;
    rx = arg_rexn("r", 0, bad[i], 0, 0, 2, 0, 0);
    live = vf_live;
    vf_setjmp_mode = 0;
    vf_longjmps_allowed = 1; /* reaching the error exit ends the class */
    text[0] = 'a';
    text[1] = 0;
    VF_BEGIN();
    rc = rx->hdr.scanfn(rx->hdr.parent, text);
    VF_END();
    VF("C12", rc == ARG_ERR_REGNOMATCH && rx->count == 0, "a pattern that is not well-formed is taken as one, and a text accepted");
    VF("C12", vf_live == live, "refusing a pattern does not release its memory");
}
// VFSC props=C12
void sc_rex_malformed_exit(void) {
    int i = vf_choose(0, NM - 1), rc;
    long live;
    vf_cid = i;
    vf_setjmp_mode = 1;
    vf_longjmps_allowed = 1;
    rx = arg_rexn("r", 0, bad[i], 0, 0, 2, 0, 0);
    live = vf_live;
    VF("C12", live == 1, "refusing a pattern does not release its memory");
    text[0] = 'a';
    text[1] = 0;
    VF_BEGIN();
    rc = rx->hdr.scanfn(rx->hdr.parent, text);
    VF_END();
    VF("C12", rc == ARG_ERR_REGNOMATCH && rx->count == 0, "a pattern that is not well-formed accepts a text");
    VF("C12", vf_live == live, "refusing a pattern does not release its memory");
}
/* through a whole parse */
// VFSC props=C12
void sc_rex_parse(void) {
    void *tab[3];
    struct arg_rex *p;
    struct arg_end *en;
    char *argv[4];
    int k = vf_choose(0, 2), ret;
    tab[0] = rx = arg_rexn("r", "rex", "\\d+", 0, 0, 2, 0, 0);
    tab[1] = p = arg_rexn(0, 0, "on|off", 0, 0, 2, ARG_REX_ICASE, 0);
    tab[2] = en = arg_end(4);
    argv[0] = "prog";
    argv[1] = k == 0 ? "-r12" : k == 1 ? "--rex=1x" : "-r7";
    argv[2] = k == 2 ? "offf" : "OFF";
    argv[3] = 0;
    vf_cid = k;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    VF("C12", (ret == 0) == (k == 0), "texts are accepted or refused against the pattern");
    if (ret)
        VF("C12", ret == 1 && en->error[0] == ARG_ERR_REGNOMATCH && en->parent[0] == (k == 1 ? (void *)rx : (void *)p), "a refused text is not reported against its option");
    if (k == 0)
        VF("C12", rx->count == 1 && rx->sval[0] == argv[1] + 2 && p->count == 1 && p->sval[0] == argv[2], "an accepted text is not stored");
}
/* a malformed pattern is refused silently, at construction and at every use */
// VFSC props=C26,C18
void sc_rex_silent(void) {
    int i = vf_choose(0, NM - 1), ret, pos = vf_choose(0, 1);
    void *tab[2];
    char *argv[3];
    long live;
    vf_cid = 2 * i + pos;
    vf_setjmp_mode = 1;
    vf_longjmps_allowed = 1;
    rx = arg_rexn(pos ? 0 : "r", 0, bad[i], 0, 0, 2, 0, 0);
    tab[0] = rx;
    tab[1] = arg_end(3);
    argv[0] = "prog";
    argv[1] = pos ? "a" : "-ra";
    argv[2] = 0;
    live = vf_live;
    vf_printed = 0; /* construction may log a bad pattern */
    vf_outlen = 0;
    VF_BEGIN();
    ret = arg_parse(2, argv, tab);
    VF_END();
    VF("C26", vf_printed == 0 && vf_outlen == 0 && vf_exited == 0, "parsing writes to a stream or ends the process");
    VF("C18", vf_live == live, "parsing with a malformed pattern leaves memory behind");
}
/* every value type, good, bad, missing and surplus values, in silence */
static double dbuf26[4];
// VFSC props=C26,C18 shards=6
void sc_types_silent(void) {
    int t = vf_choose(0, 5), w = vf_choose(0, 5), v = vf_choose(0, 5), lng = vf_choose(0, 1), ret;
    static const char *const sh[6] = {"-x7", "-xq", "-x", "7", "-xx", "-x99999999999999999999"};
    static const char *const lg[6] = {"--xx=7", "--xx=q", "--xx", "--x", "--xx=", "--xy"};
    void *tab[2];
    char *argv[4];
    long live;
    VF_SHARD(t);
    vf_cid = 1000 * t + 100 * w + 10 * v + lng;
    switch (t) {
        case 0: tab[0] = arg_intn("x", "xx", 0, 1, 1, 0); break;
        case 1: {
            struct arg_dbl *d = arg_dbln("x", "xx", 0, 1, 1, 0);
            d->dval = dbuf26;
            tab[0] = d;
            break;
        }
        case 2: tab[0] = arg_strn("x", "xx", 0, 1, 1, 0); break;
        case 3: tab[0] = arg_rexn("x", "xx", "[0-9]", 0, 1, 1, 0, 0); break;
        case 4: tab[0] = arg_filen("x", "xx", 0, 1, 1, 0); break;
        default: tab[0] = arg_daten("x", "xx", "%d", 0, 1, 1, 0); break;
    }
    tab[1] = arg_end(3);
    argv[0] = "prog";
    argv[1] = (char *)(lng ? lg[w] : sh[w]);
    argv[2] = (char *)(lng ? lg[v] : sh[v]);
    argv[3] = 0;
    live = vf_live;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    VF("C26", vf_printed == 0 && vf_outlen == 0 && vf_exited == 0, "parsing writes to a stream or ends the process");
    VF("C18", vf_live == live, "parsing leaves memory behind");
}

/* repetition counts of more than one digit */
// VFSC props=C12 defs="-DVF_FAST" slevel=300000 shards=4
void sc_rex_counts(void) {
    static const char *const pt[6] = {"a{10}", "a{12,}", "a{2,11}", "a{0,10}", "[ab]{10,20}", "(?:ab){10}"};
    static const int lo[6] = {10, 12, 2, 0, 10, 20}, hi[6] = {10, 99, 11, 10, 20, 20};
    static const int len[11] = {0, 1, 2, 9, 10, 11, 12, 13, 19, 20, 21};
    static char w[24];
    struct arg_rex *e;
    int p = vf_choose(0, 5), k = vf_choose(0, 10), i, n, r, want;
    VF_SHARD(p);
    vf_cid = 100 * p + k;
    n = len[k];
    for (i = 0; i < n; i++)
        w[i] = p == 5 && (i & 1) ? 'b' : 'a';
    w[n] = 0;
    want = n >= lo[p] && n <= hi[p];
    e = arg_rexn(0, 0, pt[p], 0, 0, 1, 0, 0);
    VF_BEGIN();
    r = e->hdr.scanfn(e, w);
    VF("C12", r == (want ? 0 : ARG_ERR_REGNOMATCH) && e->count == want, "a repetition count of two digits is misread");
    VF_END();
}
