/* Date options: every two-digit number for every numeric conversion, names in
 * any mixture of case, composites, modifiers, white space, rejects. */
#include "vf.h"
#include <string.h>
#include <time.h>

static struct arg_date *dt;
static struct tm before;
static void mk(const char *fmt) {
    dt = arg_daten("d", 0, fmt, 0, 0, 3, 0);
    dt->hdr.resetfn(dt->hdr.parent);
    /* presets, so that a field that must not change can be told apart */
    before.tm_sec = 1; before.tm_min = 2; before.tm_hour = 3; before.tm_mday = 4; before.tm_mon = 5;
    before.tm_year = 66; before.tm_wday = 6; before.tm_yday = 8; before.tm_isdst = 0;
    dt->tmval[0] = before;
    dt->tmval[1] = before;
}
static struct tm want;
static int good;
static void judge(const char *text) {
    int rc;
    struct tm *g = &dt->tmval[0];
    VF_BEGIN();
    rc = dt->hdr.scanfn(dt->hdr.parent, text);
    VF_END();
    if (good) {
        VF("C11", rc == 0, "a text in the option's format is refused");
        VF("C11", dt->count == 1, "an accepted date is not counted once");
    } else {
        VF("C11", rc == ARG_ERR_BADDATE, "a text that is not in the option's format is accepted, or refused as another kind of error");
        VF("C11", dt->count == 0, "a refused date is counted");
        want = before;
    }
    VF("C11", g->tm_sec == want.tm_sec && g->tm_min == want.tm_min && g->tm_hour == want.tm_hour, "the stored time of day is not the one written");
    VF("C11", g->tm_mday == want.tm_mday && g->tm_mon == want.tm_mon && g->tm_year == want.tm_year, "the stored date is not the one written");
    VF("C11", g->tm_wday == want.tm_wday && g->tm_yday == want.tm_yday, "the stored weekday or day of year is not the one written");
    VF("C11", dt->tmval[1].tm_mday == before.tm_mday && dt->tmval[1].tm_hour == before.tm_hour && dt->tmval[1].tm_year == before.tm_year, "another value is disturbed");
}
/* numeric conversions: letter, limits, field, bias */
enum { F_SEC, F_MIN, F_HOUR, F_MDAY, F_MON, F_YEAR, F_WDAY, F_YDAY, F_NONE };
#define NN 15
static const char letters[NN] = {'d', 'e', 'H', 'k', 'I', 'l', 'j', 'M', 'm', 'S', 'U', 'W', 'w', 'y', 'C'};
static const int lows[NN] = {1, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0};
static const int highs[NN] = {31, 31, 23, 23, 12, 12, 366, 59, 12, 61, 53, 53, 6, 99, 99};
static const int fields[NN] = {F_MDAY, F_MDAY, F_HOUR, F_HOUR, F_HOUR, F_HOUR, F_YDAY, F_MIN, F_MON, F_SEC, F_NONE, F_NONE, F_WDAY, F_YEAR, F_YEAR};
static void put(int f, int v) {
    switch (f) {
        case F_SEC: want.tm_sec = v; break;
        case F_MIN: want.tm_min = v; break;
        case F_HOUR: want.tm_hour = v; break;
        case F_MDAY: want.tm_mday = v; break;
        case F_MON: want.tm_mon = v; break;
        case F_YEAR: want.tm_year = v; break;
        case F_WDAY: want.tm_wday = v; break;
        case F_YDAY: want.tm_yday = v; break;
        default: break;
    }
}
static void numeric(int s, int nd, int v, int mod) {
    char fmt[4], t[5];
    int i = 0, maxd = highs[s] > 99 ? 3 : highs[s] > 9 ? 2 : 1, w = v;
    fmt[i++] = '%';
    if (mod)
        fmt[i++] = mod == 1 ? 'E' : 'O';
    fmt[i++] = letters[s];
    fmt[i] = 0;
    mk(fmt);
    i = 0;
    if (nd > 2)
        t[i++] = (char)('0' + v / 100);
    if (nd > 1)
        t[i++] = (char)('0' + v / 10 % 10);
    t[i++] = (char)('0' + v % 10);
    t[i] = 0;
    want = before;
    good = nd <= maxd && v >= lows[s] && v <= highs[s];
    if (mod == 1 && letters[s] != 'C' && letters[s] != 'y')
        good = 0;
    if (mod == 2 && (letters[s] == 'C' || letters[s] == 'k' || letters[s] == 'l' || letters[s] == 'j'))
        good = 0;
    if (good) {
        switch (letters[s]) {
            case 'I': case 'l': w = v % 12; break;
            case 'j': w = v - 1; break;
            case 'm': w = v - 1; break;
            case 'y': w = v <= 68 ? v + 100 : v; break;
            case 'C': w = v * 100 - 1900; break;
            default: break;
        }
        put(fields[s], w);
    }
    judge(t);
}
// VFSC props=C11 shards=8 slevel=20000
void sc_date_numeric(void) {
    int s = vf_choose(0, NN - 1), nd, v;
    v = vf_choose(0, 102);
    VF_SHARD(v + s);
    nd = vf_choose(1, 3);
    if ((nd == 1 && v > 9) || (nd == 2 && v > 99) || (nd == 3 && v > 9 && v < 100))
        vf_stop();
    vf_cid = s * 10000 + v * 10 + nd;
    numeric(s, nd, v, 0);
}
// VFSC props=C11
void sc_date_modifier(void) {
    int s = vf_choose(0, NN - 1), m = vf_choose(1, 2), v = vf_choose(5, 6);
    vf_cid = s * 100 + v * 10 + m;
    numeric(s, 1, v, m);
}
/* day of year and four-digit year */
// VFSC props=C11
void sc_date_wide(void) {
    static const char *const yd[8] = {"365", "366", "367", "370", "400", "1000", "0366", "000"};
    static const char *const yy[9] = {"0", "1", "1899", "1900", "2038", "9999", "10000", "0005", "99"};
    static const int yv[9] = {0, 1, 1899, 1900, 2038, 9999, 0, 5, 99};
    int k = vf_choose(0, 16);
    vf_cid = k;
    want = before;
    if (k < 8) {
        mk("%j");
        want = before;
        good = k < 2;
        want.tm_yday = k == 0 ? 364 : 365;
        judge(yd[k]);
    } else {
        mk("%Y");
        want = before;
        good = k - 8 != 6;
        want.tm_year = yv[k - 8] - 1900;
        judge(yy[k - 8]);
    }
}
/* names: each letter independently in either case */
static const char *const fullm[12] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
static const char *const fullw[7] = {"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"};
static char bothcase(char c) {
    if (Frama_C_interval(0, 1))
        return (char)(c - 32);
    return c;
}
static void name(int k, int how, int let) {
    char t[16];
    const char *n = k < 12 ? fullm[k] : fullw[k - 12];
    int i;
    mk(k < 12 ? (let == 0 ? "%b" : let == 1 ? "%B" : "%h") : let == 0 ? "%a" : "%A");
    for (i = 0; n[i]; i++)
        t[i] = bothcase(n[i]);
    t[i] = 0;
    if (how == 1)
        t[i = 3] = 0;
    if (how == 2)
        t[2] = 0; /* too short */
    if (how == 3) {
        t[3] = '#';
        t[4] = 0;
    }
    if (how == 4) {
        t[i] = '#';
        t[i + 1] = 0;
    }
    if (how == 5) /* the last letter is another one */
        t[i - 1] = '#';
    if (how == 6) /* the last letter is missing */
        t[i - 1] = 0;
    want = before;
    good = how < 2 || (how == 6 && i == 4); /* "jun", "jul" */
    if (k < 12)
        want.tm_mon = k;
    else
        want.tm_wday = k - 12;
    judge(t);
}
// VFSC props=C11
void sc_date_names(void) {
    int k = vf_choose(0, 18), how = vf_choose(0, 6), let = vf_choose(0, 2);
    if (k >= 12 && let == 2)
        vf_stop();
    vf_cid = k * 100 + how * 10 + let;
    name(k, how, let);
}
/* am/pm, two-digit year with century, composites, literals, white space */
#define NC 44
static const char *const cf[NC] = {
    "%I:%M %p", "%I:%M %p", "%I:%M %p", "%I:%M %p", "%I:%M %p", "%H %p", "%r", "%C%y", "%y%C", "%C%y",
    "%D", "%R", "%T", "%X", "%x", "%c", "%Y-%m-%d", "%Y-%m-%d", "%d.%m", "%d%%", "%d%%", "%H%n%M", "%H%t%M", "%H %M", "%H %M", "x%dy", "x%dy", "%d", "%d", "%q", "%",
    "%Ec", "%Ex", "%EX", "%ED", "%OY", "%EOd", "%EEy", "%d/%m", "%H:%M", "%y", "%y", "%H:%M:%S", ""};
static const char *const ct[NC] = {
    "12:05 am", "12:05 PM", "11:59 pM", "1:00 AM", "13:00 AM", "13 pm", "02:03:04 pm", "1850", "0519", "2001",
    "12/31/68", "23:59", "23:59:61", "00:00:00", "01/02/69", "01/02/03 04:05:06", "2024-02-29", "2024-02-30x", "31.13", "7%", "7", "5 \t7", "5\n7", "57", "5:7", "x9y", "x9", "9 ", " 9", "1", "1",
    "01/02/03 04:05:06", "01/02/03", "04:05:06", "01/02/03", "2000", "1", "1", "05/13", "24:00", "68", "69", "9:8:7", ""};
static const int cg[NC] = {
    1, 1, 1, 1, 0, 0, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0,
    1, 1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1};
static void composite(int k) {
    mk(cf[k]);
    want = before;
    good = cg[k];
    switch (k) {
        case 0: want.tm_hour = 0; want.tm_min = 5; break;
        case 1: want.tm_hour = 12; want.tm_min = 5; break;
        case 2: want.tm_hour = 23; want.tm_min = 59; break;
        case 3: want.tm_hour = 1; want.tm_min = 0; break;
        case 6: want.tm_hour = 14; want.tm_min = 3; want.tm_sec = 4; break;
        case 7: want.tm_year = -50; break;
        case 8: want.tm_year = 5; break;
        case 9: want.tm_year = 101; break;
        case 10: want.tm_mon = 11; want.tm_mday = 31; want.tm_year = 168; break;
        case 11: want.tm_hour = 23; want.tm_min = 59; break;
        case 12: want.tm_hour = 23; want.tm_min = 59; want.tm_sec = 61; break;
        case 13: want.tm_hour = 0; want.tm_min = 0; want.tm_sec = 0; break;
        case 14: case 32:
            want.tm_mon = 0; want.tm_mday = 2; want.tm_year = k == 14 ? 69 : 103; break;
        case 15: case 31:
            want.tm_mon = 0; want.tm_mday = 2; want.tm_year = 103; want.tm_hour = 4; want.tm_min = 5; want.tm_sec = 6; break;
        case 16: want.tm_year = 124; want.tm_mon = 1; want.tm_mday = 29; break;
        case 19: want.tm_mday = 7; break;
        case 21: case 22: want.tm_hour = 5; want.tm_min = 7; break;
        case 25: want.tm_mday = 9; break;
        case 33: want.tm_hour = 4; want.tm_min = 5; want.tm_sec = 6; break;
        case 40: want.tm_year = 168; break;
        case 41: want.tm_year = 69; break;
        case 42: want.tm_hour = 9; want.tm_min = 8; want.tm_sec = 7; break;
        default: break;
    }
    judge(ct[k]);
}
// VFSC props=C11
void sc_date_composite(void) {
    int k = vf_choose(0, NC - 1);
    if (k == 23 || k == 36) /* "57" under "%H %M" and "%EO": digits are taken greedily; no claim */
        vf_stop();
    vf_cid = k;
    composite(k);
}
/* classes: a conversion letter that does not exist; any character behind a
 * complete date; any character that is no digit where one is needed; a
 * literal that differs */
static char unsupported(void) {
    char c = vf_anychar();
    switch (c) {
        case 'E': case 'O': case 'c': case 'D': case 'R': case 'r': case 'T': case 'X': case 'x': case 'A': case 'a': case 'B': case 'b': case 'h': case 'C': case 'd': case 'e':
        case 'k': case 'H': case 'l': case 'I': case 'j': case 'M': case 'm': case 'p': case 'S': case 'U': case 'W': case 'w': case 'Y': case 'y': case 'n': case 't': case '%':
            c = 'Q';
            break;
        default: break;
    }
    return c;
}
static char nodigit(void) {
    char c = vf_anychar();
    if (c >= '0' && c <= '9')
        c = '_';
    return c;
}
static char nospace(void) {
    char c = vf_anychar();
    if (c == ' ' || (c >= 9 && c <= 13) || c == '/' || c == '%')
        c = '_';
    return c;
}
static char fmt[8], t[8];
static void classes(int k) {
    switch (k) {
        case 0: fmt[0] = '%'; fmt[1] = unsupported(); fmt[2] = 0; t[0] = vf_anychar(); t[1] = 0; break;
        case 1: fmt[0] = '%'; fmt[1] = 'd'; fmt[2] = 0; t[0] = '1'; t[1] = nodigit(); t[2] = vf_anychar(); t[3] = 0; break;
        case 2: fmt[0] = '%'; fmt[1] = 'H'; fmt[2] = 0; t[0] = nodigit(); t[1] = vf_anychar(); t[2] = 0; break;
        case 3: fmt[0] = '%'; fmt[1] = 'd'; fmt[2] = '/'; fmt[3] = '%'; fmt[4] = 'm'; fmt[5] = 0; t[0] = '1'; t[1] = nospace(); t[2] = '1'; t[3] = 0;
            if (t[1] >= '0' && t[1] <= '9') t[1] = ':'; break;
        case 4: fmt[0] = '%'; fmt[1] = 'd'; fmt[2] = ' '; fmt[3] = 'z'; fmt[4] = 0; t[0] = '3'; t[1] = Frama_C_char_interval(9, 13); t[2] = ' '; t[3] = 'z'; t[4] = 0; break;
        default: fmt[0] = '%'; fmt[1] = 'd'; fmt[2] = 0; t[0] = 0; break;
    }
    mk(fmt);
    want = before;
    good = k == 4;
    if (good)
        want.tm_mday = 3;
    judge(t);
}
// VFSC props=C11
void sc_date_classes(void) {
    int k = vf_choose(0, 5);
    vf_cid = k;
    classes(k);
}
/* whole parse: values in order, default format, count, left-out value */
// VFSC props=C11
void sc_date_parse(void) {
    void *tab[2];
    struct arg_end *en;
    char *argv[5];
    int k = vf_choose(0, 3), ret;
    tab[0] = dt = arg_daten("d", "date", k == 3 ? 0 : "%d.%m.%Y", 0, 0, 2, 0);
    tab[1] = en = arg_end(4);
    argv[0] = "prog";
    argv[1] = k == 3 ? "-d12/24/99" : "-d24.12.1999";
    argv[2] = k == 0 ? "--date=1.2.2003" : k == 1 ? "-d1.2" : k == 2 ? "-d1.13.2003" : "--date";
    argv[3] = "01/02/03";
    argv[4] = 0;
    vf_cid = k;
    VF_BEGIN();
    ret = arg_parse(k == 3 ? 4 : 3, argv, tab);
    VF_END();
    VF("C11", dt->tmval[0].tm_mday == 24 && dt->tmval[0].tm_mon == 11 && dt->tmval[0].tm_year == 99, "the stored date is not the one written");
    if (k == 0)
        VF("C11", ret == 0 && dt->count == 2 && dt->tmval[1].tm_mday == 1 && dt->tmval[1].tm_mon == 1 && dt->tmval[1].tm_year == 103, "the second date is not the one written");
    else if (k == 3)
        VF("C11", ret == 0 && dt->count == 2 && dt->tmval[1].tm_mday == 2 && dt->tmval[1].tm_mon == 0 && dt->tmval[1].tm_year == 103, "the second date is not the one written");
    else {
        VF("C11", ret == 1 && dt->count == 1 && en->error[0] == ARG_ERR_BADDATE && en->parent[0] == dt, "a text that is not in the option's format is accepted");
        VF("C11", dt->tmval[1].tm_mday == 0 && dt->tmval[1].tm_mon == 0 && dt->tmval[1].tm_year == 0, "a refused date leaves traces in the values");
    }
}

/* several conversions in one format: a modifier, a name, a century or a half
 * day acts on its own conversion only, wherever it stands */
#define X -9999
struct multi {
    const char *fmt, *text;
    int good, sec, min, hour, mday, mon, year, wday, yday;
};
static const struct multi ms[] = {
    {"%Ey %d", "05 6", 1, X, X, X, 6, X, 105, X, X},
    {"%d %Ey", "6 70", 1, X, X, X, 6, X, 70, X, X},
    {"%EY-%m-%d", "1999-12-31", 1, X, X, X, 31, 11, 99, X, X},
    {"%EC%d", "2007", 1, X, X, X, 7, X, 100, X, X},
    {"%Ex %H", "01/02/03 4", 1, X, X, 4, 2, 0, 103, X, X},
    {"%EX %j", "01:02:03 45", 1, 3, 2, 1, X, X, X, X, 44},
    {"%Ec %w", "01/02/03 04:05:06 2", 1, 6, 5, 4, 2, 0, 103, 2, X},
    {"%Od %b", "5 mar", 1, X, X, X, 5, 2, X, X, X},
    {"%Om/%Od/%Oy", "5/6/07", 1, X, X, X, 6, 4, 107, X, X},
    {"%OH:%OM:%OS %p", "5:6:7 pm", 1, 7, 6, 17, X, X, X, X, X},
    {"%Oe%%%j", "5%6", 1, X, X, X, 5, X, X, X, 5},
    {"%OI %T", "5 1:2:3", 1, 3, 2, 1, X, X, X, X, X},
    {"%Ow %A", "5 friday", 1, X, X, X, X, X, X, 5, X},
    {"%OU %k", "53 5", 1, X, X, 5, X, X, X, X, X},
    {"%OW %D", "0 1/2/70", 1, X, X, X, 2, 0, 70, X, X},
    {"%Ed", "5", 0, X, X, X, X, X, X, X, X},
    {"%d %Ed", "5 6", 0, X, X, X, X, X, X, X, X},
    {"%Ey %Ed", "5 6", 0, X, X, X, X, X, X, X, X},
    {"%Od %Oj", "5 6", 0, X, X, X, X, X, X, X, X},
    {"%Oc", "01/02/03 04:05:06", 0, X, X, X, X, X, X, X, X},
    {"%Ox", "01/02/03", 0, X, X, X, X, X, X, X, X},
    {"%OX", "04:05:06", 0, X, X, X, X, X, X, X, X},
    {"%OD", "01/02/03", 0, X, X, X, X, X, X, X, X},
    {"%Ob", "may", 0, X, X, X, X, X, X, X, X},
    {"%EA", "friday", 0, X, X, X, X, X, X, X, X},
    {"%Er", "1:2:3 am", 0, X, X, X, X, X, X, X, X},
    {"%OR", "1:2", 0, X, X, X, X, X, X, X, X},
    {"%ET", "1:2:3", 0, X, X, X, X, X, X, X, X},
    {"%Ep", "am", 0, X, X, X, X, X, X, X, X},
    {"%B %d, %Y", "September 30, 2001", 1, X, X, X, 30, 8, 101, X, X},
    {"%b%d", "jun5", 1, X, X, X, 5, 5, X, X, X},
    {"%b%d", "june5", 1, X, X, X, 5, 5, X, X, X},
    {"%A, %d %b %y", "wednesday, 5 MAY 69", 1, X, X, X, 5, 4, 69, 3, X},
    {"%a%b", "wedaug", 1, X, X, X, X, 7, X, 3, X},
    {"%d-%b-%Y %T", "31-Dec-1969 23:59:59", 1, 59, 59, 23, 31, 11, 69, X, X},
    {"%Y%m%d", "20010203", 1, X, X, X, 3, 1, 101, X, X},
    {"%y%m%d%H%M%S", "010203040506", 1, 6, 5, 4, 3, 1, 101, X, X},
    {"%C%y%m", "210705", 1, X, X, X, X, 4, 207, X, X},
    {"%y %C %d", "68 19 4", 1, X, X, X, 4, X, 68, X, X},
    {"%y %C", "70 20", 1, X, X, X, X, X, 170, X, X},
    {"%C %C", "19 20", 1, X, X, X, X, X, 100, X, X},
    {"%j %Y", "366 2000", 1, X, X, X, X, X, 100, X, 365},
    {"%I %p", "12 am", 1, X, X, 0, X, X, X, X, X},
    {"%l%p", "12PM", 1, X, X, 12, X, X, X, X, X},
    {"%I:%M %p", "0:30 am", 0, X, X, X, X, X, X, X, X},
    {"%I %p", "5 xm", 0, X, X, X, X, X, X, X, X},
    {"%I %p", "5 a", 0, X, X, X, X, X, X, X, X},
    {"%I %p", "5 amx", 0, X, X, X, X, X, X, X, X},
    {"%I %p", "5", 0, X, X, X, X, X, X, X, X},
    {"%I%p %d", "5pm 7", 1, X, X, 17, 7, X, X, X, X},
    {"%I %p, %D", "12 AM, 2/3/04", 1, X, X, 0, 3, 1, 104, X, X},
    {"%r %Y", "11:12:13 Pm 1970", 1, 13, 12, 23, X, X, 70, X, X},
    {"%I%p%%", "7am%", 1, X, X, 7, X, X, X, X, X},
    {"%d %I:%M%p.", "1 1:01pm.", 1, X, 1, 13, 1, X, X, X, X},
    {"%p %I", "pm 3", 1, X, X, 15, X, X, X, X, X},
    {"%p %I:%M", "am 12:05", 1, X, 5, 0, X, X, X, X, X},
    {"%p%l", "PM12", 1, X, X, 12, X, X, X, X, X},
    {"%T %d", "1:2:3", 0, X, X, X, X, X, X, X, X},
    {"%T %d", "1:2 3", 0, X, X, X, X, X, X, X, X},
    {"%D%%", "1/2/03%", 1, X, X, X, 2, 0, 103, X, X},
    {"%%%d%%", "%5%", 1, X, X, X, 5, X, X, X, X},
    {"%n%d%t", " \t5\n", 1, X, X, X, 5, X, X, X, X},
    {"%n%d%t", "5", 1, X, X, X, 5, X, X, X, X},
    {"%En5", "5", 0, X, X, X, X, X, X, X, X},
    {"%d E", "5 E", 1, X, X, X, 5, X, X, X, X},
    {"E%dO", "E5O", 1, X, X, X, 5, X, X, X, X},
    {"%H-%M", "3--4", 0, X, X, X, X, X, X, X, X},
    {"%H-%M", "-3-4", 0, X, X, X, X, X, X, X, X},
    {"%H+%M", "3+4", 1, X, 4, 3, X, X, X, X, X},
    {"%H%M", "030", 1, X, 0, 3, X, X, X, X, X},
    {"%d%d", "2109", 1, X, X, X, 9, X, X, X, X},
    {"%m", "00", 0, X, X, X, X, X, X, X, X},
};
#define NMS ((int)(sizeof ms / sizeof ms[0]))
static void set1(int *f, int v) {
    if (v != X)
        *f = v;
}
static void multi(int k) {
    const struct multi *m = &ms[k];
    mk(m->fmt);
    dt->tmval[0].tm_hour = before.tm_hour;
    want = before;
    good = m->good;
    set1(&want.tm_sec, m->sec);
    set1(&want.tm_min, m->min);
    set1(&want.tm_hour, m->hour);
    set1(&want.tm_mday, m->mday);
    set1(&want.tm_mon, m->mon);
    set1(&want.tm_year, m->year);
    set1(&want.tm_wday, m->wday);
    set1(&want.tm_yday, m->yday);
    judge(m->text);
}
// VFSC props=C11
void sc_date_multi(void) {
    int k = vf_choose(0, NMS - 1);
    vf_cid = k;
    multi(k);
}
/* a format that names only some fields: the others keep what the program put
 * into that value, whatever was parsed before it, in this parse or an earlier
 * one */
// VFSC props=C11
void sc_date_partial(void) {
    static const char *const fm[5] = {"%H:%M", "%d", "%b", "%y", "%S"};
    static const char *const tx[5][3] = {{"1:2", "13:14", "23:00"}, {"1", "12", "31"}, {"jan", "Jul", "DEC"}, {"00", "68", "99"}, {"0", "30", "61"}};
    int f = vf_choose(0, 4), hole = vf_choose(0, 3), again = vf_choose(0, 1), i, j, r = 0, n = 0;
    struct tm w3[3];
    vf_cid = 100 * f + 10 * hole + again;
    dt = arg_daten("d", 0, fm[f], 0, 0, 3, 0);
    for (i = 0; i < 3; i++) {
        w3[i].tm_sec = 10 + i; w3[i].tm_min = 20 + i; w3[i].tm_hour = 1 + i; w3[i].tm_mday = 3 + i; w3[i].tm_mon = 5 + i;
        w3[i].tm_year = 60 + i; w3[i].tm_wday = i; w3[i].tm_yday = 100 + i; w3[i].tm_isdst = 0;
        dt->tmval[i] = w3[i];
    }
    VF_BEGIN();
    for (j = 0; j <= again; j++) {
        dt->hdr.resetfn(dt->hdr.parent);
        n = 0;
        for (i = 0; i < 3; i++) {
            if (hole == i + 1) {
                r |= dt->hdr.scanfn(dt->hdr.parent, "x") != ARG_ERR_BADDATE;
                if (i == 1)
                    r |= dt->hdr.scanfn(dt->hdr.parent, 0) != 0, n++; /* a value left out is counted and keeps its place */
                continue;
            }
            r |= dt->hdr.scanfn(dt->hdr.parent, tx[f][i]) != 0;
            switch (f) {
                case 0: w3[n].tm_hour = i == 0 ? 1 : i == 1 ? 13 : 23; w3[n].tm_min = i == 0 ? 2 : i == 1 ? 14 : 0; break;
                case 1: w3[n].tm_mday = i == 0 ? 1 : i == 1 ? 12 : 31; break;
                case 2: w3[n].tm_mon = i == 0 ? 0 : i == 1 ? 6 : 11; break;
                case 3: w3[n].tm_year = i == 0 ? 100 : i == 1 ? 168 : 99; break;
                default: w3[n].tm_sec = i == 0 ? 0 : i == 1 ? 30 : 61; break;
            }
            n++;
        }
    }
    VF_END();
    VF("C11", r == 0, "a text is accepted or refused against the option's format");
    VF("C11", dt->count == n, "the number of dates is not the number of texts accepted");
    for (i = 0; i < 3; i++) {
        struct tm *g = &dt->tmval[i];
        VF("C11", g->tm_sec == w3[i].tm_sec && g->tm_min == w3[i].tm_min && g->tm_hour == w3[i].tm_hour && g->tm_mday == w3[i].tm_mday && g->tm_mon == w3[i].tm_mon && g->tm_year == w3[i].tm_year &&
                      g->tm_wday == w3[i].tm_wday && g->tm_yday == w3[i].tm_yday,
           "a stored date is not the one written, or a field its text does not denote is changed");
    }
}
#undef X
