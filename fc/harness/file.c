/* File name options: the base name and extension of every path of up to five
 * characters over {'/', '.', any other character}. */
#include "vf.h"
#include <string.h>

static struct arg_file *f;
static char other(void) {
    char c = vf_anychar();
    if (c == '/' || c == '.')
        c = 'q';
    return c;
}
static void path(int n, const char *t) {
    int i, base = 0, ext = n, dots = 1, rc;
    for (i = 0; i < n; i++)
        if (t[i] == '/')
            base = i + 1;
    for (i = base; i < n; i++)
        if (t[i] != '.')
            dots = 0;
    if (dots && (n - base == 1 || n - base == 2))
        base = n; /* "." and ".." are no base names */
    for (i = base + 1; i < n - 1; i++)
        if (t[i] == '.')
            ext = i; /* last dot that is neither leading nor trailing ... */
    if (n > base && t[n - 1] == '.')
        ext = n; /* ... and a name ending in a dot has none */
    VF_BEGIN();
    rc = f->hdr.scanfn(f->hdr.parent, t);
    VF_END();
    VF("C13", rc == 0 && f->count == 2, "a path is refused or not counted once");
    VF("C13", f->filename[1] == t, "the file name is not the text given");
    VF("C13", f->basename[1] == t + base, "the base name is not what follows the last separator");
    VF("C13", f->extension[1] == t + ext, "the extension is not what starts at the base name's last inner dot");
    VF("C13", f->basename[1] >= f->filename[1] && f->extension[1] >= f->basename[1] && f->extension[1] <= t + n, "base name and extension do not lie inside the file name");
    VF("C13", f->filename[0] == 0 && f->basename[0] == 0 && f->extension[0] == 0, "another value is disturbed");
}
static void mk(void) {
    f = arg_filen("f", 0, 0, 0, 3, 0);
    f->filename[0] = f->basename[0] = f->extension[0] = 0;
    f->count = 1;
}
#define CH(k) ((k) == 0 ? '/' : (k) == 1 ? '.' : o)
// VFSC props=C13 shards=4
void sc_file5(void) {
    char t[6], o;
    int a, b, c, d, e, n;
    mk();
    o = other();
    n = vf_choose(0, 5);
    a = n > 0 ? vf_choose(0, 2) : 0;
    b = n > 1 ? vf_choose(0, 2) : 0;
    VF_SHARD(n + a + b);
    c = n > 2 ? vf_choose(0, 2) : 0;
    d = n > 3 ? vf_choose(0, 2) : 0;
    e = n > 4 ? vf_choose(0, 2) : 0;
    vf_cid = n * 1000 + (((a * 3 + b) * 3 + c) * 3 + d) * 3 + e;
    t[0] = CH(a); t[1] = CH(b); t[2] = CH(c); t[3] = CH(d); t[4] = CH(e); t[5] = 0;
    t[n] = 0;
    path(n, t);
}
// VFSC props=C13 shards=16 tier=thorough slevel=20000
void sc_file7(void) {
    char t[8], o;
    int a, b, c, d, e, g, h, n = 7;
    mk();
    o = other();
    a = vf_choose(0, 2);
    b = vf_choose(0, 2);
    c = vf_choose(0, 2);
    VF_SHARD(9 * a + 3 * b + c);
    d = vf_choose(0, 2);
    e = vf_choose(0, 2);
    g = vf_choose(0, 2);
    h = vf_choose(0, 2);
    vf_cid = (((((a * 3 + b) * 3 + c) * 3 + d) * 3 + e) * 3 + g) * 3 + h;
    t[0] = CH(a); t[1] = CH(b); t[2] = CH(c); t[3] = CH(d); t[4] = CH(e); t[5] = CH(g); t[6] = CH(h); t[7] = 0;
    path(n, t);
}
/* through a whole parse: option value, separate value, positional; a value
 * left out */
// VFSC props=C13
void sc_file_parse(void) {
    void *tab[3];
    struct arg_file *p;
    char *argv[4];
    char t[12], *v;
    int k = vf_choose(0, 4), ret;
    t[0] = '-'; t[1] = 'f'; t[2] = 'd'; t[3] = '/'; t[4] = 'a'; t[5] = '.'; t[6] = 'b'; t[7] = '.'; t[8] = 'c'; t[9] = 0;
    tab[0] = f = arg_filen("f", "file", 0, 0, 2, 0);
    tab[1] = p = arg_filen(0, 0, 0, 0, 2, 0);
    tab[2] = arg_end(4);
    if (k == 3)
        f->hdr.flag |= ARG_HASOPTVALUE;
    f->filename[0] = "def"; f->basename[0] = "bdef"; f->extension[0] = "edef";
    argv[0] = "prog";
    v = t + 2;
    argv[1] = k == 0 ? t : k == 1 ? "-f" : k == 2 ? "--file" : k == 3 ? "-f" : v;
    argv[2] = k == 0 || k == 4 ? "x/" : v;
    argv[3] = 0;
    vf_cid = k;
    VF_BEGIN();
    ret = arg_parse(3, argv, tab);
    VF_END();
    VF("C13", ret == 0, "a path is refused");
    if (k == 3) {
        VF("C13", f->count == 1 && strcmp(f->filename[0], "def") == 0 && strcmp(f->basename[0], "bdef") == 0 && strcmp(f->extension[0], "edef") == 0, "an option given without its optional value does not keep the preset");
        VF("C13", p->count == 1 && p->basename[0] == v + 2, "the base name is not what follows the last separator");
    } else if (k < 3)
        VF("C13", f->count == 1 && f->filename[0] == v && f->basename[0] == v + 2 && f->extension[0] == v + 5, "file name, base name and extension do not match the text given");
    else
        VF("C13", p->count == 2 && p->basename[0] == v + 2 && p->extension[0] == v + 5 && p->basename[1][0] == 0, "file name, base name and extension do not match the text given");
    if (k == 0)
        VF("C13", p->count == 1 && p->basename[0][0] == 0 && p->extension[0][0] == 0, "a path ending in a separator has a base name or an extension");
}
