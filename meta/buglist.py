A='src/argtable3.c'; G='src/arg_getopt_long.c'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,flags=''):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,flags=flags))

bug('permute-cycles','C06',[(G,'	ncycle = gcd(nnonopts, nopts);','	ncycle = (nnonopts == nopts) ? nopts : ((nnonopts % nopts) ? 1 : nopts);\n	if (nopts % nnonopts == 0)\n		ncycle = nnonopts;')],
 'four positionals followed by six option words (block lengths with a common divisor other than one of them)',
 'words are lost from and duplicated in the rearranged command line',
r'''int main(void) {
  struct arg_str *o = arg_strn("o", NULL, NULL, 0, 5, NULL), *p = arg_strn(NULL, NULL, NULL, 0, 9, NULL);
  struct arg_end *e = arg_end(20); void *t[] = {o, p, e};
  char *v[] = {"x", "p0", "p1", "p2", "p3", "-o", "a", "-o", "b", "-o", "c", "p4", "p5"};
  int i; char b[9];
  CHECK(arg_parse(N(v), v, t) == 0);
  CHECK(o->count == 3 && p->count == 6);
  for (i = 0; i < 6; i++) { sprintf(b, "p%d", i); CHECK(strcmp(p->sval[i], b) == 0); }
  return 0; }''')

bug('posix-cached','C07',[(G,'	if (posixly_correct == -1 || optreset) {','	if (posixly_correct == -1) {')],
 'two parses in one process with POSIXLY_CORRECT changed between them',
 'the second parse still follows the environment of the first',
r'''int main(void) {
  struct arg_lit *o = arg_litn("o", NULL, 0, 5, NULL); struct arg_str *p = arg_strn(NULL, NULL, NULL, 0, 9, NULL);
  struct arg_end *e = arg_end(20); void *t[] = {o, p, e};
  char *v[] = {"x", "p0", "-o"};
  unsetenv("POSIXLY_CORRECT");
  CHECK(arg_parse(3, v, t) == 0 && o->count == 1 && p->count == 1);
  setenv("POSIXLY_CORRECT", "1", 1);
  CHECK(arg_parse(3, v, t) == 0 && o->count == 0 && p->count == 2);
  return 0; }''')

bug('abbrev-ambiguous','C24',[(G,'''			 long_options[i].flag != long_options[match].flag ||
			 long_options[i].val != long_options[match].val)''','''			 long_options[i].flag != long_options[match].flag)''')],
 'an abbreviation that fits two long options of the same kind',
 'an ambiguous abbreviation silently selects the first option',
r'''int main(void) {
  struct arg_lit *a = arg_litn(NULL, "verbose", 0, 5, NULL), *b = arg_litn(NULL, "version", 0, 5, NULL);
  struct arg_end *e = arg_end(20); void *t[] = {a, b, e};
  char *v[] = {"x", "--ver"};
  CHECK(arg_parse(2, v, t) == 1 && a->count == 0 && b->count == 0);
  return 0; }''')

bug('exact-after-partial','C24',[(G,'	if (!exact_match && second_partial_match) {','	if (second_partial_match) {')],
 'a full long option name standing in the table after two longer names it abbreviates',
 'the full name is reported as ambiguous',
r'''int main(void) {
  struct arg_lit *a = arg_litn(NULL, "verbose", 0, 5, NULL), *b = arg_litn(NULL, "version", 0, 5, NULL), *c = arg_litn(NULL, "ver", 0, 5, NULL);
  struct arg_end *e = arg_end(20); void *t[] = {a, b, c, e};
  char *v[] = {"x", "--ver"};
  CHECK(arg_parse(2, v, t) == 0 && c->count == 1);
  return 0; }''')

bug('dstr-set-keeps-size','C14',[('src/arg_dstr.c','''            (*old_free_proc)(old_result);
        }
    }

    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {
        xfree(ds->append_data);
        ds->append_data = NULL;
        ds->append_data_size = 0;
    }''','''            (*old_free_proc)(old_result);
        }
    }

    if ((ds->append_data != NULL) && (ds->append_data_size > 0)) {
        xfree(ds->append_data);
        ds->append_data = NULL;
    }''')],
 'append, then set, then append again','the second append writes through a null pointer',
r'''int main(void) {
  arg_dstr_t ds = arg_dstr_create();
  arg_dstr_cat(ds, "one"); arg_dstr_set(ds, "two", ARG_DSTR_VOLATILE); arg_dstr_cat(ds, "three");
  CHECK(strcmp(arg_dstr_cstr(ds), "twothree") == 0);
  return 0; }''')

bug('date-century','C11',[('src/arg_date.c','                    tm->tm_year = (tm->tm_year % 100) + (i * 100) - TM_YEAR_BASE;','                    tm->tm_year = tm->tm_year + (i * 100) - TM_YEAR_BASE;')],
 'a format with the two-digit year before the century, and a year below the pivot','the year is one century too late',
r'''int main(void) {
  struct arg_date *d = arg_date1(NULL, NULL, "%y %C", NULL, NULL); struct arg_end *e = arg_end(20); void *t[] = {d, e};
  char *v[] = {"x", "05 20"};
  CHECK(arg_parse(2, v, t) == 0 && d->tmval[0].tm_year == 105);
  return 0; }''')

bug('hash-remove-chain','C16',[('src/arg_hashtable.c','''        pE = &(e->next);
        e = e->next;
    }
}

void arg_hashtable_destroy''','''        e = e->next;
    }
}

void arg_hashtable_destroy''')],
 'unregistering a command that is not the newest of those sharing its bucket','the commands before it in the bucket vanish with it',
r'''static int f(int c, char **v, arg_dstr_t r, void *x) { return 0; }
int main(void) { char b[9]; int i, j;
  arg_cmd_init();
  for (i = 0; i < 34; i++) { sprintf(b, "c%d", i); arg_cmd_register(b, f, "d", NULL); }
  for (i = 0; i < 34; i++) { sprintf(b, "c%d", i); arg_cmd_unregister(b);
    for (j = i + 1; j < 34; j++) { sprintf(b, "c%d", j); CHECK(arg_cmd_info(b) != NULL); } }
  return 0; }''')

bug('hash-grow-bucket','C16',[('src/arg_hashtable.c','    for (i = 0; i < h->tablelength; i++) {\n        while (NULL != (e = h->table[i])) {','    for (i = 0; i < h->tablelength - 1; i++) {\n        while (NULL != (e = h->table[i])) {')],
 'growth of the registry while a command sits in the last bucket','that command is lost',
r'''static int f(int c, char **v, arg_dstr_t r, void *x) { return 0; }
int main(void) { char b[9]; int i, j;
  for (j = 0; j < 50; j++) {
    arg_cmd_init();
    for (i = 0; i < 40; i++) { sprintf(b, "c%d_%d", j, i); arg_cmd_register(b, f, "d", NULL); }
    for (i = 0; i < 40; i++) { sprintf(b, "c%d_%d", j, i); CHECK(arg_cmd_info(b) != NULL); }
    arg_cmd_uninit(); }
  return 0; }''')

bug('int-suffix-min','C09',[('src/arg_int.c','            if (val > (INT_MAX / 1048576) || val < (INT_MIN / 1048576))','            if (val > (INT_MAX / 1048576) || val < -(INT_MAX / 1048576))')],
 'exactly the smallest representable value written with a suffix','-2048MB is refused although it fits',
r'''int main(void) {
  struct arg_int *d = arg_int1("i", NULL, NULL, NULL); struct arg_end *e = arg_end(20); void *t[] = {d, e};
  char *v[] = {"x", "-i", "-2048MB"};
  CHECK(arg_parse(3, v, t) == 0 && d->ival[0] == INT_MIN);
  return 0; }''')

bug('int-suffix-space','C09',[('src/arg_int.c','    /* return 1 (success) if we have reached end of str else return 0 (fail) */\n    return (*str == \'\\0\') ? 1 : 0;','    /* return 1 (success) if we have reached end of str else return 0 (fail) */\n    return (*str == \'\\0\' || isspace((int)(str[-1]))) ? 1 : 0;')],
 'junk after white space after a number','"12 apples" is accepted as 12',
r'''int main(void) {
  struct arg_int *d = arg_int1("i", NULL, NULL, NULL); struct arg_end *e = arg_end(20); void *t[] = {d, e};
  char *v[] = {"x", "-i", "12 apples"};
  CHECK(arg_parse(3, v, t) == 1 && d->count == 0);
  return 0; }''')

bug('limit-parent','C05',[(A,'        end->parent[end->hdr.maxcount - 1] = end;\n','')],
 'more errors than the end entry holds, the last recorded one being attributed to an entry','the overflow marker is attributed to that entry and printed as a different error',
r'''int main(void) {
  struct arg_int *d = arg_intn("i", NULL, NULL, 0, 9, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-i", "a", "-i", "b", "-i", "c"};
  CHECK(arg_parse(7, v, t) == 2);
  CHECK(e->error[1] == ARG_ELIMIT && e->parent[1] == e);
  return 0; }''')

bug('gnu-glossary-size','C15',[(A,'''            }

            arg_cat_optionv(syntax, sizeof(syntax) - 1, shortopts,''','''            }

            arg_cat_optionv(syntax, sizeof(syntax), shortopts,''')],
 'a long option name of 200 characters or more in a GNU glossary','the terminator is written one past the buffer',
r'''int main(void) { static char nm[400]; int i;
  for (i = 190; i < 210; i++) {
    struct arg_lit *d; struct arg_end *e = arg_end(2); void *t[2]; arg_dstr_t ds = arg_dstr_create();
    memset(nm, 'n', i); nm[i] = 0; d = arg_lit0("a", nm, "g"); t[0] = d; t[1] = e;
    arg_print_glossary_gnu_ds(ds, t); }
  return 0; }''','-fsanitize=address,undefined -fno-sanitize-recover=all')

bug('error-format-string','C20',[('src/arg_end.c','            arg_dstr_catf(ds, "unexpected argument \\"%s\\"", argval);','            arg_dstr_cat(ds, "unexpected argument \\"");\n            arg_dstr_catf(ds, argval);\n            arg_dstr_cat(ds, "\\"");')],
 'an unexpected word containing a percent sign','the word is interpreted as a format',
r'''int main(void) {
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e}; arg_dstr_t ds = arg_dstr_create();
  char *v[] = {"x", "100%%"};
  CHECK(arg_parse(2, v, t) == 1); arg_print_errors_ds(ds, e, "x");
  CHECK(strcmp(arg_dstr_cstr(ds), "x: unexpected argument \"100%%\"\n") == 0);
  return 0; }''')

bug('excess-text','C20',[('src/arg_file.c','            arg_print_option_ds(ds, shortopts, longopts, argval, "\\n");','            arg_print_option_ds(ds, shortopts, longopts, datatype, "\\n");')],
 'one file argument more than allowed','the message shows the data type instead of the offending text',
r'''int main(void) {
  struct arg_file *d = arg_file0("d", NULL, NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e}; arg_dstr_t ds = arg_dstr_create();
  char *v[] = {"x", "-d", "a", "-d", "bb"};
  CHECK(arg_parse(5, v, t) == 1); arg_print_errors_ds(ds, e, "x");
  CHECK(strcmp(arg_dstr_cstr(ds), "x: excess option -d bb\n") == 0);
  return 0; }''')

bug('merge-esize','C21',[('src/arg_utils.c','    m = (char*)xmalloc((size_t)(esize * ((k - i) + 1)));','    m = (char*)xmalloc(sizeof(void*) * (size_t)((k - i) + 1));')],
 'sorting elements larger than a pointer','the merge buffer is overrun',
r'''#include "argtable3_private.h"
static int cmp(const void *a, const void *b) { return strcmp(a, b); }
int main(void) { char a[5][24] = {"e", "c", "d", "b", "a"};
  arg_mgsort(a, 5, 24, 0, 4, cmp);
  CHECK(a[0][0] == 'a' && a[4][0] == 'e');
  return 0; }''','-fsanitize=address,undefined -fno-sanitize-recover=all')

bug('shortopts-malloc','C19',[(A,'    result = xmalloc(len);','    result = (char*)malloc(len);')],
 'memory running out exactly at the short option list','a null pointer is written instead of calling the panic handler',
r'''#include <setjmp.h>
static int left = -1; static jmp_buf jb;
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { if (left > 0 && --left == 0) return NULL; return __real_malloc(n); }
static void pan(const char *f, ...) { left = -1; longjmp(jb, 1); }
int main(void) { int i;
  struct arg_str *d = arg_str0("s", "str", NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-s", "a"};
  arg_set_panic(pan);
  for (i = 1; i < 4; i++) { volatile int p = 1; left = i; if (setjmp(jb) == 0) { arg_parse(3, v, t); p = 0; } CHECK(p); }
  return 0; }''','-Wl,--wrap=malloc')

bug('dbl-range','C10',[('src/arg_dbl.c','        val = strtod(argval, &end);\n','        errno = 0;\n        val = strtod(argval, &end);\n        if (errno == ERANGE)\n            return ARG_ERR_BADDOUBLE;\n'),('src/arg_dbl.c','#include <stdlib.h>\n','#include <errno.h>\n#include <stdlib.h>\n')],
 'a number that is denormal or overflows','complete numbers are refused',
r'''int main(void) {
  struct arg_dbl *d = arg_dbl0("d", NULL, NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-d", "1e-310"};
  CHECK(arg_parse(3, v, t) == 0 && d->dval[0] == 1e-310);
  return 0; }''')

bug('optvalue-count','C03',[('src/arg_file.c','''    if (parent->count == parent->hdr.maxcount) {
        /* maximum number of arguments exceeded */
        errorcode = ARG_ERR_MAXCOUNT;
    } else if (!argval) {
        /* a valid argument with no argument value was given. */
        /* This happens when an optional argument value was invoked. */
        /* leave parent arguiment value unaltered but still count the argument. */
        parent->count++;
    } else {''','''    if (!argval) {
        /* a valid argument with no argument value was given. */
        /* This happens when an optional argument value was invoked. */
        /* leave parent arguiment value unaltered but still count the argument. */
        parent->count++;
    } else if (parent->count == parent->hdr.maxcount) {
        /* maximum number of arguments exceeded */
        errorcode = ARG_ERR_MAXCOUNT;
    } else {''')],
 'a file option with optional value given without value more often than allowed','the count exceeds the maximum without an error',
r'''int main(void) {
  struct arg_file *d = arg_file0("d", NULL, NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-d", "-d"};
  d->hdr.flag |= ARG_HASOPTVALUE;
  CHECK(arg_parse(3, v, t) == 1 && d->count == 1);
  return 0; }''')

bug('help-twice','C22',[('src/arg_cmd.c','    if (help > 0) {','    if (help == 1) {')],
 'a help option given twice together with an error','the error text and a failure exit code are answered instead of the help',
r'''int main(void) { int ec = 7;
  struct arg_lit *h = arg_litn("h", NULL, 0, 3, "help"); struct arg_end *e = arg_end(2); void *t[] = {h, e}; arg_dstr_t ds = arg_dstr_create();
  char *v[] = {"x", "-h", "-h", "-z"}; int n = arg_parse(4, v, t);
  arg_cmd_init();
  CHECK(n == 1 && arg_make_syntax_err_help_msg(ds, "x", h->count, n, t, e, &ec) == 1 && ec == 0);
  return 0; }''')

bug('module-name-reuse','C22',[('src/arg_cmd.c','''    xfree(s_module_name);
    slen = strlen(name);
    s_module_name = (char*)xmalloc(slen + 1);
    memset(s_module_name, 0, slen + 1);
''','''    slen = strlen(name);
    if (s_module_name == NULL || strlen(s_module_name) < slen) {
        xfree(s_module_name);
        s_module_name = (char*)xmalloc(slen + 1);
        memset(s_module_name, 0, slen + 1);
    }
''')],
 'setting a shorter module name after a longer one','the message shows a mixture of both names',
r'''int main(void) { arg_dstr_t ds = arg_dstr_create();
  arg_set_module_name("longer"); arg_set_module_name("abc"); arg_set_module_version(1, 2, 3, "t");
  arg_make_get_help_msg(ds);
  CHECK(strncmp(arg_dstr_cstr(ds), "abc v1.2.3.t\n", 13) == 0);
  return 0; }''')

bug('wrap-exact-fit','C27',[(A,'        if (line_end - line_start > colwidth) {','        if (line_end - line_start >= colwidth) {')],
 'a glossary whose remaining text fills the column exactly','text that fits is wrapped one word early',
r'''int main(void) { FILE *f = tmpfile(); char b[99] = "";
  arg_print_formatted(f, 0, 6, "abc def"); rewind(f); fread(b, 1, 98, f); fclose(f);
  CHECK(strcmp(b, "abc def\n") == 0);
  return 0; }''')

bug('glossary-percent','C23',[(A,'''    arg_print_glossary_ds(ds, argtable, format);
    fputs(arg_dstr_cstr(ds), fp);''','''    arg_print_glossary_ds(ds, argtable, format);
    fprintf(fp, arg_dstr_cstr(ds));''')],
 'a glossary text containing a percent sign','the stream variant prints a different text',
r'''int main(void) { FILE *f = tmpfile(); char b[199] = "";
  struct arg_lit *d = arg_lit0("d", NULL, "use 100%% of it"); struct arg_end *e = arg_end(2); void *t[] = {d, e}; arg_dstr_t ds = arg_dstr_create();
  arg_print_glossary_ds(ds, t, NULL); arg_print_glossary(f, t, NULL); rewind(f); fread(b, 1, 198, f); fclose(f);
  CHECK(strcmp(b, arg_dstr_cstr(ds)) == 0);
  return 0; }''')

bug('freetable-stop','C25',[(A,'        if (table[tabindex] == NULL)\n            continue;','        if (table[tabindex] == NULL)\n            break;')],
 'a missing entry before others in the table','the entries after it are not released',
r'''int main(void) {
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {NULL, d, NULL, e};
  arg_freetable(t, 4);
  CHECK(!t[1] && !t[3]);
  return 0; }''')

bug('rex-leak','C18',[('src/arg_rex.c','        if (!is_match)\n            errorcode = ARG_ERR_REGNOMATCH;\n        else','        if (!is_match)\n            return ARG_ERR_REGNOMATCH;\n        else')],
 'a text the pattern does not describe','the compiled pattern is never released',
r'''#include <malloc.h>
int main(void) { size_t a; int i;
  struct arg_rex *d = arg_rex0("d", NULL, "abc", NULL, 0, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-d", "xyz"};
  arg_parse(3, v, t); a = mallinfo2().uordblks;
  for (i = 0; i < 50; i++) arg_parse(3, v, t);
  CHECK(mallinfo2().uordblks <= a);
  return 0; }''')

bug('rex-class-W','C12',[('src/arg_rex.c','            return (!isalnum(c) && c != \'_\') ? TRex_True : TRex_False;','            return !isalnum(c) ? TRex_True : TRex_False;')],
 'an underscore against the class of non-word characters','the underscore matches both \\w and \\W',
r'''int main(void) {
  struct arg_rex *d = arg_rex0("d", NULL, "a\\Wb", NULL, 0, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-d", "a_b"};
  CHECK(arg_parse(3, v, t) == 1 && d->count == 0);
  return 0; }''')

bug('cluster-tail-hang','C02',[(G,'''			return (-1);
		if (!*place)
			++optind;
#ifdef GNU_COMPATIBLE
		if (PRINT_ERROR)''','''			return (-1);
		if (!*place && (optchar != ':' || place - nargv[optind] == 2))
			++optind;
#ifdef GNU_COMPATIBLE
		if (PRINT_ERROR)''')],
 'a cluster of short options that ends in a colon','the cluster is scanned again and again',
r'''int main(void) {
  struct arg_lit *d = arg_litn("d", NULL, 0, 3, NULL); struct arg_end *e = arg_end(5); void *t[] = {d, e};
  char *v[] = {"x", "-d:"};
  CHECK(arg_parse(2, v, t) == 1 && d->count == 1);
  return 0; }''')

bug('rex-debug-print','C26',[('src/arg_rex.c','        if (!is_match)\n            errorcode = ARG_ERR_REGNOMATCH;','        if (!is_match) {\n            errorcode = ARG_ERR_REGNOMATCH;\n            if (error != NULL)\n                dbg_printf("argtable: %s \\"%s\\"\\n", error, priv->pattern);\n        }')],
 'a value for an entry with a malformed pattern','parsing writes to the error stream',
r"""#include <unistd.h>
int main(void) { long n; FILE *f = tmpfile();
  struct arg_rex *d = arg_rex0("d", NULL, "(ab", NULL, 0, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-d", "ab"}; int s;
  fflush(stderr); s = dup(2); dup2(fileno(f), 2);
  arg_parse(3, v, t); fflush(stderr); dup2(s, 2);
  n = lseek(fileno(f), 0, SEEK_END);
  CHECK(n == 0);
  return 0; }""")

bug('date-min','C04',[('src/arg_date.c','    int errorcode = (parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0;','    int errorcode = (parent->hdr.mincount > 0 && parent->count == 0) ? ARG_ERR_MINCOUNT : 0;')],
 'a date entry with a minimum of two given once','the parse succeeds',
r'''int main(void) {
  struct arg_date *d = arg_daten("d", NULL, "%H", NULL, 2, 3, NULL); struct arg_end *e = arg_end(5); void *t[] = {d, e};
  char *v[] = {"x", "-d", "12"};
  CHECK(arg_parse(3, v, t) == 1);
  return 0; }''')

bug('shortopts-length','C01',[(A,'        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);','        len += ((hdr->flag & ARG_HASVALUE) ? 2 : 1) * (hdr->shortopts ? strlen(hdr->shortopts) : 0);')],
 'short options with an optional value','the short option list is written past its block',
r'''int main(void) {
  struct arg_str *d = arg_str0("abcdefgh", NULL, NULL, NULL); struct arg_end *e = arg_end(5); void *t[] = {d, e};
  char *v[] = {"x", "-h"};
  d->hdr.flag |= ARG_HASOPTVALUE;
  CHECK(arg_parse(2, v, t) == 0 && d->count == 1);
  return 0; }''','-fsanitize=address,undefined -fno-sanitize-recover=all')

bug('itr-last-bucket','C16',[('src/arg_hashtable.c','    for (i = 0; i < tablelength; i++) {\n        if (h->table[i] != NULL) {','    for (i = 0; i + 1 < tablelength; i++) {\n        if (h->table[i] != NULL) {')],
 'a single command that sits in the last bucket','iteration visits nothing',
r'''static int f(int c, char **v, arg_dstr_t r, void *x) { return 0; }
struct it { void *h; void *e; };
int main(void) { char b[9]; int i;
  for (i = 0; i < 500; i++) { arg_cmd_itr_t it;
    arg_cmd_init(); sprintf(b, "c%d", i); arg_cmd_register(b, f, "d", NULL);
    it = arg_cmd_itr_create(); CHECK(((struct it *)it)->e != NULL); CHECK(strcmp(arg_cmd_itr_key(it), b) == 0);
    arg_cmd_itr_destroy(it); arg_cmd_uninit(); }
  return 0; }''')


bug('argv-permuted','C08',[(A,'    /* release the local copt of argv[] */','    /* let the caller see the unused words last */\n    for (i = 1; endtable->count > 0 && i < argc; i++)\n        argv[i] = argvcopy[i];\n\n    /* release the local copt of argv[] */')],
 'a parse that fails, with an option after a positional','the vector of the caller comes back rearranged',
r"""int main(void) {
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "word", "-d"};
  CHECK(arg_parse(3, v, t) == 1);
  CHECK(strcmp(v[1], "word") == 0 && strcmp(v[2], "-d") == 0);
  return 0; }""")
bug('ext-dotdot','C13',[('src/arg_file.c','    if (basename && result == basename)\n        result','    if (basename && (size_t)(result - basename) == strspn(basename, ".") - (*result == 0 ? 0 : 1))\n        result')],
 'a name with several leading dots before its extension ("..rc")','its extension is lost',
r"""int main(void) {
  struct arg_file *d = arg_file1(NULL, NULL, NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "a/..rc"};
  CHECK(arg_parse(2, v, t) == 0);
  CHECK(strcmp(d->basename[0], "..rc") == 0 && strcmp(d->extension[0], ".rc") == 0);
  return 0; }""")
bug('syntax-name-room','C15',[(A,'        strncat(dest, longopts, (ncspn < ndest) ? ncspn : ndest);','        strncat(dest, longopts, ncspn);')],
 'a long option name longer than the syntax buffer','the syntax buffer on the stack is overrun',
r"""int main(void) { char big[400]; arg_dstr_t ds = arg_dstr_create();
  struct arg_lit *d; struct arg_end *e = arg_end(2); void *t[2];
  memset(big, 97, 399); big[399] = 0; d = arg_lit0(NULL, big, "g"); t[0] = d; t[1] = e;
  arg_print_syntax_ds(ds, t, "\n");
  CHECK(strlen(arg_dstr_cstr(ds)) < 220);
  return 0; }""",SAN)
bug('rex-room','C17',[('src/arg_rex.c','             + (size_t)maxcount * sizeof(char*); /* storage for sval[maxcount] array */','             + (size_t)(maxcount - (mincount > 0 ? 0 : 1)) * sizeof(char*); /* storage for sval[maxcount] array */')],
 'an optional pattern entry','its last value slot lies outside the block',
r"""int main(void) {
  struct arg_rex *d = arg_rexn("d", NULL, "a+", NULL, 0, 3, 0, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", "-daa", "-da", "-daaa"};
  CHECK(arg_parse(4, v, t) == 0 && d->count == 3);
  return 0; }""",SAN)
bug('dup-argc0-leak','C18',[(A,'    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));','    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));\n    if (argc == 1) {\n        arg_parse_check(table, endtable);\n        return endtable->count;\n    }')],
 'a command line that consists of the program name only','the copy of the vector is never released',
r"""#include <malloc.h>
int main(void) { struct mallinfo2 a, b; int i;
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(2); void *t[] = {d, e};
  char *v[] = {"x", NULL};
  arg_parse(1, v, t); a = mallinfo2();
  for (i = 0; i < 1000; i++) arg_parse(1, v, t);
  b = mallinfo2();
  CHECK(b.uordblks <= a.uordblks);
  return 0; }""")
bug('catf-exact','C14',[('src/arg_dstr.c','        if (slen < (size_t)n)\n            break;','        if (slen <= (size_t)n)\n            break;')],
 'a formatted text of more than 64 characters','the text is cut at the size of the first buffer',
r"""int main(void) { char big[300]; arg_dstr_t ds = arg_dstr_create();
  memset(big, 97, 299); big[299] = 0;
  arg_dstr_catf(ds, "%s", big);
  CHECK(strcmp(arg_dstr_cstr(ds), big) == 0);
  return 0; }""")
bug('errors-to-stderr','C23',[('src/arg_end.c','    arg_print_errors_ds(ds, end, progname);\n    fputs(arg_dstr_cstr(ds), fp);','    arg_print_errors_ds(ds, end, progname);\n    fputs(arg_dstr_cstr(ds), fp == stdout && end->error[0] == ARG_ELIMIT ? stderr : fp);')],
 'an error list that holds the overflow mark only, printed to the standard output','the text goes to the error stream',
r"""#include <unistd.h>
int main(void) { long n; FILE *f = tmpfile();
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  char *v[] = {"x", "y", "z"};
  CHECK(arg_parse(3, v, t) == 1 && e->error[0] == ARG_ELIMIT);
  fflush(stdout); dup2(fileno(f), 1);
  arg_print_errors(stdout, e, "p"); fflush(stdout);
  n = lseek(fileno(f), 0, SEEK_END);
  CHECK(n > 0);
  return 0; }""")
bug('nullcheck-end','C25',[(A,'        if (!table[tabindex])\n            return 1;\n    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));\n\n    return 0;','        if (!table[tabindex])\n            return tabindex == 0 || table[0]->flag != 0 || table[tabindex - 1]->flag != 0;\n    } while (!(table[tabindex++]->flag & ARG_TERMINATOR));\n\n    return 0;')],
 'a missing entry right after a switch in a table that begins with a switch','the check says that the table is complete',
r"""int main(void) {
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(1); void *t[] = {d, NULL, e};
  CHECK(arg_nullcheck(t) == 1);
  return 0; }""")
bug('ellipsis-two','C27',[(A,'        switch (table[tabindex]->maxcount - table[tabindex]->mincount) {\n            case 0:\n                break;\n            case 1:\n                arg_dstr_cat(ds, " [");\n                arg_dstr_cat(ds, syntax);\n                arg_dstr_cat(ds, "]");\n                break;\n            case 2:\n                arg_dstr_cat(ds, " [");\n                arg_dstr_cat(ds, syntax);\n                arg_dstr_cat(ds, "]");\n                arg_dstr_cat(ds, " [");\n                arg_dstr_cat(ds, syntax);\n                arg_dstr_cat(ds, "]");\n                break;','        switch (table[tabindex]->maxcount - table[tabindex]->mincount) {\n            case 2:\n                if (table[tabindex]->mincount == 0) {\n                    arg_dstr_cat(ds, " [");\n                    arg_dstr_cat(ds, syntax);\n                    arg_dstr_cat(ds, "]");\n                }\n                /* fall through */\n            case 1:\n                arg_dstr_cat(ds, " [");\n                arg_dstr_cat(ds, syntax);\n                arg_dstr_cat(ds, "]");\n                break;\n            case 0:\n                break;')],
 'verbose syntax of an entry with at least one mandatory and exactly two optional occurrences','only one of the two optional occurrences is shown',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  struct arg_str *d = arg_strn(NULL, NULL, "F", 1, 3, NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  arg_print_syntaxv_ds(ds, t, "");
  CHECK(strcmp(arg_dstr_cstr(ds), " F [F] [F]") == 0);
  return 0; }""")
bug('exitcode-help','C22',[('src/arg_cmd.c','        arg_make_help_msg(ds, name, argtable);\n        *exitcode = EXIT_SUCCESS;','        arg_make_help_msg(ds, name, argtable);\n        if (nerrors == 0)\n            *exitcode = EXIT_SUCCESS;')],
 'help asked for on a command line with errors','the exit code stays what it was',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create(); int x = 7;
  struct arg_str *d = arg_str1(NULL, NULL, "F", NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  char *v[] = {"x"};
  arg_cmd_init();
  CHECK(arg_parse(1, v, t) == 1);
  CHECK(arg_make_syntax_err_help_msg(ds, "c", 1, 1, t, e, &x) == 1 && x == 0);
  return 0; }""")
bug('equal-keys-prefix','C16',[('src/arg_cmd.c','    return (0 == strcmp(k1, k2));','    return (0 == strncmp(k1, k2, 64 - 1));')],
 'two command names with the same first 63 characters and the same hash','they are taken for one command',
r"""static int f(int c, char *v[], arg_dstr_t r, void *x) { return 5; }
int main(void) { char a[80], b[80];
  memset(a, 97, 63); strcpy(a + 63, "bA"); memset(b, 97, 63); strcpy(b + 63, "ab"); /* 33*98+65 == 33*97+98 */
  arg_cmd_init();
  arg_cmd_register(a, f, "one", 0); arg_cmd_register(b, f, "two", 0);
  CHECK(arg_cmd_count() == 2);
  CHECK(strcmp(arg_cmd_info(a)->name, a) == 0 && strcmp(arg_cmd_info(a)->description, "one") == 0);
  return 0; }""")
bug('negative-code','C28',[(A,'                        int errorcode = table[tabindex]->scanfn(parent, optarg);\n                        if (errorcode != 0)\n                            arg_register_error','                        int errorcode = table[tabindex]->scanfn(parent, optarg);\n                        if (errorcode > 0)\n                            arg_register_error')],
 'an entry of the caller\'s own kind, given as short option, whose scan function refuses with a negative code','the refusal is not recorded',
r"""static int scan(void *p, const char *v) { return -3; }
int main(void) {
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  char *v[] = {"x", "-d"};
  d->hdr.scanfn = scan;
  CHECK(arg_parse(2, v, t) == 1 && e->error[0] == -3);
  return 0; }""")
bug('reset-untagged','C28',[(A,'        if (table[tabindex]->resetfn)\n            table[tabindex]->resetfn','        if (table[tabindex]->resetfn && (table[tabindex]->scanfn || table[tabindex]->checkfn || (table[tabindex]->flag & ARG_TERMINATOR)))\n            table[tabindex]->resetfn')],
 'an entry of the caller\'s own kind that has a reset function but neither scan nor check function','it is not reset',
r"""static int n; static void reset(void *p) { n++; }
int main(void) {
  struct arg_rem *d = arg_rem("d", NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  char *v[] = {"x"};
  d->hdr.resetfn = reset;
  CHECK(arg_parse(1, v, t) == 0 && n == 1);
  return 0; }""")
bug('unknown-char-high','C20',[('src/arg_end.c','            arg_dstr_catf(ds, "invalid option \\"-%c\\"", error);','            if (error > 0)\n                arg_dstr_catf(ds, "invalid option \\"-%c\\"", error);\n            else\n                arg_dstr_catf(ds, "invalid option \\"-%s\\"", argval);')],
 'an unknown short option with the eighth bit set','its character is missing from the message',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  struct arg_lit *d = arg_lit0("d", NULL, NULL); struct arg_end *e = arg_end(1); void *t[] = {d, e};
  char *v[] = {"x", "-\xc3"};
  CHECK(arg_parse(2, v, t) == 1);
  arg_print_errors_ds(ds, e, "p");
  CHECK(strcmp(arg_dstr_cstr(ds), "p: invalid option \"-\xc3\"\n") == 0);
  return 0; }""")
bug('short-upper','C24',[(A,'        if (table[tabindex]->shortopts && strchr(table[tabindex]->shortopts, shortopt))','        if (table[tabindex]->shortopts && memchr(table[tabindex]->shortopts, (unsigned char)shortopt & 0x7f, strlen(table[tabindex]->shortopts)))')],
 'two short options whose characters differ in the eighth bit only','the occurrence is counted for the other option',
r"""int main(void) {
  struct arg_lit *c = arg_lit0("C", NULL, NULL), *d = arg_lit0("\xc3", NULL, NULL); struct arg_end *e = arg_end(1); void *t[] = {c, d, e};
  char *v[] = {"x", "-\xc3"};
  CHECK(arg_parse(2, v, t) == 0);
  CHECK(c->count == 0 && d->count == 1);
  return 0; }""")
bug('argv-fixed','C01',[(A,'    char** argvcopy = NULL;\n    int i;\n\n    /*printf("arg_parse(','    char* argvlocal[64];\n    char** argvcopy = NULL;\n    int i;\n\n    /*printf("arg_parse('),
 (A,'    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));','    argvcopy = (argc <= 64) ? argvlocal : (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));'),
 (A,'    xfree(argvcopy);\n\n    return endtable->count;','    if (argvcopy != argvlocal)\n        xfree(argvcopy);\n\n    return endtable->count;')],
 'a command line of exactly 64 words','the terminating NULL of the copy is written past a local array',
r"""int main(void) {
  struct arg_str *p = arg_strn(NULL, NULL, NULL, 0, 99, NULL); struct arg_end *e = arg_end(1); void *t[] = {p, e};
  char *v[65]; int i; for (i = 0; i < 64; i++) v[i] = "w"; v[64] = 0;
  CHECK(arg_parse(64, v, t) == 0 && p->count == 63);
  return 0; }""",SAN)
bug('empty-word-hang','C02',[(A,'''        arg_register_error(endtable, endtable, ARG_ENOMATCH, argv[optind++]);
    }

    return;''','''        if (argv[optind][0] == 0 && endtable->count > 0)
            continue; /* an empty word is not worth another message */
        arg_register_error(endtable, endtable, ARG_ENOMATCH, argv[optind++]);
    }

    return;''')],
 'an empty word left over after another surplus word','the parse never returns',
r"""int main(void) {
  struct arg_lit *p = arg_lit0("a", NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "w", ""};
  CHECK(arg_parse(3, v, t) == 2);
  return 0; }""")
bug('file-before-limit','C03',[('src/arg_file.c','''    int errorcode = 0;

    if (parent->count == parent->hdr.maxcount) {''','''    int errorcode = 0;

    if (argval && parent->count > 2 && parent->count == parent->hdr.maxcount)
        parent->basename[parent->count - 1] = arg_basename(argval);

    if (parent->count == parent->hdr.maxcount) {''')],
 'a file entry with a maximum above two, given more often than that','the base name of the last accepted file is replaced by that of the refused one',
r"""int main(void) {
  struct arg_file *p = arg_filen("f", NULL, NULL, 0, 3, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-fa", "-fb", "-fc", "-fd"};
  CHECK(arg_parse(5, v, t) == 1);
  CHECK(p->count == 3 && strcmp(p->basename[2], "c") == 0);
  return 0; }""")
bug('file-min','C04',[('src/arg_file.c','(parent->count < parent->hdr.mincount) ? ARG_ERR_MINCOUNT : 0','(parent->hdr.mincount > 0 && parent->count == 0) ? ARG_ERR_MINCOUNT : 0')],
 'a file entry with a minimum above one, given fewer times but at least once','the parse succeeds',
r"""int main(void) {
  struct arg_file *p = arg_filen("f", NULL, NULL, 2, 3, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-fa"};
  CHECK(arg_parse(2, v, t) == 1);
  return 0; }""")
bug('last-word-error','C05',[(A,'''    if (errorlast) {
        arg_register_error(endtable, parentlast, errorlast, optarglast);''','''    if (errorlast) {
        if (optind + 1 < argc && errorlast != ARG_ERR_MAXCOUNT) {
            parentlast = endtable;
            errorlast = ARG_ENOMATCH;
        }
        arg_register_error(endtable, parentlast, errorlast, optarglast);''')],
 'a bad positional integer followed by another word','the error is recorded as an unexpected argument of the table instead of the bad integer of its entry',
r"""int main(void) {
  struct arg_int *p = arg_intn(NULL, NULL, NULL, 0, 2, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "1", "q", "r"};
  CHECK(arg_parse(4, v, t) == 2);
  CHECK(e->parent[0] == p && e->error[0] == 3 && e->parent[1] == e);
  return 0; }""")
bug('dispatch-zero','C16',[('src/arg_cmd.c','    return cmd_info->proc(argc, argv, res, cmd_info->ctx);','    argc = cmd_info->proc(argc, argv, res, cmd_info->ctx);\n    return (argc < 0) ? EXIT_FAILURE : argc;')],
 'a command whose function returns a negative result','dispatch returns 1',
r"""static int f(int c, char *v[], arg_dstr_t r, void *x) { return -5; }
int main(void) { arg_cmd_init(); arg_cmd_register("a", f, "one", 0);
  CHECK(arg_cmd_dispatch("a", 0, 0, 0) == -5);
  return 0; }""")
bug('register-keeps-ctx','C16',[('src/arg_cmd.c','''    if (cmd_info) {
        arg_hashtable_remove(s_hashtable, name);''','''    if (cmd_info && cmd_info->proc == proc && strcmp(cmd_info->description, description) == 0)
        return;
    if (cmd_info) {
        arg_hashtable_remove(s_hashtable, name);''')],
 'a command registered again with the same function and description but another context','the earlier context stays',
r"""static int f(int c, char *v[], arg_dstr_t r, void *x) { return *(int *)x; }
int main(void) { int a = 1, b = 2; arg_cmd_init(); arg_cmd_register("a", f, "one", &a); arg_cmd_register("a", f, "one", &b);
  CHECK(arg_cmd_dispatch("a", 0, 0, 0) == 2);
  return 0; }""")
bug('version-once','C22',[('src/arg_cmd.c','    ds = arg_dstr_create();\n    arg_dstr_catf(ds, "%d.", s_mod_ver_major);','    if (s_mod_ver && s_mod_ver_major == major && s_mod_ver_minor == minor && s_mod_ver_patch == patch && strncmp(s_mod_ver_tag, tag, slen_tag) == 0 && strstr(s_mod_ver, s_mod_ver_tag))\n        return;\n\n    ds = arg_dstr_create();\n    arg_dstr_catf(ds, "%d.", s_mod_ver_major);')],
 'the version set twice, the second time with a tag that occurs in the first version text','the first version is still shown',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  arg_set_module_name("m"); arg_set_module_version(1, 2, 3, "beta"); arg_set_module_version(4, 2, 3, "beta");
  arg_make_get_help_msg(ds);
  CHECK(strstr(arg_dstr_cstr(ds), "m v4.2.3.beta\n"));
  return 0; }""")
bug('syntax-room-100','C27',[(A,'''        char syntax[200] = "";
        const char *shortopts, *longopts, *datatype;

        shortopts =''','''        char syntax[100] = "";
        const char *shortopts, *longopts, *datatype;

        shortopts =''')],
 'an entry whose names and data type take more than 98 characters in the verbose syntax line','the line is cut short',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  const char *l = "a-long-option-name-for-one-thing,another-long-option-name-for-it,a-third-long-option-name-for-the-same-thing";
  struct arg_lit *p = arg_lit1(NULL, l, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  arg_print_syntaxv_ds(ds, t, "\n");
  CHECK(strlen(arg_dstr_cstr(ds)) == strlen(l) + 1 + 3 * 2 + 1);
  return 0; }""")
bug('sort-overlong','C21',[('src/arg_utils.c','''        if (comparefn(&a[ipos * esize], &a[jpos * esize]) < 0) {''','''        if (comparefn(&a[ipos * esize], &a[jpos * esize]) == -1) {''')],
 'a comparison function that answers with any negative number, not just -1','the result is not sorted',
r"""static int cmp(const void *a, const void *b) { return *(const char *)a - *(const char *)b; }
void arg_mgsort(void *, int, int, int, int, int (*)(const void *, const void *));
int main(void) { char s[] = "adgbxc"; arg_mgsort(s, 6, 1, 0, 5, cmp);
  CHECK(strcmp(s, "abcdgx") == 0);
  return 0; }""")
bug('xrealloc-null','C19',[('src/arg_utils.c','''    void* ret = realloc(ptr, allocated_size);
    if (!ret) {''','''    void* ret = realloc(ptr, allocated_size);
    if (!ret && size) {''')],
 'a failing request for zero bytes','the panic handler is not called',
r"""#include <setjmp.h>
#include <errno.h>
void *argtable3_xrealloc(void *, size_t);
static int failing; static jmp_buf j;
void *realloc(void *p, size_t n) { return failing ? 0 : malloc(n); }
static void panic(const char *f, ...) { failing = 0; longjmp(j, 1); }
int main(void) { arg_set_panic(panic);
  if (setjmp(j)) return 0;
  failing = 1; argtable3_xrealloc(0, 0); failing = 0;
  CHECK(!"panic handler called");
  return 0; }""")
bug('date-trailing','C11',[('src/arg_date.c','        if (pend && pend[0] == \'\\0\')','        if (pend && (pend[0] == \'\\0\' || (pend[0] == \' \' && pend[1] == \'\\0\')))')],
 'a date followed by one blank','the text is accepted',
r"""int main(void) {
  struct arg_date *p = arg_date0("d", NULL, "%Y", NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-d", "2001 "};
  CHECK(arg_parse(3, v, t) == 1);
  return 0; }""")
bug('str-shared-default','C17',[('src/arg_str.c','''    for (i = 0; i < maxcount; i++)
        result->sval[i] = "";''','''    for (i = 0; i < (mincount ? mincount : maxcount); i++)
        result->sval[i] = "";''')],
 'a string entry with a minimum of at least one and a larger maximum','the slots beyond the minimum are not initialised',
r"""int main(void) { void *b = malloc(sizeof(struct arg_str) + 3 * sizeof(char *)); memset(b, 0x5a, sizeof(struct arg_str) + 24); free(b);
  struct arg_str *p = arg_strn("d", NULL, NULL, 1, 3, NULL);
  CHECK(p->sval[2] && (((unsigned long)p->sval[2]) & 0xffff) != 0x5a5a && p->sval[2][0] == 0);
  return 0; }""")

bug('date-modifier-stays','C11',[('src/arg_date.c',"""        alt_format = 0;

        /* Eat""","""        if (bp == buf)
            alt_format = 0;

        /* Eat""")],
 'a format with an E or O modifier on one conversion and another conversion behind it','the modifier is still taken to act on the later conversion, which is refused',
r"""int main(void) {
  struct arg_date *p = arg_date0("d", NULL, "%Ey %d", NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-d", "05 6"};
  CHECK(arg_parse(3, v, t) == 0 && p->tmval->tm_mday == 6 && p->tmval->tm_year == 105);
  return 0; }""")
bug('date-seed','C11',[('src/arg_date.c','struct tm tm = parent->tmval[parent->count];','struct tm tm = parent->tmval[parent->count ? parent->count - 1 : 0];')],
 'two dates in a format that leaves out some fields, with defaults set in the second value','the fields left out are taken from the first date',
r"""int main(void) {
  struct arg_date *p = arg_daten("d", NULL, "%d", NULL, 0, 2, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-d", "5", "-d", "6"};
  p->tmval[0].tm_mon = 3; p->tmval[1].tm_mon = 7;
  CHECK(arg_parse(5, v, t) == 0 && p->tmval[1].tm_mday == 6 && p->tmval[1].tm_mon == 7 && p->tmval[0].tm_mon == 3);
  return 0; }""")
bug('date-name-short','C11',[('src/arg_date.c',"""                    len = strlen(mon[i]);
                    if (arg_strncasecmp(mon[i], bp, len) == 0)
                        break;""","""                    len = strlen(mon[i]);
                    if (arg_strncasecmp(mon[i], bp, len - (len > 8)) == 0)
                        break;""")],
 'September written with another last letter','the text is accepted',
r"""int main(void) {
  struct arg_date *p = arg_date0("d", NULL, "%B", NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-d", "Septembex"};
  CHECK(arg_parse(3, v, t) == 1);
  return 0; }""")
bug('rex-range-end-escape','C12',[('src/arg_rex.c',"""            case 't':
                exp->_p++;
                return '\\t';""","""            case 't':
                return '\\t';""")],
 'a set with a range that ends with an escaped tab','the letter t is taken into the set as well',
r"""int main(void) {
  struct arg_rex *p = arg_rex0("d", NULL, "[\\t-\\tx]", NULL, 0, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-d", "t"}, *w[] = {"x", "-d", "\t"};
  CHECK(arg_parse(3, w, t) == 0); CHECK(arg_parse(3, v, t) == 1);
  return 0; }""")

bug('abbr-dash','C24',[('src/arg_getopt_long.c','		if (strlen(long_options[i].name) == current_argv_len) {',"""		if (strlen(long_options[i].name) == current_argv_len ||
		    (has_equal && long_options[i].name[current_argv_len] == '-')) {""")],
 'a word --foo=value with two options foo-bar and foo-baz','the ambiguous name selects the first of them',
r"""int main(void) { struct arg_str *a = arg_str0(NULL, "foo-bar", NULL, NULL), *b = arg_str0(NULL, "foo-baz", NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {a, b, e};
  char *v[] = {"x", "--foo=1"};
  CHECK(arg_parse(2, v, t) == 1 && a->count == 0 && b->count == 0);
  return 0; }""")
bug('value-dashes','C24',[('src/arg_getopt_long.c',"""				optarg = nargv[optind++];
			}
		}
		if ((long""","""				optarg = nargv[optind++];
				if (optarg && optarg[0] == '-' && optarg[1] == '-' && optarg[2] == 0 && nargv[optind])
					optarg = nargv[optind++];
			}
		}
		if ((long""")],
 'a long option with the separate value -- and another word behind it','the value is skipped and the next word taken',
r"""int main(void) { struct arg_str *a = arg_str0(NULL, "sep", NULL, NULL), *b = arg_str0(NULL, NULL, NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {a, b, e};
  char *v[] = {"x", "--sep", "--", "y", NULL};
  CHECK(arg_parse(4, v, t) == 0 && a->count == 1 && strcmp(a->sval[0], "--") == 0 && b->count == 1 && strcmp(b->sval[0], "y") == 0);
  return 0; }""")
bug('syntax-many','C27',[('src/argtable3.c',"""            /* print optional instances enclosed in "[..]" */
            switch (table[tabindex]->maxcount - table[tabindex]->mincount) {""","""            /* print optional instances enclosed in "[..]" */
            switch (table[tabindex]->maxcount > 100 ? 3 : table[tabindex]->maxcount - table[tabindex]->mincount) {""")],
 'an entry with equal limits of more than a hundred','the syntax line shows it as repeatable without end',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  struct arg_str *p = arg_strn(NULL, NULL, "<s>", 101, 101, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  arg_print_syntax_ds(ds, t, "");
  CHECK(strlen(arg_dstr_cstr(ds)) == 404 && !strchr(arg_dstr_cstr(ds), '['));
  return 0; }""")
bug('wrap-tab','C27',[('src/argtable3.c',"while (isspace((int)(*(text + line_start))) && *(text + line_start) != '\\n') {","while (*(text + line_start) == ' ') {")],
 'a glossary with a tab where the line is wrapped','the next line begins with the tab, out of its column',
r"""int main(void) { char b[300]; FILE *f = tmpfile(); size_t n;
  struct arg_str *p = arg_str0("s", NULL, "<s>", "0123456789 0123456789 0123456789 0123456789\t0123456789 0123456789"); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  arg_print_glossary_gnu(f, t); rewind(f); n = fread(b, 1, 299, f); b[n] = 0;
  CHECK(!strchr(b, '\t'));
  return 0; }""")
bug('overflow-text','C20',[('src/arg_int.c','arg_dstr_catf(ds, "(%s is too large)\\n", argval);','arg_dstr_catf(ds, "(%.20s is too large)\\n", argval);')],
 'an integer that is too large written with more than twenty digits','the message shows another number',
r"""int main(void) { arg_dstr_t ds = arg_dstr_create();
  struct arg_int *p = arg_int0("i", NULL, NULL, NULL); struct arg_end *e = arg_end(9); void *t[] = {p, e};
  char *v[] = {"x", "-i", "1234567890123456789012345"};
  CHECK(arg_parse(3, v, t) == 1); arg_print_errors_ds(ds, e, "x");
  CHECK(strstr(arg_dstr_cstr(ds), "(1234567890123456789012345 is too large)"));
  return 0; }""")
