"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


p("C01", "Parsing is memory safe for every command line",
  "Parsing any command line with any table, and printing the resulting diagnostics, never reads or writes outside live objects, never uses "
  "uninitialised or freed memory and never overflows a signed integer. This includes empty words, lone dashes, very long words, malformed "
  "option values, option lists with empty or repeated names, and a command line of no words at all.",
  ["inputs", "configurations"], "every argc/argv a shell can pass and every table the constructors can build",
  "tests run a few dozen well-formed command lines without a memory checker; an over-read on an odd word is invisible to them",
  ["src/argtable3.c", "src/arg_getopt_long.c", "src/arg_end.c", "src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_rex.c", "src/arg_file.c", "src/arg_date.c", "src/arg_lit.c"],
  [("arg_parse / arg_parse_tagged / arg_parse_untagged", "src/argtable3.c"), ("arg_make_longoptions, arg_make_shortoptions", "src/argtable3.c"), ("getopt_long", "src/arg_getopt_long.c")])
p("C02", "Parsing terminates for every command line",
  "Parsing returns to its caller after finitely many steps whatever the words of the command line are, including clusters of short options that "
  "contain or end in a dash, repeated \"--\", empty words and abbreviations.",
  ["inputs", "configurations"], "every command line and table", "a hang shows only on the word that triggers it; tests contain none of them",
  ["src/argtable3.c", "src/arg_getopt_long.c"], [("scan loop", "src/argtable3.c:arg_parse_tagged"), ("cluster cursor", "src/arg_getopt_long.c:getopt_internal")])
p("C03", "No argument ever holds more values than its maximum",
  "However often an option or positional is given, its count never exceeds its declared maximum, every occurrence beyond the maximum yields an error "
  "attributed to that entry with the offending text, and the values already stored stay exactly as given, in order.",
  ["inputs", "histories"], "every sequence of occurrences, every value type and every way of giving it", "tests exceed the maximum for a few types only and look at counts, not at stored values or memory",
  ["src/arg_lit.c", "src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_rex.c", "src/arg_file.c", "src/arg_date.c"],
  [("maximum check in each type's scan function", "src/arg_*.c:*_scanfn"), ("positional dispatch", "src/argtable3.c:arg_parse_untagged")])
p("C04", "A successful parse satisfies every minimum and maximum",
  "If parsing reports no error, every entry's count lies between its declared minimum and maximum. When the words themselves are free of errors, every entry with fewer occurrences than its minimum "
  "yields exactly one missing-argument error naming that entry, in table order; this holds for an empty command line too.",
  ["inputs", "configurations"], "every table of mandatory/optional entries and every command line", "tests use a handful of tables; the interplay of several mandatory entries with partial input is unsampled",
  ["src/argtable3.c", "src/arg_lit.c", "src/arg_int.c", "src/arg_str.c", "src/arg_rex.c", "src/arg_file.c", "src/arg_date.c", "src/arg_dbl.c"],
  [("arg_parse_check", "src/argtable3.c"), ("minimum check in each type's check function", "src/arg_*.c:*_checkfn")])
p("C05", "The error count and the recorded errors are exact",
  "The return value of a parse equals the number of errors recorded in the table's end entry and is zero exactly when the command line is acceptable. "
  "Errors are recorded in the order they are found, each with its code, the entry that raised it and the offending text; when the end entry's capacity is exhausted the "
  "first errors are kept, one further overflow marker replaces the last one and nothing is written beyond the capacity.",
  ["inputs", "configurations"], "every command line, every capacity of the end entry", "tests check the first error of short lines; error order, attribution and capacity exhaustion are hardly sampled",
  ["src/argtable3.c", "src/arg_end.c"], [("arg_register_error", "src/argtable3.c"), ("arg_end", "src/arg_end.c")])
p("C06", "Every word is delivered once, to the right entry, in order",
  "Every word of the command line is either consumed by exactly one option occurrence (as option or as its value), or delivered as exactly one positional, or reported as "
  "an error; none is lost, duplicated or reordered. Positionals fill the positional entries in table order and in command-line order, also when options stand between them, "
  "after \"--\" everything is positional, a lone \"-\" is positional, and with POSIXLY_CORRECT set the first positional ends option recognition.",
  ["inputs", "configurations"], "every interleaving of options, values, positionals, \"-\" and \"--\"", "permutation of argv goes wrong only for particular block shapes; tests contain a few interleavings",
  ["src/argtable3.c", "src/arg_getopt_long.c"], [("permute_args, getopt_internal", "src/arg_getopt_long.c"), ("arg_parse_untagged", "src/argtable3.c")])
p("C07", "A parse does not depend on earlier parses",
  "Parsing a second command line with the same table gives exactly the result a fresh table would give: counts, values and errors of earlier parses, successful or not, "
  "the environment of earlier parses and the state of the option scanner leave no trace. (Only the value slot of an option given without its optional value keeps what it held, as documented; "
  "for string entries an earlier parse's text is cleared.)",
  ["histories", "inputs"], "every pair (history) of command lines on one table", "each test parses once per table or repeats similar lines",
  ["src/argtable3.c", "src/arg_getopt_long.c"], [("arg_parse resets", "src/argtable3.c:arg_reset"), ("optind/optreset/nextchar", "src/arg_getopt_long.c")],
  [("optind, place, nonopt_start/end", "scanner state that survives a call")])
p("C08", "The caller's argument vector and texts are left unchanged",
  "Parsing never modifies the caller's argv array (neither contents nor order) nor the words it points to, and string, file and pattern values it stores point into those very words.",
  ["inputs"], "every command line", "tests never look at argv after the call",
  ["src/argtable3.c"], [("private copy of argv", "src/argtable3.c:arg_parse"), ("value aliasing", "src/arg_str.c, src/arg_file.c, src/arg_rex.c")])
p("C09", "Integer arguments accept exactly their documented notation",
  "An integer argument accepts exactly an optional sign, an optional 0x/0o/0b prefix, digits of that base and an optional KB/MB/GB suffix (case-insensitive), and stores exactly the denoted value. "
  "A value or suffixed value that does not fit an int is reported as an overflow error, any other text as a bad-integer error, and in both cases nothing is stored.",
  ["inputs"], "every text", "tests sample a few dozen texts; boundaries of every base/suffix combination and trailing junk are unsampled",
  ["src/arg_int.c"], [("strtol0X, detectsuffix, arg_int_scanfn", "src/arg_int.c")])
p("C10", "Real-number arguments accept exactly complete numbers",
  "A real-number argument accepts a text exactly if the whole text is a number in the C library's notation, and stores exactly the value of that conversion; the empty text and texts with leading or trailing junk are refused "
  "with a bad-double error and store nothing.",
  ["inputs"], "every text", "tests sample a few texts", ["src/arg_dbl.c"], [("arg_dbl_scanfn", "src/arg_dbl.c")])
p("C11", "Date arguments accept exactly texts in the given format",
  "A date argument accepts a text exactly if the whole text is in the argument's format, with every field inside its calendar range, and stores exactly the fields the text denotes (month and year offsets, two-digit "
  "year pivot, century, 12-hour clock and names in any case included). Any other text yields a bad-date error and stores nothing.",
  ["inputs", "configurations"], "every format and text", "tests sample a few formats and dates; field boundaries, modifiers and names are unsampled",
  ["src/arg_date.c"], [("arg_strptime, conv_num", "src/arg_date.c"), ("arg_date_scanfn", "src/arg_date.c")])
p("C12", "Pattern arguments accept exactly the texts their pattern describes",
  "A pattern argument accepts a text exactly if the whole text is described by the pattern (literals, dot, classes and negated classes, ranges, escapes, groups, alternatives, greedy quantifiers, anchors; case-insensitively when asked), "
  "for unambiguous patterns. Matching and compiling never read or write outside the pattern, the text and their own memory, always terminate, and a malformed pattern is refused cleanly.",
  ["inputs", "configurations"], "every pattern and text", "tests use four patterns", ["src/arg_rex.c"],
  [("trex_compile and the trex_* parser", "src/arg_rex.c"), ("trex_matchnode, trex_matchclass", "src/arg_rex.c"), ("arg_rex_scanfn", "src/arg_rex.c")])
p("C13", "Base name and extension of a file argument are exact suffixes",
  "For every file name, the stored base name is the part after the last path separator and the stored extension is the part of the base name from its last dot, the leading dot of a dot-file and names ending in a dot having none "
  "(the extension is then the empty text at the end of the name); all three point into the caller's word.",
  ["inputs"], "every file name", "tests sample a few names", ["src/arg_file.c"], [("arg_basename, arg_extension", "src/arg_file.c")])
p("C14", "A dynamic string always holds exactly the text put into it",
  "After any sequence of set, append, append-character, formatted append, reset and destroy operations the dynamic string holds exactly the concatenation of what was put in since the last set or reset, terminated, whatever the lengths "
  "and whatever the ownership of the text passed (static, volatile, to be released). Text handed over for release is released exactly once, and no operation reads or writes outside the buffers.",
  ["histories", "inputs"], "every sequence of operations and lengths around the internal buffer sizes", "tests use a handful of sequences, without leak or bounds checking",
  ["src/arg_dstr.c"], [("arg_dstr_set/cat/catc/catf/reset/destroy, setup_append_buf", "src/arg_dstr.c")],
  [("data, free_proc, append_data, append_data_size, append_used", "representation of the string")])
p("C15", "Usage texts stay within their buffers for names of any length",
  "Printing options, syntax lines and glossaries for entries with arbitrarily many short and long option names and arbitrarily long names, data types and glossaries never writes outside the internal buffers and always yields a terminated text.",
  ["inputs", "configurations"], "every table, including names longer than the fixed internal buffers", "tests use short names only", ["src/argtable3.c", "src/arg_utils.c"],
  [("arg_cat, arg_cat_option, arg_cat_optionv", "src/argtable3.c"), ("arg_print_gnuswitch_ds, arg_print_syntax_ds, arg_print_glossary_ds", "src/argtable3.c")])
p("C16", "The command registry behaves as a map from names to commands",
  "After any sequence of register and unregister operations the registry holds exactly the registered commands: lookup by name finds the latest registration and nothing else, the count is exact, dispatch calls exactly the named command's function with the caller's arguments and returns its result, "
  "and iteration visits each command exactly once. Growth of the underlying table and colliding names change nothing.",
  ["histories", "inputs"], "every sequence of operations, including collisions and growth", "tests register a handful of commands", ["src/arg_cmd.c", "src/arg_hashtable.c"],
  [("arg_cmd_register/unregister/info/dispatch/count/itr_*", "src/arg_cmd.c"), ("hash table insert/search/remove/expand/iterator", "src/arg_hashtable.c")])
p("C17", "Constructors yield complete, aligned, initialised entries",
  "Every constructor returns an entry whose count is zero, whose limits, names, data type and glossary are the ones given (with the documented defaults, and a maximum raised to the minimum where smaller), whose value arrays have room for the maximum number of values, are suitably aligned and do not overlap anything else, "
  "and whose single-occurrence variants behave as the general constructor with limits 0..1 and 1..1.",
  ["inputs", "configurations"], "every constructor and every pair of limits", "tests use limits that happen to be aligned, on a machine that tolerates misalignment",
  ["src/arg_lit.c", "src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_rex.c", "src/arg_file.c", "src/arg_date.c", "src/arg_rem.c", "src/arg_end.c"], [("arg_*0, arg_*1, arg_*n", "src/arg_*.c")])
p("C18", "Nothing is leaked and nothing is released twice",
  "Creating a table, parsing any command line with it, printing any of its texts and releasing it gives back every block of memory that was allocated, each exactly once; parsing and printing by themselves leave no memory behind, whether or not they find errors.",
  ["inputs", "histories"], "every table, command line and error path", "tests run without leak checking and never take most error paths",
  ["src/argtable3.c", "src/arg_rex.c", "src/arg_dstr.c", "src/arg_cmd.c", "src/arg_hashtable.c"], [("arg_parse argvcopy, options arrays", "src/argtable3.c"), ("arg_freetable", "src/argtable3.c"), ("trex_free", "src/arg_rex.c")])
p("C19", "Allocation failure always reaches the panic handler",
  "If any memory request fails, the installed panic handler is called before anything else happens; the library never uses the missing memory.",
  ["fault_sequences"], "failure of each single allocation request of each operation", "tests never let an allocation fail", ["src/arg_utils.c", "src/argtable3.c", "src/arg_*.c"],
  [("xmalloc/xcalloc/xrealloc", "src/arg_utils.c"), ("arg_panic, arg_set_panic", "src/arg_utils.c")])
p("C20", "Every recorded error is printed as its own correct message",
  "Printing the errors of a parse writes, for every recorded error in recording order, one message of whole lines that starts with the program name and describes that error with the offending text and the entry it concerns (a date error also shows an example of the expected format); nothing else is printed and printing twice prints the same.",
  ["inputs"], "every error kind of every value type", "tests compare the text for few kinds", ["src/arg_end.c", "src/arg_lit.c", "src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_rex.c", "src/arg_file.c", "src/arg_date.c"],
  [("arg_end_errorfn, arg_print_errors_ds", "src/arg_end.c"), ("*_errorfn", "src/arg_*.c")])
p("C21", "The sort yields a sorted permutation for every input",
  "The library's merge sort leaves exactly the given elements, in ascending order of the given comparison, for every number of elements, every initial order, duplicates and every element size.",
  ["inputs"], "every array, element size and comparison", "no test calls it", ["src/arg_utils.c"], [("arg_mgsort, arg_mgsort_merge, arg_mgsort_cmp", "src/arg_utils.c")])
p("C22", "The help/error decision and its texts are exact",
  "The standard help handler answers with success and the help text when help was asked for (whether or not there are errors), with failure and the error text when parsing failed, and otherwise adds no text and leaves the exit code alone; the texts contain exactly the command's description, the diagnostics, the program name, and the syntax and glossary of the table. The name and version message shows exactly the last name and version set.",
  ["inputs", "configurations"], "every combination of help request, errors, names and registrations", "tests do not call it", ["src/arg_cmd.c", "src/argtable3.c"],
  [("arg_make_syntax_err_help_msg, arg_make_get_help_msg, arg_make_help_msg, arg_make_syntax_err_msg", "src/arg_cmd.c")])
p("C23", "Stream and string variants of every printer print the same text",
  "For every table, each function that prints to a stream writes exactly the text the corresponding function for dynamic strings produces, once, to the given stream and to no other.",
  ["inputs", "configurations"], "every table and printer", "tests exercise only the string variants", ["src/argtable3.c", "src/arg_end.c"], [("arg_print_*", "src/argtable3.c"), ("arg_print_errors", "src/arg_end.c")])
p("C24", "Option names are matched exactly or by unambiguous abbreviation",
  "A short option matches exactly its characters (any but ':' and '-', which the option syntax reserves); a long option matches its full name or an abbreviation that fits exactly one name, the full name always winning; ambiguous and unknown names are reported as errors. A value is accepted after \"=\", attached or as the next word exactly for options that take one, "
  "and an option that takes none refuses one.",
  ["inputs", "configurations"], "every option word against every set of names", "tests use few names and almost no abbreviations", ["src/arg_getopt_long.c", "src/argtable3.c"],
  [("parse_long_options, getopt_internal", "src/arg_getopt_long.c"), ("find_shortoption, arg_make_longoptions", "src/argtable3.c")])
p("C25", "Table checks and release cope with every incomplete table",
  "Checking a table reports failure exactly if the table itself or an entry up to and including the end entry is missing; releasing a table of a given length releases every entry within that length, skips missing ones, touches nothing else and marks the entries as released, so that a second release does no harm. The older release function does the same up to the end entry or the first missing entry.",
  ["configurations", "fault_sequences"], "every position of missing entries", "tests have only complete tables", ["src/argtable3.c"], [("arg_nullcheck, arg_free, arg_freetable", "src/argtable3.c")])
p("C26", "Parsing is silent and never ends the process",
  "Parsing and building texts never write to any stream and never end or abort the process; problems are reported through the end entry only. Only the panic handler, which fires on memory exhaustion, may do so.",
  ["inputs"], "every table and command line", "tests cannot distinguish silence from unread output", ["src/argtable3.c", "src/arg_getopt_long.c", "src/arg_utils.c"],
  [("opterr = 0", "src/argtable3.c:arg_parse_tagged"), ("warnx calls", "src/arg_getopt_long.c"), ("arg_panic", "src/arg_utils.c")])
p("C27", "Usage lines and glossaries show exactly the table",
  "The syntax line, the verbose syntax line and both glossary layouts show every entry of the table in table order with exactly its option names, data type and glossary text, mandatory occurrences without and optional ones within brackets, an ellipsis where more than two optional occurrences are possible, and nothing else. Wrapping of long glossary text loses no word and keeps to the given columns.",
  ["configurations", "inputs"], "every table", "tests compare a few sample tables", ["src/argtable3.c", "src/arg_utils.c"],
  [("arg_print_syntax(_v), arg_print_gnuswitch, arg_print_glossary(_gnu), arg_print_formatted", "src/argtable3.c")])
p("C28", "Every entry takes part in a parse through its own functions, exactly once per occurrence",
  "An entry of the table, also one of the caller's own kind, is used only through its header: a parse first calls every entry's reset function once, then the scan "
  "function of exactly the entry an option or word belongs to, once per occurrence and with exactly its value text (none where none was given), and finally, if "
  "nothing was refused, every entry's check function once in table order. Every non-zero answer is recorded unchanged with its entry and text, printing the errors hands "
  "exactly these to the entry's error function, and functions an entry does not have are skipped.",
  ["inputs", "configurations"], "every table with entries of the caller's own kind, every subset of functions present, every answer, every command line",
  "the tests use the built-in kinds only, whose functions hide superfluous, missing or reordered calls",
  ["src/argtable3.c", "src/arg_end.c", "src/argtable3.h"],
  [("arg_reset, arg_parse_tagged, arg_parse_untagged, arg_parse_check", "src/argtable3.c"), ("arg_print_errors_ds", "src/arg_end.c"), ("struct arg_hdr", "src/argtable3.h")])

ABS = "abstract interpretation (Frama-C/Eva) of the sources from scenario entry points with abstract inputs; obligations as reachability of failing states"
NOTE = {}
CLAIM = {}


def claim(id, note, tech=ABS, thorough=True):
    CLAIM[id] = (note, tech, thorough)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
m = dict(version=1, setup_cmd="frama-c -version && clang --version", checks=[], not_applicable=[])
for x in P:
    i = x["id"]
    if i in CLAIM:
        note, tech, th = CLAIM[i]
        c = dict(property=i, quick_cmd="bin/check %s" % i, technique=tech, level="other", level_note=note)
        if th:
            c["thorough_cmd"] = "bin/check %s --tier thorough" % i
        m["checks"].append(c)
    else:
        m["not_applicable"].append(dict(property=i, reason="no check yet: the static machinery for it is being built"))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
