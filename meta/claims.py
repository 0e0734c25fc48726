for i, n in {
 "C01": "every word of up to 4 characters over the significant character classes, odd tables; pairs of words for 10 tables of positionals that refuse words; every number of words 0-66 (thorough 134), entries 2-66, capacities, word lengths to 270; alarms of the analyser are the verdict",
 "C02": "words of up to 4 characters, token sequences of up to 2 (thorough 3) of 26 kinds, sequences of up to 3 (thorough 4) words incl. the empty one for tables of positionals that refuse words: an input class that does not reach the end of its scenario is a violation",
 "C03": "all value types x ways of giving x limits x occurrences up to 5, optional values present and absent, token sequences up to 3, positionals of kinds that refuse words; limits 33..40 with 32-42 values; every maximum 1-34",
 "C04": "all value types x limits x occurrences; tables with several mandatory entries x given subsets; limits 33..40 with 32-42 values; every maximum 1-34, tables of 2-66 entries",
 "C05": "token sequences up to 3 of 26 token kinds against a reference reading; end capacities 0..10; lists of 30 errors against capacities 20..64, every capacity 1-66; words refused by positional entries of every kind (3, thorough 4, words x 10 tables); a correct command line of 60-80 words for 35 entries",
 "C06": "token sequences up to 3 of 26 kinds, option/positional interleavings of length 5 (thorough 6), blocks of up to 6 positionals and 6 option words with and without --; command lines of 60-80 words (4 arrangements) for 35 entries, words of up to 600 characters; every number of words 0-66 (thorough 134); positionals of kinds that refuse words",
 "C07": "any history at once: every static variable of the library and every entry hold arbitrary contents before the parse (1-2 words of 26 token kinds; each value type with 0-2 words), plus concrete pairs of parses and changing environments",
 "C08": "token sequences up to 3; command lines of 60-80 words; words of up to 600 characters",
 "C09": "texts over every significant character class up to 5 characters, symbolic ranges of values for each base and suffix; texts of up to 150 digits or blanks",
 "C10": "texts over every significant character class; conversion compared with the C library model's value; texts of up to 150 digits or blanks",
 "C11": "every conversion specification with symbolic digits and all field boundaries; formats of several conversions with modifiers, names, half days and centuries in any order; several values in formats that leave fields out; formats of up to 66 items",
 "C12": "pattern families x texts with abstract characters; malformed patterns; texts, sets and literal patterns of up to 28 characters; escapes as ends of ranges; case-insensitive ranges; patterns and texts of up to 33 (thorough 62) items in 11 families",
 "C13": "every name over {letter, dot, slash} up to 5 (thorough 7) characters with abstract letters; paths of up to 520 characters",
 "C14": "operation sequences of length up to 3 over lengths around the buffer limits, and symbolic contents; every length of a range up to 264 in every operation; texts of 398-1000 characters (thorough 4000) put together in several steps",
 "C24": "token sequences with exact, abbreviated, ambiguous and unknown names and all value forms; every pair and many triples of name lists against 13 option words; clusters of short options; names of 20-300 letters that differ in the last one; every character as a known and as an unknown short option; lists of 1-62 names; names with dashes, dots and digits; values that look like options",
 "C15": "names, lists, data types and glossaries of lengths around and beyond the internal buffers through every printer, odd (empty) names",
 "C16": "operation histories of length 3 (thorough 4) over six names with equal hashes, shared buckets and prefixes; chains of length 3-4; growth past the load limit; names of 8-99 characters that differ in one or two, with equal hashes; 1-40 and up to 130 commands; registering again with the same or another function, description, context",
 "C17": "every constructor variant x nine pairs of limits (further ones up to 400) x defaults; every slot written; double arrays at every block alignment",
 "C18": "parse, print, diagnostics, registry, constructors: allocation balance at the end of every scenario; a table of 35-40 entries",
 "C19": "each single allocation request of eight operation groups fails in turn; the allocation functions by themselves for zero and non-zero sizes; rule over all allocation sites (result compared with NULL before use)",
 "C20": "every error kind of every value type with and without names; sequences of three words with several errors; a list of 30 errors; every character as an unknown short option; texts of every length of a range up to 240",
 "C21": "every order of up to 4 elements (with duplicates), 5 elements over 3 keys (thorough: 5 keys); element sizes up to 300 bytes; sub-ranges; every number of elements 0-40 in five arrangements; comparisons answering any sign and size",
 "C22": "every combination of help request, error count, module name and registration; name and version set twice; exact texts",
 "C23": "every printer on tables of 13 entry kinds; diagnostics of every error kind; every printer on a stream of the caller, standard output and standard error",
 "C25": "every subset of missing entries of tables of up to 5 entries; a table of 40 entries with holes",
 "C26": "call-graph rule over all inputs (no writer or exit reachable from the parser); every parse scenario of up to 2 words (thorough 3), malformed patterns, every printer",
 "C27": "exact reference text for tables of 1-3 entries of 13 kinds and 8 limit pairs; limits up to 203; wrapped text: every text of up to 5 (thorough 7) characters over {letter, space, newline} and widths; names, data types and glossaries of every length of a range up to 190",
 "C28": "four entries with recording functions x word sequences of length 1-3 x absent functions x refusals of scan and check; answers of any size and sign; the record of calls is compared with a reference",
}.items():
    extra = {"C19": "; plus an IR dataflow rule (alloc-checked)", "C26": "; plus an IR call-graph rule (silent-reach)", "C20": "; plus an IR dataflow rule (format-origin)",
             "C22": "; plus an IR dataflow rule (format-origin)", "C23": "; plus an IR dataflow rule (format-origin)", "C27": "; plus an IR dataflow rule (format-origin)"}
    claim(i, n, ABS + extra.get(i, ""))
