"""Which harness runs decide which property, within which bounds."""
PROPS = {}


def job(crate, entry, about, quick, thorough=None, **kw):
    return dict(crate=crate, entry=entry, about=about, quick=quick, thorough=thorough or quick, **kw)


def prop(pid, *jobs, **kw):
    PROPS[pid] = dict(jobs=list(jobs), **kw)


TEXT = ("source texts: every text of exactly n0 ASCII bytes; every text of n1 bytes over one representative per tokenizer character class (33); "
        "24 program templates (f-strings, blocks, brackets, strings, comprehensions, match, imports, decorators, continuation lines) with n2 symbolic bytes over the "
        "same classes; every sequence of n3 tokens of a 71-token alphabet (incl. keywords, indentation, multi-byte characters); 31 more templates (imports, calls, parameters, comments, broken lines) with n4 symbolic bytes; params (n0,n1,n2,n3,n4), 0 = left out")
Q, T = [[1, 2, 2, 2, 1]], [[2, 4, 3, 3, 3]]
I = [[1, 2, 2, 2, 2]]
prop("C01", job("h_tree", "h_total", TEXT, [[1, 3, 2, 2, 2]], T))
prop("C02", job("h_tree", "h_tile", TEXT, I, T))
prop("C03", job("h_tree", "h_nav", TEXT, Q, T))
prop("C04", job("h_tree", "h_pos", TEXT, Q, T))
LIT = "string literals: all prefixes (plain, raw, u or b) x 4 quote styles x (every sequence of n pieces of a 24-piece alphabet of special characters | \\x, \\u, \\U and octal escapes with symbolic digits | every escaped ASCII character | truncated escapes)"
prop("C10", job("h_val", "h_str", LIT, [[3]], [[4]], covers=1),
     job("h_val", "h_concat", "implicit concatenation of n literals out of 10 kinds with 3 separators", [[2]], [[3]]),
     job("h_val", "h_content", "assigned literals: 3 prefixes x 4 quotes x n pieces", [[3]], [[5]], covers=1))
prop("C11", job("h_val", "h_bytes", LIT.replace("string", "bytes"), [[3]], [[4]], covers=1))
prop("C12", job("h_val", "h_num", "every text of n characters over 24 number characters", [[3]], [[4]], covers=4),
     job("h_val", "h_bignum", "9 long heads (around 2^32, 2^64, 2^111) followed by n symbolic digits", [[2]], [[3]]))
prop("C14", job("h_ide", "h_ignore", TEXT, Q, T),
     job("h_ide", "h_ign2", "11 programs with and without ignore comments followed by n0 of 20 pieces of comments (n1: and another line), every token and construct of it", [[2, 1]], [[3, 1], [3, 0]], covers=1))
prop("C15", job("h_ide", "h_sel", TEXT, Q, T))
prop("C16", job("h_ide", "h_goto", TEXT, I, T), job("h_ide", "h_names", TEXT, I, T))
prop("C17", job("h_ide", "h_compl", TEXT, I, T), job("h_ide", "h_comment", TEXT, I, T))
prop("C18", job("h_ide", "h_sig", TEXT, I, T))
prop("C05", job("h_gram", "h_expr", "expressions: n0 binary operators (the first n2 of 33, incl. calls, subscripts, attributes and ternaries) and before every operand one of the first n1 of 8 unary forms; the tree is compared with the precedence table of the language reference", [[1, 8, 33], [2, 5, 19], [3, 0, 19]], [[1, 8, 33], [2, 8, 33], [3, 2, 33], [4, 0, 19]], covers=2))
prop("C06", job("h_gram", "h_indent", "texts of n0 lines: n1 kinds of line x n2 indentation widths x n3 indentation units (spaces, tabs) x n4 line endings", [[3, 8, 3, 1, 1], [4, 3, 4, 1, 1], [2, 18, 3, 2, 3]], [[3, 18, 4, 1, 1], [5, 4, 3, 1, 1], [4, 6, 4, 1, 1], [3, 6, 3, 2, 3]]),
     job("h_gram", "h_formfeed", "texts of n0 lines, one of which starts with a form feed", [[2]], [[3]], maxvio=500))
prop("C07", job("h_gram", "h_gram", "171 token templates with two holes: any of 51 tokens in the first and one of the first n0 tokens in the second; reference: the PEG of CPython's grammar (python.gram)", [[16]], [[51]], covers=2),
     job("h_gram", "h_gram_star", "those of the same texts with `match *` or `case *`", [[16]], [[51]], maxvio=500),
     job("h_gram", "h_phrase", "86 templates with two holes for phrases: any of 50 phrases (expressions of every precedence, targets, starred, yield, named, patterns, ...) in the first and one of the first n0 in the second; the same reference", [[10]], [[50]], covers=2),
     job("h_gram", "h_phrase_known", "those of the same texts with `(*a)` as target or pattern or a name as key of a mapping pattern", [[10]], [[50]], maxvio=500))
prop("C08", job("h_gram", "h_recover", "a broken line of n0 tokens (the first n1 of 49) between intact statements (the first n2 of 16 kinds behind it, up to 4 before it), n3 indentation levels", [[1, 49, 16, 2], [2, 26, 2, 2], [2, 6, 16, 1]], [[2, 49, 16, 2], [3, 18, 2, 1]]))
prop("C09", job("h_gram", "h_tok", "n2=0: every text of n0 bytes over n1 representative bytes; else every sequence of n0 lexemes of a 130-lexeme alphabet; reference: longest match of the lexical definitions of the language reference", [[3, 36, 0], [2, 0, 255]], [[4, 36, 0], [3, 0, 60]]))
prop("C13", job("h_gram", "h_fstr", "f-strings of n0 pieces (the first n1 of 28: text, doubled braces, escapes, nested quotes, conversions, format specs, nested fields) x n2 quote styles x n3 prefixes; n4: unterminated variants", [[3, 28, 2, 1, 0], [2, 28, 4, 4, 1], [2, 28, 4, 4, 0]], [[4, 28, 2, 1, 0], [3, 28, 4, 4, 0], [3, 28, 4, 2, 1], [3, 28, 2, 1, 2], [3, 28, 2, 1, 3]]))
LIC = ["ed25519 is replaced by an ideal signature scheme (harness/shims/ed25519-dalek): a signature verifies exactly for the message and key that made it"]
prop("C45", job("h_lic", "h_time", "any current time; begin and end of validity within n0 seconds behind 6 base times (0, today, ... u64::MAX)", [[50]], [[99]], covers=2),
     job("h_lic", "h_create", "n0=0: 0..99 days; 1: 100 years and numbers of days around the limits of u64", [[0], [1]]), assumptions=LIC)
prop("C46", job("h_lic", "h_tamper", "two licenses with name, email and company of up to n0 characters over `a1`, times in 0..99, versions 1..2, both levels; one carries the signature of the other", [[1]], [[2]], covers=2),
     job("h_lic", "h_shift", "pairs of different licenses whose fields, written one behind the other, are the same text", [[1]], maxvio=500), assumptions=LIC)
prop("C47", job("h_lic", "h_hexkey", "keys of 30..33 parts, one of which is any text of n0 characters out of 17", [[3]], [[4]], covers=2),
     job("h_lic", "h_json", "licenses with a text of n0 characters out of 11 (quotes, control characters, multi-byte) in any field, boundary times", [[3]], [[4]]), assumptions=LIC)
prop("C19", job("h_ide", "h_op", "19 binary, 3 unary and 13 augmented assignment operators x 6 x 6 operands, with and without spaces, every cursor position on the operator", [[0]], covers=3))
MEMFS = ["the operating system is replaced by a file system in memory (harness/h_vfs/src/memfs.rs): local_fs.rs is compiled with it in place of std::fs and same-file; the watcher of notify is left out, its events are part of the history"]
prop("C30", job("h_vfs", "h_norm", "every absolute path of up to n0 more bytes over `/.ab`", [[11]], [[13]]),
     job("h_vfs", "h_resolve", "every path of up to n0 bytes over `/.ab`, relative to 4 directories", [[9]], [[11]]), assumptions=MEMFS)
prop("C31", job("h_vfs", "h_rel", "every pair of normalized absolute paths of up to n0 and n1 bytes over `/ab.`", [[8, 8]], [[10, 10]]))
prop("C32", job("h_vfs", "h_ws", "n0 workspaces out of 6 nested, neighbouring and differently cased roots in any order, n1 more of them later (n2: after a file was read); 13 files on disk, new files in memory", [[3, 0, 0], [2, 1, 0], [1, 1, 1]], [[3, 0, 0], [4, 0, 0], [2, 1, 0], [1, 1, 1], [2, 2, 0]], covers=2),
     job("h_vfs", "h_case", "all spellings of a path in upper and lower case", [[0]]), assumptions=MEMFS)
HIST = ("histories of n1 steps out of the first n2 of: open or edit, close, write on disk, remove on disk, analyse with a dependency (also on a missing file or directory), remove a directory, create a directory with files, read; "
        "n0 files (2 directories), texts symbolic (n9=1: of up to 2 characters out of 3); n3=1: the directory is a workspace of its own; n4 optional initial dependencies; n6=1: everything depends on the first file; "
        "each of the first n7 files (n7>n0: and the directory) might be missing at the beginning, each of the first n8 files might be open at the beginning")
prop("C33", job("h_vfs", "h_hist", HIST, [[3, 3, 8, 0, 1], [3, 2, 8, 0, 0, 0, 0, 4, 2], [2, 3, 4, 0, 0, 0, 0, 0, 1, 1], [4, 2, 8, 1, 0, 0, 0, 4, 1], [4, 2, 8, 0, 3]], [[3, 4, 8], [5, 3, 8, 0, 2], [4, 3, 8, 1, 3], [3, 3, 8, 0, 0, 0, 0, 4, 2], [3, 3, 8, 0, 0, 0, 0, 0, 1, 1]], covers=1),
     job("h_vfs", "h_late", "the same without directories and dependencies, events of the file system arrive later, in order", [[3, 4, 6, 0, 0]], [[3, 5, 6, 0, 0], [3, 4, 6, 1, 0]]),
     job("h_vfs", "h_ghost", "a directory appears on disk after a file in it was opened and closed", [[0, 0, 0, 0, 0, 0, 0]]),
     job("h_vfs", "h_wsroot", "the root of a nested workspace is removed and comes back", [[0, 0, 0, 0, 0, 0, 0]], maxvio=500), assumptions=MEMFS)
prop("C34", job("h_vfs", "h_dep", HIST, [[3, 3, 8, 0, 1], [3, 2, 8, 0, 2, 0, 0, 4, 2], [4, 1, 8, 0, 4, 0, 0, 5, 2], [4, 1, 8, 1, 4, 0, 0, 5, 2], [3, 2, 8, 0, 0, 0, 1, 4, 2], [4, 2, 8, 1, 2], [3, 2, 7, 0, 3, 0, 0, 0, 3]], [[3, 4, 8], [5, 3, 8, 0, 2], [4, 3, 8, 1, 4], [3, 3, 8, 0, 2, 0, 1], [3, 3, 8, 0, 2, 0, 0, 4, 2], [4, 2, 8, 0, 3, 0, 0, 5, 2], [4, 2, 8, 1, 3, 0, 0, 4, 2]], covers=1),
     job("h_vfs", "h_namesake", "a package is looked for where there is a file or nothing of this name, and then it comes", [[0, 0, 0, 0, 0, 0, 0]]), assumptions=MEMFS)
prop("C35", job("h_vfs", "h_panic", HIST + "; then a panic and recovery; then n5 more steps", [[3, 2, 8, 0, 1, 1], [3, 1, 8, 0, 1, 1, 0, 4, 2], [3, 1, 8, 0, 1, 1, 1, 4, 2], [4, 1, 8, 1, 1, 1, 0, 0, 2]], [[3, 3, 8, 0, 0, 1], [4, 3, 8, 1, 0], [4, 2, 8, 1, 2, 1], [3, 2, 8, 0, 1, 1, 0, 4, 2], [3, 2, 8, 0, 1, 1, 1, 4, 2]], covers=1), assumptions=MEMFS)
prop("C36", job("h_vfs", "h_glob", "every pattern of up to n0 pieces out of 9 (names, separators, wildcards, `**`, character sets) and every path of up to n1 bytes over `aAB/.`", [[4, 4]], [[4, 5], [5, 3]], covers=2))
prop("C37", job("h_vfs", "h_links", "directories with two symbolic links in 4 x 3 places to 12 targets each (n0=2), or with one and a file or directory of 6 names (n0=1)", [[1], [2]]), assumptions=MEMFS)

WS = "every separator is symbolic white space; names are distinct; nR>0: one of the first nR expressions is one of 10 kinds of larger expressions. "
prop("C20", job("h_acc", "h_params", WS + "n0 parameters (kinds, `/`, `*`, `*args`, `**kw`, annotation, default), n1=1: of a lambda; nR=n3", [[3, 0], [3, 1], [2, 0, 0, 3]], [[4, 0], [4, 1], [3, 0, 0, 4]]),
     job("h_acc", "h_def", WS + "functions (also async) and classes with n0 decorators and n1 type parameters, return annotations, class arguments, docstrings", [[2, 0], [1, 1]], [[2, 0], [1, 1, 0, 2], [1, 2]]))
prop("C21", job("h_acc", "h_import", WS + "imports of n0 names of up to n1 parts, relative levels, aliases, parentheses, star", [[1, 2], [2, 1]], [[2, 2], [3, 1]]),
     job("h_acc", "h_insert", WS + "a new name for an import of up to n0 + 1 names, parts n1, with parentheses, trailing commas, comments", [[1, 1]], [[2, 1], [2, 2]], covers=1))
prop("C22", job("h_acc", "h_call", WS + "calls with n0 arguments (positional, keyword, `*`, `**`, generator, walrus); nR=n3", [[1], [3], [2, 0, 0, 2]], [[4], [3, 0, 0, 3]]),
     job("h_acc", "h_sub", WS + "subscripts with n0 slices; nR=n3", [[2], [1, 0, 0, 2]], [[3], [2, 0, 0, 3]]),
     job("h_acc", "h_disp", WS + "lists, tuples, sets, dicts of n0 elements; nR=n3", [[3], [2, 0, 0, 2]], [[4], [3, 0, 0, 3]]),
     job("h_acc", "h_comp", WS + "comprehensions (list, set, dict, generator) of n0 clauses and n1 targets; nR=n3", [[1, 1]], [[2, 1], [1, 2], [1, 1, 0, 2]]),
     job("h_acc", "h_cmp", WS + "n0 comparisons", [[3]], [[4]]),
     job("h_acc", "h_op", WS + "n0 operators", [[3]], [[4]]),
     job("h_acc", "h_fstr", WS + "f-strings of n0 pieces with n1 nested levels", [[2, 0], [1, 1]], [[2, 1], [3, 1]]))
prop("C23", job("h_acc", "h_simple", WS + "n0 simple statements of n1 parts, n2=1: separated by semicolons; nR=n3", [[1, 2], [2, 1, 1], [1, 1, 0, 1]], [[1, 3], [2, 1], [2, 1, 1], [1, 2, 0, 2]]),
     job("h_acc", "h_assign", WS + "assignments, annotated and augmented assignments, n0 targets of n1 parts; nR=n3", [[1, 1]], [[2, 1], [1, 2], [1, 1, 0, 1]]),
     job("h_acc", "h_compound", WS + "n0: 1 if, 2 while, 3 for, 4 with, 5 try; n1 further branches or items; nR=n3", [[1, 1], [2, 1], [3, 1], [4, 1], [5, 2]], [[1, 2, 0, 2], [2, 1, 0, 2], [3, 1, 0, 1], [4, 2], [4, 1, 0, 1], [5, 2, 0, 3]]))
prop("C24", job("h_acc", "h_pat", WS + "match statements of n0 cases, patterns of n1 parts, n2 levels deep (n2=0: with any subject and guard)", [[1, 1, 0], [1, 1, 1]], [[1, 2, 1], [2, 1, 0], [2, 1, 1]]))
prop("C25", job("h_ide", "h_ctx", "n0: 1 from, 2 from-import, 3 import, 4 attributes (13 contexts x 12 objects), 5 def, class, as, 6 arguments, 7 parameters, 8 any name, 9 strings; up to n1 dots or arguments, n2 parts of a module path; 5 (n3) scopes; cursor in or behind the name; what follows",
    [[1, 2, 2], [2, 2, 1], [3, 0, 2], [4, 0, 0, 1], [5], [6, 2, 0, 1], [7], [8], [9]], [[1, 3, 3], [2, 3, 3], [3, 0, 3], [4], [5], [6, 3, 0, 1], [6, 2], [7], [8], [9]], covers=1))
prop("C26", job("h_acc", "h_any", TEXT, I, [[2, 4, 3, 3, 3]]))
prop("C27", job("h_acc", "h_shape", "11 kinds of targets x the first n0 of 44 values x 8 following lines x 3 statements behind it x 2 scopes", [[24]], [[44]], covers=1),
     job("h_acc", "h_body", "functions with 3 parameter lists, 4 docstrings, a body of one of 30 statements (n0=1: and another one), decorated, async, annotated", [[0]], [[0], [1]]),
     job("h_acc", "h_self", "classes with a method of two out of 21 statements", [[0]]),
     job("h_acc", "h_await", "comprehensions with 8 x 8 x 8 parts", [[0]]))
prop("C40", job("h_val", "h_doc", "every text of n0 pieces out of the first n1 of: space, letter, newline, tab, no-break space, multi-byte letter, ideographic space; also as docstring of a function", [[6, 4], [4, 7]], [[8, 4], [6, 7]]))
prop("C41", job("h_lines", "h_pos", "every text of n0 pieces out of the first n1 of: letter, LF, character of 4 bytes, CR, CRLF, characters of 2 and 3 bytes; every position, line and column (up to 2 behind the end of the line) in 3 encodings", [[4, 7], [6, 4]], [[6, 7], [8, 4]], covers=2),
     job("h_lines", "h_lines", "the same texts, every range", [[4, 7], [6, 4]], [[5, 7], [7, 4]]))
