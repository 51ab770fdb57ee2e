"""Texts of the properties (source of properties.jsonl and MANIFEST.json, see tools/gen.py)."""
P = []
NA = {}


def p(id, title, statement, over, qtext, why, files, mech, note=None, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
             anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]})
    if note:
        d["note"] = note
    d["anchors"].update(kw)
    P.append(d)


def na(reason, id, *a, **kw):
    p(id, *a, **kw)
    NA[id] = reason


PARSER = ["crates/parsa_python/src/lib.rs", "crates/parsa_python/src/tokenizer.rs", "crates/parsa/src/automaton.rs", "crates/parsa/src/backtracking.rs"]
TREE = ["crates/parsa/src/lib.rs"]
CST = ["crates/parsa_python_cst/src/lib.rs"]
SAMPLE = "The tests parse a fixed list of snippets; the guarantee is about every text, in particular the half-typed and broken ones an editor sends."

p("C01", "Parsing any source text succeeds and loses nothing",
  "For every source text, valid Python or not, parsing terminates with a syntax tree and never panics. The tree's source is the text itself, extended at most by the terminating newline that was missing. The root is a file that ends with an end marker.",
  ["inputs"], "every source text", SAMPLE,
  PARSER, [("PythonGrammar::parse", "crates/parsa_python/src/lib.rs"), ("PythonTokenizer", "crates/parsa_python/src/tokenizer.rs"), ("error recovery", "crates/parsa/src/backtracking.rs")])
p("C02", "The leaves tile the source text",
  "For every source text the leaves of the tree come in source order, do not overlap, start and end at character boundaries, and all text outside of leaves is white space, comments or line continuations. Every inner node has children, spans exactly from its first to its last leaf, and children are nested in their parent in pre-order.",
  ["inputs"], "every source text", SAMPLE,
  PARSER + TREE, [("Tokenizer::next", "crates/parsa_python/src/tokenizer.rs"), ("InternalNode start_index/length/next_node_offset", "crates/parsa/src/lib.rs")])
p("C03", "Tree navigation agrees with the structure of the tree",
  "For every source text and every node, parent, previous/next sibling, previous/next leaf, last leaf, prefix, suffix and subtree search return exactly what a plain walk over the children of the tree yields.",
  ["inputs"], "every source text, every node of its tree", "Navigation is exercised by tests on a handful of trees; index arithmetic on offsets goes wrong on particular shapes (zero-width leaves, error nodes, last children).",
  TREE, [("previous_leaf/next_leaf/parent/…", "crates/parsa/src/lib.rs"), ("SearchIterator", "crates/parsa/src/lib.rs")])
p("C04", "Looking up a position finds the leaf at the position",
  "For every source text and every byte position, the lookup by position returns the last leaf that starts at or before the position if it reaches it, and otherwise the leaf whose prefix contains the position (the last leaf behind the end).",
  ["inputs"], "every source text, every byte position in and behind it", "Tests look up a few positions in a few snippets.",
  TREE, [("leaf_by_position", "crates/parsa/src/lib.rs")])
p("C10", "String literals have the value Python gives them",
  "For every string literal - any prefix, quote style, escapes, line endings, and implicit concatenation - the value computed is exactly the sequence of characters that the Python language reference defines, and computing it never panics, also for malformed escapes. The content of a literal used for messages and forward references is the text between its quotes.",
  ["inputs"], "every string literal", "The tests contain a few dozen escapes; the value has to be right for every escape, digit, truncation and line ending.",
  ["crates/parsa_python_cst/src/strings.rs"] + CST, [("StringLiteral::as_python_string / PythonString", "crates/parsa_python_cst/src/strings.rs"), ("StringLiteral::content", "crates/parsa_python_cst/src/lib.rs")])
p("C11", "Bytes literals have the value Python gives them",
  "For every bytes literal - any prefix, quote style, escapes and line endings - the value computed is exactly the sequence of bytes that the Python language reference defines, and computing it never panics, also for malformed escapes.",
  ["inputs"], "every bytes literal", "Tests contain a few literals; see C10.",
  ["crates/parsa_python_cst/src/bytes.rs"] + CST, [("Bytes / BytesLiteral", "crates/parsa_python_cst/src/lib.rs")])
p("C12", "Integer literals have the value Python gives them",
  "Every text that Python accepts as an integer literal (decimal, hexadecimal, octal, binary, underscores) is one number token whose parsed value is its mathematical value, however long it is; a text that is no valid number is not accepted as one.",
  ["inputs"], "every text of number characters", "Tests list a few dozen literals; the boundary between valid and invalid (underscores, leading zeros, exponents) is a regular language.",
  ["crates/parsa_python/src/tokenizer.rs"] + CST, [("number regex", "crates/parsa_python/src/tokenizer.rs"), ("Int::parse / parse_as_big_int", "crates/parsa_python_cst/src/lib.rs")])
p("C14", "Ignore comments suppress exactly what they say, where they say it",
  "For every source text, an issue is suppressed exactly if one of the lines from its start to the end of the line where it ends has a `# type: ignore` or `# zuban: ignore` comment, with exactly the codes of the comments or completely if one has no codes; the comment in front of the first statement counts for the file. The position that is offered to add an ignore comment is on the line of the issue, and adding the offered text there suppresses the code and changes no token. All these queries are total on every text and position. Exactly the lines that start with `# mypy: ` are reported as inline directives, with their position.",
  ["inputs"], "every source text and position", SAMPLE, CST + ["crates/parsa_python_cst/src/code_actions.rs"], [("type_ignore_comment_for / maybe_type_ignore / mypy_inline_config_directives", "crates/parsa_python_cst/src/lib.rs"), ("insertion_point_for_type_ignore / format_for_kind", "crates/parsa_python_cst/src/code_actions.rs")])
p("C15", "Selection ranges are the constructs around the cursor, from small to large",
  "For every source text and cursor position, the selection ranges are ranges of the text at character boundaries that contain the cursor, each strictly contains the one before, and the last is the whole file. Each is a construct of the text, where a statement may be extended to the start of its line, the first is the name or literal at or directly before the cursor, and no construct around it is left out. The place for new imports is behind the imports (and docstring) at the start of the file and in front of the first other statement. Folding ranges are ranges of the text, and inlay hints are looked for at all functions and assignments that start in the requested range and not at ones behind it.",
  ["inputs"], "every source text and cursor position", SAMPLE, ["crates/parsa_python_cst/src/ranges.rs"] + CST, [("selection_ranges", "crates/parsa_python_cst/src/ranges.rs"), ("folding_blocks / initial_imports_end_code_index / potential_inlay_hints", "crates/parsa_python_cst/src")])
p("C16", "Every name in a text is found and every cursor on a name has a target",
  "For every source text the enumeration of names yields exactly its name tokens in order, from any position on. A cursor on or next to a name always has a goto target, which is that name or the attribute access or import it belongs to. Each name is either a definition or a reference, and a definition's range contains its name.",
  ["inputs"], "every source text and cursor position", SAMPLE, CST, [("goto_node / filter_all_names / Name / NameDef", "crates/parsa_python_cst/src")])
p("C17", "Completion context is consistent with the text before the cursor",
  "For every source text and cursor position, completion is total, the text to complete is text that ends at the cursor, import paths and attribute bases come from before the cursor, and the cursor is reported to be inside a comment exactly if it is, with that comment's text and start.",
  ["inputs"], "every source text and cursor position", SAMPLE, CST + ["crates/parsa_python_cst/src/completion.rs"], [("completion_node", "crates/parsa_python_cst/src/completion.rs")])
p("C18", "Signature help reports the innermost call that is open at the cursor",
  "For every source text and cursor position, signature help is total, and when it reports a call then the called expression ends before the cursor and a parenthesis was opened between it and the cursor. In a text without syntax errors it reports exactly the innermost call whose parentheses are around the cursor (only for a call inside of an assignment target, like `a.b(c).d = 1`, it may report nothing).",
  ["inputs"], "every source text and cursor position", SAMPLE, CST + ["crates/parsa_python_cst/src/signatures.rs"], [("signature_node", "crates/parsa_python_cst/src")])
GRAM = ["crates/parsa_python/src/lib.rs", "crates/parsa_python/src/tokenizer.rs", "crates/parsa/src/automaton.rs", "crates/parsa/src/backtracking.rs"]
p("C05", "Operators nest as the precedence and associativity rules of Python say",
  "For every expression built of unary and binary operators, comparisons, ternaries, lambdas, await, attribute accesses, calls and subscripts, the syntax tree groups operands exactly as the precedence and associativity rules of the Python language reference do, and an operator sequence that is no expression has a syntax error.",
  ["inputs"], "every combination of operators", "The tests parse a few expressions; grouping depends on every pair and triple of operators.",
  GRAM, [("expression rules (disjunction … await_primary)", "crates/parsa_python/src/lib.rs")])
p("C06", "Blocks follow from the indentation of lines as in Python",
  "For every text, lines form blocks exactly as their indentation says: a deeper line behind a `:` opens a block, a line with the indentation of an enclosing block ends the blocks inside of it, any other change of the indentation is a syntax error. Blank lines, comments, continuation lines and lines inside of brackets or strings do not count, and any line ending is as good as another.",
  ["inputs"], "every sequence of lines", "The tests contain a few indented programs; blocks depend on every combination of indentation, blank lines, comments and line endings.",
  GRAM, [("skip_whitespace / dedent_if_necessary / indent_stack", "crates/parsa_python/src/tokenizer.rs"), ("block", "crates/parsa_python/src/lib.rs")],
  note="Known finding: a form feed at the start of a line counts as indentation (an existing test expects it).")
p("C07", "Exactly the valid Python programs parse without a syntax error",
  "A sequence of Python tokens parses without error nodes exactly if Python's own grammar accepts it: a valid program never has a syntax error reported, and a program with a syntax error always has one. This covers all statements and expressions: assignments, calls, parameters, imports, patterns, type parameters, comprehensions, decorators, with, try and match statements.",
  ["inputs"], "every sequence of tokens", "The tests parse some valid and some broken snippets; every rule of the grammar has to accept exactly the language of Python.",
  GRAM, [("PythonGrammar", "crates/parsa_python/src/lib.rs"), ("automaton construction and lookaheads", "crates/parsa/src/automaton.rs"), ("backtracking", "crates/parsa/src/backtracking.rs")],
  note="Known findings: `match *a:`, `case *a:`, `(*a) = b` and `case (*a):` (without a comma), and a plain name as key of a mapping pattern are accepted.")
p("C08", "A broken line does not change how the lines around it are parsed",
  "When a line is broken but closes its brackets, the statements before and behind it, on every indentation level, are parsed exactly as if the broken line was not there. When it leaves brackets open, a following line that starts with a keyword which cannot be part of an expression is a statement of its own.",
  ["inputs"], "every broken line", "Error recovery has a handful of tests; the guarantee is about every broken line someone types.",
  GRAM, [("error recovery", "crates/parsa/src/automaton.rs"), ("encountered_break_token", "crates/parsa_python/src/tokenizer.rs")])
p("C09", "Source text is split into tokens as the language reference says",
  "For every text, the kinds and boundaries of the tokens (names and keywords, numbers, operators, strings, bytes, newlines) are the ones of the lexical analysis of the Python language reference, in particular the longest match is taken for operators and numbers, and adjacent tokens are never merged or cut.",
  ["inputs"], "every text", "The tokenizer tests are a list of snippets; the longest match has to be right for every pair of adjacent lexemes.",
  ["crates/parsa_python/src/tokenizer.rs"], [("regular expressions / PythonTokenizer::next", "crates/parsa_python/src/tokenizer.rs")])
p("C13", "f-strings are split into text, replacement fields and format specs",
  "For every f-string - any prefix, quote style and nesting - the replacement fields, conversions and format specs are found exactly where PEP 701 says: doubled braces, escapes and quotes of nested strings do not start or end anything, format specs can contain further fields, and the string ends at its own closing quote. A malformed f-string has a syntax error.",
  ["inputs"], "every f-string", "The tests contain some dozens of f-strings; nesting, quotes and braces combine freely.",
  ["crates/parsa_python/src/tokenizer.rs", "crates/parsa_python/src/lib.rs"], [("handle_fstring_stack / FStringNode", "crates/parsa_python/src/tokenizer.rs"), ("fstring rules", "crates/parsa_python/src/lib.rs")])
LICF = ["crates/licensing/src/lib.rs"]
p("C45", "A license is valid exactly from its first to its last second",
  "A license signed with an accepted key is valid at exactly the times from its begin to its end, both included; before and after that it is rejected, and so is at any time a license signed with another key. A license created for n days ends n days after its begin, for the given person; a number of days that cannot be represented is an error and never a panic or a wrong end.",
  ["inputs", "time"], "every validity period, current time and number of days", "Tests check a few times around one period.",
  LICF, [("License::verify_with_keys", "crates/licensing/src/lib.rs"), ("create_license", "crates/licensing/src/lib.rs")])
p("C46", "A license that was changed after it was signed is rejected",
  "A license whose name, email, company, validity period, version or level differs from the license that its signature was made for is never accepted.",
  ["inputs"], "every pair of licenses", "Tests change each field once.",
  LICF, [("License::to_bytes_message", "crates/licensing/src/lib.rs")],
  note="Known finding: text can be moved from one field to the next one, because the signed message is the concatenation of the fields.")
p("C47", "Keys and license files are read back as they were written",
  "A key text is accepted exactly if it consists of 32 hexadecimal bytes separated by colons, and yields these bytes. A license written to JSON and read again has the same fields and signature, for every text in its fields.",
  ["inputs"], "every key text and every license", "Tests use one key and one license.",
  LICF, [("hex_string_key_to_bytes", "crates/licensing/src/lib.rs"), ("License::to_json / from_json", "crates/licensing/src/lib.rs")])
p("C19", "A cursor on an operator leads to the special method of the operator",
  "For every binary, unary, comparison and augmented assignment operator, a cursor on the operator has as target the operator, its first operand and exactly the special method(s) that Python calls for it.",
  ["inputs"], "every operator, operand and cursor position", "Tests look up a few operators.",
  CST, [("goto_node", "crates/parsa_python_cst/src/lib.rs")])

VFS = ["crates/vfs/src/lib.rs", "crates/vfs/src/vfs.rs", "crates/vfs/src/workspaces.rs", "crates/vfs/src/tree.rs", "crates/vfs/src/local_fs.rs"]
p("C30", "Every path has one normal form",
  "For every path, absolute or relative to a directory, the normalized path is the absolute path without `.`, `..`, doubled and trailing separators that the same lookup would lexically reach; a normalized path is its own normal form. Joining a name to a directory and splitting it off again yields the name and the directory.",
  ["inputs"], "every path", "Tests normalize half a dozen paths; files are identified by their normalized path.",
  ["crates/vfs/src/normalized_path.rs", "crates/vfs/src/path.rs", "crates/vfs/src/lib.rs"], [("NormalizedPath::normalize", "crates/vfs/src/normalized_path.rs"), ("absolute_path / join / unchecked_abs_path", "crates/vfs/src/lib.rs")])
p("C31", "Containment and relative paths go by path components",
  "For every pair of normalized paths, a directory contains exactly the paths that have all of its components as first components (`/foo` does not contain `/foobar`). The path of one relative to the other leads, from there, to it. Splitting off the first or last component loses nothing.",
  ["inputs"], "every pair of paths", "Tests contain a dozen pairs.",
  ["crates/vfs/src/path.rs", "crates/vfs/src/lib.rs"], [("contains_sub_file", "crates/vfs/src/path.rs"), ("path_relative_to / split_off_first_item / split_off_last_item", "crates/vfs/src/lib.rs")])
p("C32", "A file belongs to the innermost workspace around it and has one entry",
  "For every set of workspaces, nested or neighbouring and added in any order (before the directories around them are read), a path is looked up in the innermost workspace that contains it, is found exactly if it exists there, and every way to it leads to the same entry, whose path is the path. Files outside of all workspaces can be opened, and a file in memory is found where a file on disk would be. Upper and lower case count exactly if the file system is case sensitive.",
  ["inputs", "histories"], "every set of workspaces and every path", "Tests use one or two workspaces.",
  VFS, [("strip_short_path_in_workspace / ensure_file / search_path", "crates/vfs/src/workspaces.rs"), ("nested workspaces", "crates/vfs/src/tree.rs"), ("Workspace::new", "crates/vfs/src/workspaces.rs")])
p("C33", "The text of a file is the editor's while it is open, and else the one on disk",
  "After every history of opening, editing and closing files in the editor, of writing and removing files and directories on disk (each reported by an event, maybe late), and of reading them, the text of every file is the one of the editor if the file is open there and else the one on disk, and a file that is in neither place does not exist. Exactly the opened files can be closed, and events for files that are open change nothing.",
  ["histories"], "every history of editor and file system operations", "Tests run some dozens of short scripts; the state of the tree depends on the whole history.",
  VFS, [("store_in_memory_file / close_in_memory_file / invalidate_path", "crates/vfs/src/vfs.rs"), ("ensure_file / unload_file", "crates/vfs/src/tree.rs"), ("is_unnecessary_invalidation", "crates/vfs/src/local_fs.rs")],
  note="Known finding: the removal and return of the root directory of a workspace is not noticed.")
p("C34", "Whatever depends on a changed file is invalidated, and nothing else",
  "After every history, when the text of a file changes, appears or disappears - in the editor or on disk, alone or with its directory - every analysed file that depends on it, directly or through others, also one that only looked for it while it was missing, is invalidated and told which file changed if that is one file, and the editor is told about each of them that is open. Files that do not depend on it stay valid. A change of a file that everything depends on invalidates the whole database.",
  ["histories"], "every history of operations and dependencies", "Tests run some dozens of short scripts.",
  VFS, [("invalidate_files / invalidate_file_by_index / Invalidations", "crates/vfs/src/vfs.rs"), ("add_missing_entry_callback / add_invalidation", "crates/vfs/src/tree.rs")])
p("C35", "After a panic all open files are still there",
  "After every history, when the server recovers from a panic, the editor is told about all files that are open, all of them are open with the same text in the new state, all other files have the text on disk, and the new state continues to work as before.",
  ["histories", "faults"], "every history before and after a panic", "Tests recover from one panic.",
  VFS, [("into_panic_recovery / load_panic_recovery", "crates/vfs/src/vfs.rs")])
p("C36", "Glob patterns match exactly the paths they describe",
  "For every pattern given for the files to check, relative to a directory, and every path, the pattern matches exactly if the path is described by it: `*` and `?` do not match separators, `**` matches any number of directories, sets of characters match one of them, all else matches itself (also in its case on case sensitive file systems). A pattern without special characters is a plain path.",
  ["inputs"], "every pattern and path", "Tests use few patterns.",
  ["crates/vfs/src/glob_abs_path.rs", "crates/vfs/src/lib.rs"], [("GlobAbsPath", "crates/vfs/src/glob_abs_path.rs"), ("is_case_sensitive", "crates/vfs/src/lib.rs")])
p("C37", "Directories are listed as they are on disk, also with symbolic links",
  "For every arrangement of directories, files and symbolic links, a directory's entries are its files and directories, where links count as what they lead to, except for ignored names (hidden ones, `__pycache__`, `node_modules`, `site-packages`), broken links, loops of links, and links to a directory that is already around them. Walking through all directories ends.",
  ["inputs"], "every arrangement of links", "Tests set up two or three links on a real disk.",
  ["crates/vfs/src/local_fs.rs"], [("read_and_watch_dir / follow_symlink_internal / into_dir_entry", "crates/vfs/src/local_fs.rs")])


ACC = "The tests of the type checker see accessors through types of a few hundred programs; a wrong name, default or branch shows only for a particular combination of parts."
p("C20", "Functions, lambdas and classes are what their source text says",
  "For every function, lambda and class definition - any kinds of parameters, markers, defaults, annotations, decorators, type parameters with bounds and defaults, arguments, and docstring - the parts that the syntax tree reports (names, kinds and order of parameters, their annotations and defaults, the return annotation, decorators, type parameters, class arguments, body, docstring) are exactly those that are written there, and every name in it knows the function or class it belongs to.",
  ["inputs"], "every combination of parts of a definition, with any white space between the tokens", ACC, CST,
  [("FunctionDef / Param / Lambda / ClassDef / Decorated / TypeParams", "crates/parsa_python_cst/src/lib.rs")])
p("C21", "Imports are what their source text says, and new names go where they belong",
  "For every import statement - relative levels, dotted names, aliases, several names, parentheses, stars - the modules, names, aliases and levels that are reported are exactly those that are written there, and a name is defined in the importing scope exactly if Python binds it. Inserting a name at the position that is offered for it yields the same import with one more name.",
  ["inputs"], "every combination of parts of an import, with any white space between the tokens", ACC, CST + ["crates/parsa_python_cst/src/code_actions.rs"],
  [("ImportName / ImportFrom / DottedName / DottedAsName", "crates/parsa_python_cst/src/lib.rs"), ("insertion of names", "crates/parsa_python_cst/src")])
p("C22", "Expressions are taken apart into exactly what their source text says",
  "For every call, subscript, slice, list, tuple, set, dict, comprehension, comparison, operator expression and f-string, the parts that the syntax tree reports (arguments with their kinds and names, slice bounds, elements, keys and values, the clauses and targets of comprehensions, operands and operators in order, replacement fields, conversions and format specs) are exactly those that are written there.",
  ["inputs"], "every combination of parts of an expression, with any white space between the tokens", ACC, CST,
  [("Primary / Arguments / Slices / Atom / Comprehension / Comparisons / Operation / FString", "crates/parsa_python_cst/src/lib.rs")])
p("C23", "Statements are taken apart into exactly what their source text says",
  "For every simple statement, assignment and compound statement (if, while, for, with, try, also async), the parts that the syntax tree reports - targets, annotations, values, conditions, branches, exception types and names, the names that a target binds, the statements of a block - are exactly those that are written there, and every name belongs to the statement that binds it.",
  ["inputs"], "every combination of parts of a statement, with any white space between the tokens", ACC, CST,
  [("SimpleStmt / Assignment / Target / IfStmt / WhileStmt / ForStmt / WithStmt / TryStmt / Block", "crates/parsa_python_cst/src/lib.rs")])
p("C24", "The patterns of a match statement are what their source text says",
  "For every match statement, subject, cases, guards, and the kind and the parts of every pattern (literals, captures, values, groups, sequences with stars, mappings with rests, classes with positional and keyword patterns, alternatives, aliases), nested in each other, are reported exactly as they are written.",
  ["inputs"], "every combination and nesting of patterns, with any white space between the tokens", ACC, CST,
  [("MatchStmt / CaseBlock / Pattern / …", "crates/parsa_python_cst/src/lib.rs")])
p("C25", "Completion offers what fits the construct that is being typed",
  "For every line that is written up to the cursor, complete or not behind it, the context of a completion is the construct the cursor is in: the module path and the number of dots of an import, the object whose attribute is typed, the call whose argument is typed with the positional and keyword arguments given before, a new name behind `def`, `class` or `as`, a parameter, or any name. The text to complete is the part of the name before the cursor, and the scope is the one around the line. (Not claimed: an empty line, arguments and parameters of a call or function that is not closed, keyword-only parameters, unfinished targets of `del`.)",
  ["inputs"], "every construct, every cursor in the name that is typed, any scope around it and anything behind it", ACC, CST + ["crates/parsa_python_cst/src/completion.rs"],
  [("completion_node / context / used_args_until / import_from_target_node", "crates/parsa_python_cst/src/completion.rs")])
p("C26", "Every part of every syntax tree can be looked at, also of broken code",
  "For every source text, valid or not, everything that the syntax tree offers about its statements, definitions, expressions, patterns and names can be asked without a panic, the parts lie inside of the construct they belong to and come in source order, every name belongs to a scope around it, and different ways to ask for the same part agree.",
  ["inputs"], "every source text", SAMPLE, CST,
  [("all accessors of the CST", "crates/parsa_python_cst/src/lib.rs")])
p("C27", "Simple forms of expressions, assignments and bodies are recognised exactly",
  "For every expression, assignment and function body, the forms that the analysis treats specially are recognised exactly where they are written: literals, names with attributes only, tuples, lambdas; an assignment of one expression to one name, and the assignment on the next line; values without names; trivial bodies (only a docstring, or then first `pass`, `...`, a string or `raise`); all names that are bound in the scope of a function, and no others; attributes that are assigned on a name in a class; `await` in a comprehension. (Not claimed: names that are bound in comprehensions or in the subscript of a target.)",
  ["inputs"], "every combination of targets, values, statements and what follows, with any white space between the tokens", ACC, CST,
  [("Expression::is_* / maybe_simple_*", "crates/parsa_python_cst/src/lib.rs"), ("Assignment::maybe_simple_type_expression_assignment / maybe_next_assignment", "crates/parsa_python_cst/src/lib.rs"), ("FunctionDef::trivial_body_state / on_name_def_in_scope", "crates/parsa_python_cst/src/lib.rs"), ("ClassDef::search_potential_self_assignments", "crates/parsa_python_cst/src/lib.rs"), ("has_await", "crates/parsa_python_cst/src/lib.rs")])
p("C40", "Docstrings lose exactly their common indentation",
  "For every text, removing its indentation never panics, and every line that has text loses exactly as much white space at its start as the least indented of these lines has there (the same for the docstring of a function, as it is shown to a user); a line of white space loses at most as much; nothing else changes. Where the indentation contains white space of several bytes, nothing but white space at the start of lines is lost.",
  ["inputs"], "every text", "Tests dedent two or three texts of spaces.",
  ["crates/utils/src/lib.rs", "crates/parsa_python_cst/src/lib.rs"], [("dedent_cow / dedent", "crates/utils/src/lib.rs"), ("clean_docstring", "crates/parsa_python_cst/src/lib.rs")])
p("C41", "Positions of the protocol and of the text correspond to each other",
  "For every text - any line endings and characters - every byte position has exactly one line and column in each position encoding (bytes, UTF-16 code units, code points), counted as the language server protocol says, and the line and column lead back to it. A column behind the end of a line means its end and is reported as out of bounds, one inside of a character and a line behind the end are errors; nothing panics. Lines are cut and ranges are extended to full lines at exactly the line endings.",
  ["inputs"], "every text, position and position encoding", "The tests convert some positions in four texts without surrogate pairs or carriage returns.",
  ["crates/zuban_python/src/lines.rs"], [("NewlineIndices / PositionInfos / utf16_to_utf8_byte_offset", "crates/zuban_python/src/lines.rs")])

NOBUILD = "zuban_python and what depends on it cannot be built here: its dependencies (git dependencies and the typeshed submodule) are not on this machine, so its code can be neither compiled to bitcode nor replayed; "
TC = ["crates/zuban_python/src"]
na(NOBUILD + "apart from that, the type checker needs typeshed and millions of instructions per program, and the reference (mypy's behaviour) has no definition a solver could use.",
  "C70", "Type errors are reported exactly where the type rules of Python are broken",
  "For every program, `zuban mypy` reports exactly the errors that mypy reports, with the same messages, codes and positions.",
  ["inputs"], "every Python program", "The test suite is a sample of programs.", TC + ["crates/zmypy/src"], [("diagnostics", "crates/zuban_python/src/diagnostics.rs")])
na(NOBUILD + "checking the cache needs two runs of the whole type checker per history.",
  "C71", "Diagnostics after edits are those of a fresh run",
  "After every history of edits, the diagnostics, completions and goto targets are those of a server that is started on the final texts.",
  ["histories"], "every history of edits", "Tests run a few scripts of edits.", TC, [("Database / file invalidation", "crates/zuban_python/src/database.rs")])
na(NOBUILD + "the part of it that is in vfs and parsa_python_cst is decided by C16, C33 and C34.",
  "C72", "Renaming a symbol changes exactly its references",
  "Renaming a symbol changes exactly the occurrences that refer to it, in all files, and the program means the same afterwards.",
  ["inputs"], "every program and symbol", "Tests rename a few symbols.", TC, [("references and rename", "crates/zuban_python/src")])
na(NOBUILD + "the schedules are those of threads of crossbeam and rayon, which the engine (sequential bitcode interpreter) does not model.",
  "C73", "Checking files in parallel gives the same result as one after another",
  "For every schedule of the worker threads, the diagnostics of a project are the same and there is no deadlock.",
  ["schedules"], "every interleaving of worker threads", "A test samples one schedule per run.", TC, [("parallel checking", "crates/zuban_python/src/lib.rs"), ("InferenceState / locks", "crates/utils/src/lib.rs")])
na("zubanls cannot be built here (it depends on zuban_python and on lsp-server crates that are not on this machine).",
  "C74", "Every request gets exactly one response, in the state the client has sent",
  "For every sequence of requests, notifications and cancellations, the language server answers each request once, on the texts that were sent before it, and survives panics of single requests.",
  ["histories", "schedules"], "every sequence of messages", "Tests send a few dozens of sequences.", ["crates/zubanls/src"], [("GlobalState / dispatch", "crates/zubanls/src")])
na("config cannot be built here (its parser dependencies are not on this machine).",
  "C75", "Configuration files mean what mypy's documentation says",
  "For every mypy.ini, setup.cfg and pyproject.toml, options, per-module sections and overrides have the documented effect, and unknown ones are reported.",
  ["inputs"], "every configuration file", "Tests parse a few configurations.", ["crates/config/src"], [("ProjectOptions", "crates/config/src/lib.rs")])
