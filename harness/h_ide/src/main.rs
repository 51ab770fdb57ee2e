//! Cursor and editor queries on arbitrary (also broken) source text.
use parsa_python::{PyNodeType, TerminalType};
use parsa_python_cst::{CompletionNode, GotoNode, PotentialInlayHint, Tree, TypeIgnoreComment};
mod ctx;
use ctx::h_ctx;

zsym::entries!(h_ctx, h_goto, h_names, h_sel, h_compl, h_sig, h_ignore, h_comment, h_ign2, h_op);

fn warm() {
    std::hint::black_box(Tree::parse("x = f'{a:1}' 'a' b'' 1\n".into()));
    zsym::begin();
}

fn input() -> (String, Tree) {
    let s = inputs::text();
    let t = Tree::parse(s.clone().into_boxed_str());
    (s, t)
}

fn positions(code: &str) -> Vec<u32> {
    (0..=code.len()).filter(|&p| code.is_char_boundary(p)).map(|p| p as u32).collect()
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_goto() {
    warm();
    let (_, t) = input();
    for pos in positions(t.code()) {
        let (scope, g) = t.goto_node(pos);
        std::hint::black_box(&scope);
        let name = t.filter_all_names(None).find(|n| n.start() <= pos && pos <= n.end());
        if let Some(n) = name {
            zsym::check(!matches!(g, GotoNode::None), "no target for a cursor on a name");
            match g {
                GotoNode::Name(x) => zsym::check(x.start() == n.start(), "the target is another name than the one at the cursor"),
                GotoNode::GlobalName(x) | GotoNode::NonlocalName(x) => zsym::check(x.start() == n.start(), "the target is another name than the one at the cursor"),
                GotoNode::Primary(p) => zsym::check(p.start() <= n.start() && n.end() == p.end(), "the target is not the attribute access at the cursor"),
                GotoNode::PrimaryTarget(p) => zsym::check(p.start() <= n.start() && n.end() == p.end(), "the target is not the attribute access at the cursor"),
                GotoNode::ImportFromAsName { import_as_name, on_name } => zsym::check(
                    on_name.start() == n.start() && import_as_name.start() <= n.start() && n.end() <= import_as_name.end(),
                    "the target is not the import at the cursor",
                ),
                GotoNode::Operator { .. } | GotoNode::AugAssignOperator { .. } | GotoNode::Atom(_) => zsym::check(false, "a name next to the cursor is not preferred"),
                _ => (),
            }
        }
        zsym::out(match g {
            GotoNode::None => 0,
            GotoNode::Name(_) => 1,
            _ => 2,
        });
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_names() {
    warm();
    let (s, t) = input();
    let raw = parsa_python::parse(s.into_boxed_str());
    let want: Vec<(u32, u32)> = raw.nodes().filter(|n| n.is_type(PyNodeType::Terminal(TerminalType::Name))).map(|n| (n.start(), n.end())).collect();
    let all: Vec<_> = t.filter_all_names(None).collect();
    zsym::check(all.len() == want.len() && all.iter().zip(&want).all(|(a, b)| (a.start(), a.end()) == *b), "the names are not exactly the name tokens");
    for pos in positions(t.code()) {
        let got: Vec<u32> = t.filter_all_names(Some(pos)).map(|n| n.start()).collect();
        let k = got.len();
        zsym::check(k <= want.len() && got.iter().zip(&want[want.len() - k..]).all(|(a, b)| *a == b.0), "names from a position on are not the last names");
        let need = want.iter().filter(|n| n.1 >= pos).count();
        zsym::check(k >= need, "a name at or behind the position is missing");
        let most = want.iter().filter(|n| n.1 >= pos).count() + 1;
        zsym::check(k <= most, "names before the position are included");
    }
    for n in &all {
        zsym::check(n.is_reference() == n.name_def().is_none(), "a name is neither or both of definition and reference");
        std::hint::black_box(n.parent());
        std::hint::black_box(n.simple_parent());
        std::hint::black_box(n.expect_type());
        std::hint::black_box(n.parent_scope());
        std::hint::black_box(n.is_part_of_primary_ancestors());
        std::hint::black_box(n.maybe_atom_of_primary());
        std::hint::black_box(n.maybe_left_of_primary());
        std::hint::black_box(n.maybe_assignment_definition_name());
        std::hint::black_box(n.maybe_annotated());
        std::hint::black_box(n.is_name_of_func());
        std::hint::black_box(n.clean_docstring());
        if let Some(d) = n.name_def() {
            zsym::check(d.start() == n.start() && d.end() == n.end() && d.name().start() == n.start() && n.name_def_index() == d.index(), "definition and name disagree");
            std::hint::black_box(d.expect_defining_stmt());
            std::hint::black_box(d.expect_type());
            std::hint::black_box(d.maybe_import());
            std::hint::black_box(d.parent());
            let (a, b) = d.definition_range();
            zsym::check(a <= n.start() && n.end() <= b, "the definition does not contain its name");
            std::hint::black_box(d.name_can_be_overwritten());
            std::hint::black_box(d.maybe_param_annotation());
            std::hint::black_box(d.maybe_parent_function_of_param());
        }
        zsym::out(n.is_reference() as u64);
    }
    zsym::out(1);
}

fn is_string(n: parsa_python::PyNode) -> bool {
    if n.is_leaf() { n.is_type(PyNodeType::Terminal(TerminalType::String)) } else { n.iter_children().all(is_string) }
}

fn nested(n: parsa_python::PyNode, t: parsa_python::NonterminalType) -> Vec<parsa_python::PyNode> {
    if n.is_leaf() {
        return vec![];
    }
    n.iter_children().flat_map(|c| if c.is_type(PyNodeType::Nonterminal(t)) { vec![c] } else { nested(c, t) }).collect()
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_sel() {
    warm();
    let (src, t) = input();
    let code = t.code();
    let len = code.len() as u32;
    let ok = |a: u32, b: u32| a <= b && b <= len && code.is_char_boundary(a as usize) && code.is_char_boundary(b as usize);
    let raw = parsa_python::parse(src.into_boxed_str());
    let line_start = |p: u32| code[..p as usize].rfind('\n').map_or(0, |i| i as u32 + 1);
    for pos in positions(code) {
        let mut last: Option<(u32, u32)> = None;
        let ranges: Vec<_> = t.selection_ranges(pos).map(|r| (r.start, r.end)).collect();
        for &r in &ranges {
            zsym::check(ok(r.0, r.1), "a selection range is not a range of the text");
            zsym::check(r.0 <= pos && pos <= r.1, "a selection range does not contain the cursor");
            if let Some(l) = last {
                zsym::check(r.0 <= l.0 && l.1 <= r.1, "a selection range does not contain the one before");
                zsym::check(r != l, "a selection range is repeated");
            }
            last = Some(r);
            zsym::check(
                raw.nodes().any(|n| n.end() == r.1 && (n.start() == r.0 || r.0 <= n.start() && line_start(n.start()) == r.0)),
                "a selection range is not a construct of the text, from its start or from the start of its line on",
            );
        }
        zsym::check(last == Some((0, len)), "the widest selection range is not the whole file");
        // every construct around the token at the cursor is offered
        let leaf = raw.leaf_by_position(pos);
        let is_keyword = matches!(leaf.type_(), PyNodeType::Keyword | PyNodeType::ErrorKeyword);
        if leaf.start() <= pos && pos < leaf.end() && !is_keyword && !leaf.as_code().ends_with('\n') {
            if matches!(leaf.type_(), PyNodeType::Terminal(TerminalType::Name | TerminalType::Number | TerminalType::String | TerminalType::Bytes)) {
                zsym::check(ranges[0] == (leaf.start(), leaf.end()), "the narrowest selection is not the token at the cursor");
            }
            let mut node = leaf.parent();
            while let Some(n) = node {
                use parsa_python::NonterminalType::*;
                if !matches!(n.type_(), PyNodeType::Nonterminal(kwargs | block | simple_stmts)) {
                    zsym::check(
                        ranges.iter().any(|r| r.1 == n.end() && r.0 <= n.start() && !code[r.0 as usize..n.start() as usize].contains('\n')),
                        "a construct around the cursor is not offered as a selection",
                    );
                }
                node = n.parent();
            }
        }
        // a cursor directly behind a name or literal, in front of something else, selects it
        if leaf.start() == pos
            && (leaf.type_() == PyNodeType::Keyword || leaf.as_code() == "\n")
            && let Some(p) = leaf.previous_leaf()
            && p.end() == pos
            && matches!(p.type_(), PyNodeType::Terminal(TerminalType::Name | TerminalType::Number | TerminalType::String | TerminalType::Bytes))
        {
            #[cfg(feature = "show")]
            if ranges[0] != (p.start(), p.end()) {
                eprintln!("{code:?} at {pos} {ranges:?}");
            }
            zsym::check(ranges[0] == (p.start(), p.end()), "the narrowest selection is not the token that the cursor is behind");
        }
        zsym::out(ranges.len() as u64);
    }
    for (a, b) in t.folding_blocks() {
        zsym::check(ok(a, b), "a folding range is not a range of the text");
        zsym::out(a as u64);
    }
    let i = t.initial_imports_end_code_index();
    zsym::check(ok(i, i), "the end of the imports is not a position in the text");
    {
        // imports and a docstring in front of it, something else behind it
        use parsa_python::NonterminalType::*;
        let mut before = 0;
        let mut first = true;
        let mut behind = raw.root_node().iter_children().skip_while(|n| {
            let parts: Vec<_> = nested(*n, simple_stmt);
            let imports = n.is_type(PyNodeType::Nonterminal(stmt))
                && n.nth_child(0).is_type(PyNodeType::Nonterminal(simple_stmts))
                && parts.iter().all(|p| first && is_string(*p) || matches!(p.nth_child(0).type_(), PyNodeType::Nonterminal(import_from | import_name)));
            first = false;
            if imports {
                before = n.end();
            }
            imports
        });
        let behind = behind.next();
        // (an f-string might be taken for a docstring)
        let unclear = raw.root_node().iter_children().next().is_some_and(|s| raw.nodes().any(|n| n.start() < s.end() && n.is_type(PyNodeType::Terminal(TerminalType::FStringStart))));
        #[cfg(feature = "show")]
        eprintln!("{code:?} {i} {:?} before {before}", behind.map(|n| n.start()));
        if unclear {
        } else if let Some(n) = behind {
            zsym::check(before <= i && i <= n.start(), "new imports would not go behind the first imports and in front of the first other statement");
            zsym::check(before > 0 || !code[i as usize..n.start() as usize].contains('#'), "new imports would go in front of the comment at the start of the file");
        } else {
            zsym::check(i == len, "new imports would not go behind the imports of a file with nothing else");
        }
    }
    // every function and assignment that starts in the range has inlay hints, none behind it
    use parsa_python::NonterminalType::{assignment, function_def};
    let all: Vec<u32> = raw.nodes().filter(|n| matches!(n.type_(), PyNodeType::Nonterminal(assignment | function_def))).map(|n| n.start()).collect();
    for pos in positions(code) {
        for (a, b) in [(pos, len), (0, pos)] {
            let got: Vec<u32> = t
                .potential_inlay_hints(a, b)
                .map(|h| match h {
                    PotentialInlayHint::FunctionDef(f) => f.start(),
                    PotentialInlayHint::Assignment(x) => x.start(),
                })
                .collect();
            zsym::check(all.iter().all(|p| *p < a || *p > b || got.contains(p)), "no inlay hint for a function or assignment in the range");
            zsym::check(got.iter().all(|p| *p <= b && all.contains(p)), "an inlay hint behind the range");
            zsym::out(got.len() as u64);
        }
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_compl() {
    warm();
    let (_, t) = input();
    let code = t.code();
    for pos in positions(code) {
        let (scope, node, rest) = t.completion_node(pos);
        std::hint::black_box(scope);
        let r = rest.as_code();
        zsym::check(code[..pos as usize].ends_with(r), "the text to complete does not end at the cursor");
        zsym::check(rest.start() <= pos, "the text to complete starts behind the cursor");
        std::hint::black_box(rest.is_string());
        match node {
            CompletionNode::InsideComment { comment, comment_start } => {
                let c = comment_start as usize;
                zsym::check(c < pos as usize && code.as_bytes()[c] == b'#' && code[c + 1..].starts_with(comment), "not a comment around the cursor");
            }
            CompletionNode::ImportName { path: Some((a, b)) } => {
                zsym::check(a.end() < pos && b.is_none_or(|b| b.end() < pos), "the imported path is not before the cursor");
            }
            CompletionNode::Attribute { base } => zsym::check(code[..pos as usize].contains(base.as_code()), "the base is not before the cursor"),
            CompletionNode::Global { context: Some(c) } => {
                let args = match c {
                    parsa_python_cst::CompletionContext::PrimaryCall { args, .. } => args,
                    parsa_python_cst::CompletionContext::PrimaryTargetCall { args, .. } => args,
                };
                if let Some(a) = args {
                    zsym::out(a.used_args_until(&rest).positional_args as u64);
                }
            }
            _ => (),
        }
        zsym::out(r.len() as u64);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_sig() {
    warm();
    let (_, t) = input();
    let code = t.code();
    let tree = parsa_python::parse(code.into());
    let valid = !tree.nodes().any(|n| n.is_error_recovery_node());
    for pos in positions(code) {
        let found = t.signature_node(pos).map(|(scope, base, args)| {
            std::hint::black_box(scope);
            (base.start(), base.end(), args.count() as u64)
        });
        if let Some((_, end, args)) = found {
            zsym::check(code[end as usize..pos as usize].contains('('), "there is no call between the called expression and the cursor");
            zsym::out(args);
        }
        if valid {
            zsym::cover(0);
            let want = innermost_call(&tree, pos);
            // (a call whose base is itself an assignment target, as in `a.b(c).d = 1`, may be left out)
            let may_be_none = want.is_some_and(|w| w.2);
            zsym::check(found.map(|f| (f.0, f.1)) == want.map(|w| (w.0, w.1)) || may_be_none && found.is_none(), "the reported call is not the innermost call that is open at the cursor");
        }
    }
    zsym::check(true, "");
}

/// the called expression of the innermost call whose parentheses are around the position
fn innermost_call(t: &parsa_python::PyTree, pos: u32) -> Option<(u32, u32, bool)> {
    let mut result = None;
    for n in t.nodes().filter(|n| !n.is_leaf()) {
        let is = |t| n.is_type(parsa_python::PyNodeType::Nonterminal(t));
        if !is(parsa_python::NonterminalType::primary) && !is(parsa_python::NonterminalType::t_primary) {
            continue;
        }
        let (first, second) = (n.nth_child(0), n.nth_child(1));
        if second.as_code() == "(" && second.end() <= pos && n.last_leaf_in_subtree().start() >= pos {
            // (nodes come in pre-order: an inner call is behind the ones around it)
            result = Some((first.start(), first.end(), first.is_type(parsa_python::PyNodeType::Nonterminal(parsa_python::NonterminalType::t_primary))));
        }
    }
    result
}

/// `type: ignore` comments and the place where a new one goes
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ignore() {
    warm();
    let (_, t) = input();
    let code = t.code();
    for pos in positions(code) {
        let c = t.type_ignore_comment_for(pos, pos);
        if let Some(i) = t.insertion_point_for_type_ignore(pos) {
            let at = i.insertion_index as usize;
            zsym::check(at <= code.len() && code.is_char_boundary(at), "the insertion point is not a position in the text");
            zsym::check(at >= pos as usize || code[at..pos as usize].bytes().all(|b| b != b'\n'), "the insertion point is on another line");
        }
        zsym::out(match c {
            None => 0,
            Some(TypeIgnoreComment::WithoutCode) => 1,
            Some(TypeIgnoreComment::WithCodes { .. }) => 2,
        });
    }
    std::hint::black_box(t.has_type_ignore_at_start());
    directives(&t);
    for (i, d) in t.mypy_inline_config_directives() {
        zsym::check(code[i as usize..].starts_with(d), "the directive is not at its position");
    }
}

/// completion knows exactly when the cursor is in a comment
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_comment() {
    warm();
    let (s, t) = input();
    let code = t.code();
    let raw = parsa_python::parse(s.into_boxed_str());
    // comments: "#" outside of leaves up to the end of the line
    let mut comments = vec![];
    let mut pos = 0usize;
    let mut gap = |from: usize, to: usize| {
        let mut i = from;
        while i < to {
            if code.as_bytes()[i] == b'#' {
                let a = i;
                while i < to && !matches!(code.as_bytes()[i], b'\n' | b'\r') {
                    i += 1;
                }
                comments.push((a, i));
            } else {
                i += 1;
            }
        }
    };
    for l in raw.nodes().filter(|n| n.is_leaf()) {
        gap(pos, l.start() as usize);
        pos = l.end() as usize;
    }
    gap(pos, code.len());
    for p in positions(code) {
        let p_ = p as usize;
        let want = comments.iter().find(|c| c.0 < p_ && p_ <= c.1);
        let got = match t.completion_node(p).1 {
            CompletionNode::InsideComment { comment, comment_start } => Some((comment_start as usize, comment)),
            _ => None,
        };
        zsym::check(got.is_some() == want.is_some(), "the cursor is in a comment, but this is not known (or the reverse)");
        if let (Some(g), Some(w)) = (got, want) {
            zsym::check(g.0 == w.0, "the comment starts elsewhere");
            zsym::check(g.1 == &code[w.0 + 1..w.1], "the text of the comment is another one");
            zsym::cover(0);
        }
    }
}

/// what the ignore comments on the lines of a region say: None, Some([]) (everything) or the codes
fn ignored(code: &str, start: usize, end: usize) -> Option<Vec<String>> {
    let mut stop = end;
    while stop < code.len() && !matches!(code.as_bytes()[stop], b'\n' | b'\r') {
        stop += 1;
    }
    let mut all: Option<Vec<String>> = None;
    for line in code[start..stop].split(['\n', '\r']) {
        for comment in line.split('#').skip(1) {
            let c = comment.trim_start_matches(' ');
            let Some(c) = c.strip_prefix("type:").or_else(|| c.strip_prefix("zuban:")) else { continue };
            let Some(c) = c.trim_start_matches(' ').strip_prefix("ignore") else { continue };
            let trimmed = c.trim_start_matches([' ', '\t']).trim_end_matches([' ', '\t', '\x0c']);
            if trimmed.len() > 2 && trimmed.starts_with('[') && trimmed.ends_with(']') {
                let codes = trimmed[1..trimmed.len() - 1].to_string();
                match &mut all {
                    None => all = Some(vec![codes]),
                    Some(v) if v.is_empty() => (),
                    Some(v) => v.push(codes),
                }
            } else if c.is_empty() || c.starts_with([' ', '\t']) {
                all = Some(vec![]);
            }
        }
    }
    all
}

/// ignore comments suppress exactly what they say, and a comment that is added suppresses the code
/// exactly the lines that start with `# mypy: ` are directives
fn directives(t: &Tree) {
    let code = t.code();
    let mut want = vec![];
    let mut start = 0;
    for line in code.split('\n') {
        if let Some(rest) = line.strip_prefix("# mypy: ") {
            want.push((start + 8, rest.trim_end_matches('\r')));
        }
        start += line.len() as u32 + 1;
    }
    let got: Vec<(u32, &str)> = t.mypy_inline_config_directives().map(|(i, d)| (i, d.trim_end_matches('\r'))).collect();
    zsym::check(got == want, "the inline directives are not the lines with them");
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ign2() {
    const HEADS: &[&str] = &[
        "x = 1",
        "x = 1 # type: ignore",
        "f(a,\n  b) # zuban: ignore[q]",
        "if x: # type: ignore[a]\n    y",
        "f(\n a, # type: ignore[b] # c\n b)",
        "x\\\n",
        "y = '''a\nb''' #",
        "\n# type: ignore[a]\nx",
        "x = 'é' # type:ignore",
        "# mypy: a\r\n # mypy: b\n#mypy: c\nx",
        "f( # type: ignore[a]\n b,",
    ];
    const PIECES: &[&str] = &[" ", "#", "type:", "ignore", "[a]", "[", "]", "zuban:", "\n", "c", "\t", ",", "\r\n", "é", "\\\n", ";", "# type: ignore", "# type: ignore[b, c]", "\n# mypy: ", "d)"];
    warm();
    let mut s = HEADS[zsym::split(zsym::range(0, HEADS.len() as u8 - 1) as u64) as usize].to_string();
    for _ in 0..zsym::param(0) {
        s.push_str(PIECES[zsym::split(zsym::range(0, PIECES.len() as u8 - 1) as u64) as usize]);
    }
    if zsym::param(1) > 0 {
        s.push_str("\nz = 2\n");
    }
    let t = Tree::parse(s.clone().into_boxed_str());
    let raw = parsa_python::parse(s.into_boxed_str());
    let code = t.code();
    directives(&t);
    let at_start = t.has_type_ignore_at_start();
    let first = raw.nodes().find(|n| n.is_leaf()).unwrap().start() as usize;
    let want = ignored(&code[..first], 0, first);
    zsym::check(
        match (&at_start, &want) {
            (Ok(false), None) => true,
            (Ok(true), Some(w)) => w.is_empty(),
            (Err(c), Some(w)) => w.first().is_some_and(|x| x == c),
            _ => false,
        },
        "the ignore comment for the whole file is not the one in front of the first statement",
    );
    for n in raw.nodes() {
        if n.start() == n.end() || n.is_leaf() && n.as_code().contains(['\n', '\r']) {
            continue;
        }
        for end in [n.start(), n.end()] {
            let want = ignored(code, n.start() as usize, end as usize);
            let got = t.type_ignore_comment_for(n.start(), end);
            let same = match (&want, &got) {
                (None, None) => true,
                (Some(w), Some(TypeIgnoreComment::WithoutCode)) => w.is_empty(),
                (Some(w), Some(TypeIgnoreComment::WithCodes { codes, codes_start_at_index, codes_of_later_type_ignores, .. })) => {
                    let i = *codes_start_at_index as usize;
                    zsym::check(code[i..].starts_with(codes) && code[..i].ends_with('['), "the codes of an ignore comment are at another place");
                    !w.is_empty() && w[0] == **codes && w[1..].iter().eq(codes_of_later_type_ignores.iter())
                }
                _ => false,
            };
            zsym::check(same, "an ignore comment is not recognised or one is seen where there is none");
        }
        if !n.is_leaf() {
            continue;
        }
        let before = ignored(code, n.start() as usize, n.start() as usize);
        let Some(ins) = t.insertion_point_for_type_ignore(n.start()) else {
            continue;
        };
        zsym::check(before.as_ref().is_none_or(|w| !w.is_empty()), "an ignore comment is added although everything is ignored");
        for kind in ["type", "zuban"] {
            let Some(add) = ins.format_for_kind(kind, "new") else { continue };
            let i = ins.insertion_index as usize;
            let new = format!("{}{}{}", &code[..i], add, &code[i..]);
            let t2 = Tree::parse(new.clone().into_boxed_str());
            let after = ignored(&new, n.start() as usize, n.start() as usize);
            zsym::check(t2.type_ignore_comment_for(n.start(), n.start()).is_some(), "the added comment does not ignore the issue");
            zsym::check(
                after.is_some_and(|w| w.iter().any(|c| c.split(',').any(|c| c.trim() == "new"))),
                "the added comment does not contain the code of the issue",
            );
            let toks = |t: &parsa_python::PyTree| t.nodes().filter(|n| n.is_leaf()).map(|n| (n.type_(), n.as_code().to_string())).collect::<Vec<_>>();
            zsym::check(toks(&parsa_python::parse(new.into_boxed_str())) == toks(&raw), "adding an ignore comment changes the program");
            zsym::cover(0);
        }
    }
    zsym::out(code.len() as u64);
}

/// a cursor on an operator leads to its operands and its special method
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_op() {
    const BIN: &[(&str, &str)] = &[
        ("==", "eq"), ("!=", "ne"), ("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"), ("|", "or"), ("&", "and"), ("^", "xor"), ("+", "add"), ("-", "sub"),
        ("*", "mul"), ("/", "truediv"), ("//", "floordiv"), ("%", "mod"), (">>", "rshift"), ("<<", "lshift"), ("**", "pow"), ("@", "matmul"),
    ];
    const UN: &[(&str, &str)] = &[("+", "pos"), ("-", "neg"), ("~", "invert")];
    const OPERANDS: &[&str] = &["a", "f(b)", "x.y", "1", "(c)", "[d]"];
    warm();
    let pick = |n: usize| zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize;
    let kind = pick(3);
    let (a, b) = (OPERANDS[pick(OPERANDS.len())], OPERANDS[pick(OPERANDS.len())]);
    let space = [" ", ""][pick(2)];
    let (text, op, first) = match kind {
        0 => {
            let op = BIN[pick(BIN.len())];
            (format!("{a}{space}{}{space}{b}\n", op.0), op, 0)
        }
        1 => {
            let op = UN[pick(UN.len())];
            (format!("{}{space}{a}\n", op.0), op, op.0.len() + space.len())
        }
        _ => {
            let op = BIN[6 + pick(BIN.len() - 6)];
            let a = if pick(2) == 0 { "a" } else { "x.y" };
            (format!("{a}{space}{}={space}{b}\n", op.0), op, 0)
        }
    };
    let at = if kind == 1 { 0 } else { text.find(op.0).unwrap() };
    let len = op.0.len() + (kind == 2) as usize;
    let t = Tree::parse(text.clone().into_boxed_str());
    for pos in at..=at + len {
        // (tokens next to the cursor may be preferred)
        let touches = |i: usize| text.as_bytes().get(i).is_some_and(|c| !c.is_ascii_whitespace());
        if pos == at && at > 0 && touches(pos - 1) || pos == at + len && touches(pos) {
            continue;
        }
        match (t.goto_node(pos as u32).1, kind) {
            (GotoNode::Operator { first: f, magic_method, operator }, 0 | 1) => {
                zsym::check(operator.as_code() == op.0, "the target is another operator");
                zsym::check(magic_method == format!("__{}__", op.1), "the target is another special method");
                let want = if kind == 0 { text[..at].trim_end() } else { a };
                zsym::check(f.start() as usize == first && f.as_code() == want, "the target is another operand");
            }
            (GotoNode::AugAssignOperator { inplace_magic_method, normal_magic_method, operator, .. }, 2) => {
                zsym::check(operator.as_code() == &text[at..at + len], "the target is another operator");
                zsym::check(inplace_magic_method == format!("__i{}__", op.1) && normal_magic_method == format!("__{}__", op.1), "the target is another special method");
            }
            _ => zsym::check(false, "a cursor on an operator has no target"),
        }
        zsym::out(pos as u64);
    }
    zsym::cover(kind as u32);
}
