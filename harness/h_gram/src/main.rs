//! What is valid Python, and how expressions, blocks and f-strings nest.
use parsa_python::{NonterminalType, PyNode, PyNodeType, PyTree, TerminalType};
mod slots {
    include!(concat!(env!("OUT_DIR"), "/slots.rs"));
    pub static WANT: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/want.bin"));
    pub static WANT2: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/want2.bin"));
}
mod expr;
mod fstr;
mod indent;
mod peg;
mod tmpl;
mod tok;
zsym::entries!(h_phrase, h_phrase_known, h_formfeed, h_gram, h_gram_star, h_expr, h_indent, h_fstr, h_tok, h_recover, all, all_expr, all_indent, all_fstr, all_tok, all_recover);

fn warm() -> peg::Peg {
    std::hint::black_box(parsa_python::parse("x = f'{a:1}' 'a' b'' 1\n".into()));
    peg::Peg::new(include_str!("python.gram"))
}

fn is_valid(t: &PyTree) -> bool {
    !t.nodes().any(|n| {
        n.is_error_recovery_node()
            || n.is_type(PyNodeType::Nonterminal(NonterminalType::broken_scope))
            || n.is_type(PyNodeType::Terminal(TerminalType::ErrorToken))
            || n.is_type(PyNodeType::Terminal(TerminalType::ErrorDedent))
    })
}

fn reference(g: &peg::Peg, toks: &Option<Vec<&'static str>>) -> bool {
    toks.as_ref().is_some_and(|t| {
        let t: Vec<peg::Tok> = t.iter().map(|s| g.tok(s)).collect();
        g.accepts(&t)
    })
}

fn pick<T: Copy>(l: &[T], n: usize) -> T {
    l[zsym::split(zsym::range(0, n.min(l.len()) as u8 - 1) as u64) as usize]
}

/// valid Python and nothing else parses without errors
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_gram() {
    gram(false);
}

/// ... also with a starred subject or pattern (known finding)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_gram_star() {
    gram(true);
}

fn gram(star: bool) {
    warm();
    zsym::begin();
    let t = zsym::split(zsym::range(0, slots::SLOTS.len() as u8 - 1) as u64) as usize;
    let (text, at1, at2) = slots::SLOTS[t];
    let mut text = text.as_bytes().to_vec();
    let mut fill = |at: usize, n: usize| {
        // (an empty token at the start of a line would be an indentation)
        let first = if text[..at].iter().rev().find(|c| **c != b' ').is_none_or(|c| *c == b'\n') { 1 } else { 0 };
        let i = zsym::range(first, n as u8 - 1);
        for k in 0..6 {
            text[at + k] = slots::PAD[k][i as usize];
        }
        i
    };
    let i = fill(at1, tmpl::ALPHA.len());
    let j = fill(at2, (zsym::param(0) as usize).min(tmpl::ALPHA.len()));
    let text = unsafe { String::from_utf8_unchecked(text) };
    zsym::assume(star == (text.contains("match *") || text.contains("case *")));
    let got = is_valid(&parsa_python::parse(text.into_boxed_str()));
    let n = tmpl::ALPHA.len();
    let row = &slots::WANT[(t * n + zsym::split(i as u64) as usize) * n..][..n];
    let want = row[j as usize] != 0;
    if got {
        zsym::cover(0);
        if star {
            zsym::check(want, "`match *a:` or `case *a:` without a comma is not reported as a syntax error");
        } else {
            zsym::check(want, "a syntax error is not reported");
        }
    } else {
        zsym::cover(1);
        zsym::check(!want, "valid Python is reported to have a syntax error");
    }
    zsym::out(got as u64);
}

/// expressions, targets, patterns and the like of every kind in every place
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_phrase() {
    phrase(false);
}

/// ... those that are known to be accepted wrongly
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_phrase_known() {
    phrase(true);
}

fn phrase(is_known: bool) {
    warm();
    zsym::begin();
    let t = zsym::split(zsym::range(0, slots::PLACES.len() as u8 - 1) as u64) as usize;
    let (text, at1, at2) = slots::PLACES[t];
    let mut text = text.as_bytes().to_vec();
    let n = tmpl::PHRASES.len();
    let mut fill = |at: usize, n: usize| {
        let i = zsym::range(0, n as u8 - 1);
        for k in 0..slots::WIDTH {
            text[at + k] = slots::PHRASE[k][i as usize];
        }
        zsym::split(i as u64) as usize
    };
    let i = fill(at1, n);
    let j = fill(at2, (zsym::param(0) as usize).min(n));
    let text = unsafe { String::from_utf8_unchecked(text) };
    // (see h_gram_star)
    zsym::assume(!(text.contains("match *") || text.contains("case *")));
    let place = tmpl::PLACES[t];
    let known = if tmpl::PHRASES[i] == "* a" && (place.starts_with("( ? ) = ") || place.contains("case ( ? )")) {
        "`(*a)` is accepted as a target or pattern"
    } else if tmpl::PHRASES[i] == "a" && place.contains("case { ? :") {
        "a name is accepted as a key of a mapping pattern"
    } else {
        ""
    };
    zsym::assume(is_known != known.is_empty());
    let got = is_valid(&parsa_python::parse(text.into_boxed_str()));
    let want = slots::WANT2[(t * n + i) * n + j] != 0;
    if got {
        zsym::cover(0);
        zsym::check(want, if is_known { known } else { "a syntax error is not reported" });
    } else {
        zsym::cover(1);
        zsym::check(!want, "valid Python is reported to have a syntax error");
    }
    zsym::out(got as u64);
}

fn expr_case(ops: &[&'static str], unary: &[&'static str]) -> (String, Option<String>) {
    const NAMES: &[&str] = &["a", "b", "c", "d", "e"];
    let mut words: Vec<&'static str> = vec![];
    for i in 0..=ops.len() {
        if i > 0 {
            words.extend(ops[i - 1].split(' '));
        }
        if let Some(u) = unary.get(i) {
            words.extend(u.split(' ').filter(|s| !s.is_empty()));
        }
        words.push(NAMES[i]);
    }
    // (a closing bracket and a call without arguments have no operand behind them)
    for k in (0..words.len() - 1).rev() {
        if matches!(words[k], ")" | "]") {
            words.remove(k + 1);
        }
    }
    let mut r = expr::R { t: &words, i: 0 };
    let want = r.expression();
    let done = r.i == words.len();
    (words.join(" "), want.filter(|_| done))
}

fn expr_check(text: String, want: Option<String>) -> (bool, bool) {
    let t = parsa_python::parse(format!("x = {text}\n").into_boxed_str());
    let got = is_valid(&t);
    let Some(want) = want else { return (!got, true) };
    if !got {
        return (false, true);
    }
    let assign = t.root_node().search(&[PyNodeType::Nonterminal(NonterminalType::assignment)], true).next();
    let Some(assign) = assign else { return (true, false) };
    let rhs: PyNode = assign.iter_children().last().unwrap();
    let mut s = String::new();
    expr::canon(rhs, &mut s);
    (true, s == want)
}

/// operators nest as the precedence table says
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_expr() {
    warm();
    zsym::begin();
    let (ops, unaries, nops) = (zsym::param(0) as usize, zsym::param(1) as usize, zsym::param(2) as usize);
    let mut o = vec![];
    let mut u = vec![];
    for i in 0..=ops {
        if i > 0 {
            o.push(pick(expr::BINARY, nops));
        }
        if unaries > 0 {
            u.push(pick(expr::UNARY, unaries));
        }
    }
    let (text, want) = expr_case(&o, &u);
    zsym::cover(want.is_some() as u32);
    let v = want.is_some();
    let (validity, structure) = expr_check(text, want);
    zsym::check(validity, if v { "a valid expression is reported to have a syntax error" } else { "a syntax error in an expression is not reported" });
    zsym::check(structure, "an expression does not nest as the operator precedences say");
    zsym::out(v as u64);
}

fn indent_check(g: &peg::Peg, text: String, toks: Option<Vec<&'static str>>, at: &[(usize, usize)]) -> (bool, bool, bool) {
    let want = reference(g, &toks);
    let t = parsa_python::parse(text.into_boxed_str());
    let got = is_valid(&t);
    let mut depth_ok = true;
    if want && got {
        for &(pos, depth) in at {
            let mut n = t.leaf_by_position(pos as u32);
            while n.length() == 0 && n.start() as usize == pos {
                let Some(x) = n.next_leaf() else { break };
                n = x;
            }
            depth_ok &= n.start() as usize == pos;
            let mut k = 0;
            let mut p = n.parent();
            while let Some(x) = p {
                if x.is_type(PyNodeType::Nonterminal(NonterminalType::block)) && x.iter_children().any(|c| c.is_type(PyNodeType::Terminal(TerminalType::Indent))) {
                    k += 1;
                }
                p = x.parent();
            }
            depth_ok &= k == depth;
        }
    }
    (want, got, depth_ok)
}

/// blocks are what the indentation says
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_indent() {
    let g = warm();
    zsym::begin();
    let (n, kinds, widths) = (zsym::param(0) as usize, zsym::param(1) as usize, zsym::param(2) as usize);
    let unit = pick(&[" ", "\t"], zsym::param(3) as usize);
    let nl = pick(&["\n", "\r\n", "\r"], zsym::param(4) as usize);
    let mut lines = vec![];
    for _ in 0..n {
        let k = pick(indent::KINDS, kinds);
        lines.push((pick(&[0usize, 1, 2, 3], widths), k));
    }
    let (text, toks, at) = indent::build(&lines, unit, nl);
    let (want, got, depth_ok) = indent_check(&g, text, toks, &at);
    if want {
        zsym::cover(0);
        zsym::check(got, "a well indented text is reported to have a syntax error");
        zsym::check(depth_ok, "a line is not in the block that its indentation says");
    } else {
        zsym::cover(1);
        zsym::check(!got, "a wrong indentation is not reported");
    }
    zsym::out(got as u64);
}

/// a form feed at the start of a line does not count for its indentation
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_formfeed() {
    let g = warm();
    zsym::begin();
    let n = zsym::param(0) as usize;
    let mut lines = vec![];
    for _ in 0..n {
        let k = pick(&indent::KINDS[..2], 2);
        lines.push((pick(&[0usize, 1, 2], 3), k));
    }
    let (text, toks, _) = indent::build(&lines, " ", "\n");
    let at = pick(&[0, 1, 2], n);
    let mut with = String::new();
    for (i, l) in text.split_inclusive('\n').enumerate() {
        if i == at {
            with.push('\x0c');
        }
        with.push_str(l);
    }
    let want = reference(&g, &toks);
    let got = is_valid(&parsa_python::parse(with.into_boxed_str()));
    zsym::check(got == want, "a form feed at the start of a line is taken for indentation");
    zsym::out(got as u64);
}

fn tok_check(text: &str) -> (bool, &'static str) {
    const HEAD: &str = "x=";
    let expected = match tok::lex(text.as_bytes()) {
        tok::Lexed::Unclear => return (true, ""),
        tok::Lexed::Error => None,
        tok::Lexed::Tokens(t) => Some(t),
    };
    // (an operator could merge with the = in front of it)
    let head = if text.starts_with('=') { "x= " } else { HEAD };
    let t = parsa_python::parse(format!("{head}{text}\n").into_boxed_str());
    let Some(expected) = expected else {
        return (!is_valid(&t), "a lexical error is not reported");
    };
    let mut leaf = t.leaf_by_position(0);
    for _ in 0..2 {
        leaf = leaf.next_leaf().unwrap();
    }
    for (s, e, kind) in expected {
        if leaf.start() as usize != s + head.len() || leaf.end() as usize != e + head.len() {
            return (false, "a token does not have the extent that the lexical rules say");
        }
        let terminal = match leaf.type_() {
            PyNodeType::Terminal(t) | PyNodeType::ErrorTerminal(t) => Some(t),
            _ => None,
        };
        let ok = match kind {
            tok::Kind::Name => terminal == Some(TerminalType::Name) || matches!(leaf.as_code(), "match" | "type" | "case" | "_"),
            tok::Kind::Number => terminal == Some(TerminalType::Number),
            tok::Kind::Str => terminal == Some(TerminalType::String),
            tok::Kind::Bytes => terminal == Some(TerminalType::Bytes),
            tok::Kind::Keyword | tok::Kind::Op => matches!(terminal, None | Some(TerminalType::Operator)) || kind == tok::Kind::Keyword && terminal == Some(TerminalType::Name) && leaf.is_error_recovery_node(),
        };
        if !ok {
            return (false, "a token has the wrong kind");
        }
        let Some(n) = leaf.next_leaf() else { return (false, "a token is missing") };
        leaf = n;
    }
    if leaf.length() > 0 && leaf.as_code() != "\n" {
        return (false, "there is an extra token");
    }
    (true, "")
}

/// the tokens are those of the lexical rules, also in broken code
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tok() {
    warm();
    zsym::begin();
    let (n, alphabet, lexemes) = (zsym::param(0) as usize, zsym::param(1) as usize, zsym::param(2) as usize);
    let mut s = String::new();
    if lexemes == 0 {
        s = zsym::ascii(n, &tok::BYTES[..alphabet.min(tok::BYTES.len())]);
    } else {
        for i in 0..n {
            s.push_str(pick(tok::LEXEMES, if i == 0 { 255 } else { lexemes }));
        }
    }
    let (ok, what) = tok_check(&s);
    zsym::check(ok, what);
    zsym::out(ok as u64);
}

fn all_tok() {
    let n = zsym::param(0) as u32;
    if zsym::param(1) == 0 {
        for k in 0..tok::LEXEMES.len().pow(n) {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(tok::LEXEMES[k % tok::LEXEMES.len()]);
                k /= tok::LEXEMES.len();
            }
            let (ok, w) = tok_check(&s);
            if !ok {
                println!("{s:?} {w}");
            }
        }
    } else {
        for k in 0..tok::BYTES.len().pow(n) {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..n {
                s.push(tok::BYTES[k % tok::BYTES.len()] as char);
                k /= tok::BYTES.len();
            }
            let (ok, w) = tok_check(&s);
            if !ok {
                println!("{s:?} {w}");
            }
        }
    }
}

const INTACT: &[&str] = &["y = f(z)", "import m", "pass", "z.w", "del z", "assert z", "global z", "break", "continue", "nonlocal z", "raise z", "return z", "while z: w", "class Z: w", "with z: w", "def w(): z"];
/// statements whose first word only ever starts a statement
const FIRM: &[&str] = &["pass", "import", "del", "assert", "global", "break", "continue", "nonlocal", "return", "while", "class", "with", "def"];
const BROKEN: &[&str] = &[
    "a", "1", "=", "(", ")", ":", ",", ".", "+", "if", "for", "def", "'s'", "[", "]", "{", "}", "lambda", "in", "else", "not", "import", "class", "return", "@", "*", "$", "?", "!", "\u{e9}", "->", ":=", "'", "f'", "f'{a", "yield",
    "await", "try", "except", "match", "case", "with", "as", "from", "del", "async", ";", "global", "print",
];

fn shape(n: PyNode, base: u32, out: &mut Vec<(u32, u32, String)>) {
    out.push((n.start() - base, n.end() - base, n.type_str()));
    if !n.is_leaf() {
        for c in n.iter_children() {
            shape(c, base, out);
        }
    }
}

/// the largest node that starts at `pos` and ends at `end`
fn statement<'a>(t: &'a PyTree, pos: u32, end: u32) -> Option<PyNode<'a>> {
    let mut found = None;
    for n in t.nodes() {
        if n.start() == pos && n.end() == end && found.is_none() {
            found = Some(n);
        }
    }
    found
}

/// None: the middle is not a broken line that ends at its end
fn recover_check(middle: &str, before: &str, after: &str, indent: &str) -> Option<(bool, bool)> {
    let mut depth = 0i32;
    let mut quote = false;
    for w in middle.split(' ') {
        match w {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" if !quote => depth = (depth - 1).max(0),
            // (the rest of the line may be part of a string)
            "'" | "f'" => quote = true,
            "f'{a" => depth += 1000,
            _ => (),
        }
    }
    // an open bracket goes on until a keyword that only starts statements
    let first = after.split(' ').next().unwrap();
    if depth > 0 && !(FIRM.contains(&first) && !(first == "import" && middle.contains("from"))) {
        return None;
    }
    let (head, ind) = if indent.is_empty() { ("", "") } else { ("if q:\n", indent) };
    let text = format!("{head}{ind}{before}\n{ind}{middle}\n{ind}{after}\n");
    let b = (head.len() + ind.len()) as u32;
    let a = b + (before.len() + 1 + ind.len() + middle.len() + 1 + ind.len()) as u32;
    let t = parsa_python::parse(text.into_boxed_str());
    let alone = |s: &str| {
        let t = parsa_python::parse(format!("{s}\n").into_boxed_str());
        let mut v = vec![];
        shape(statement(&t, 0, s.len() as u32 + 1).filter(|n| n.type_str() != "file").or_else(|| t.root_node().nth_child(0).into()).unwrap(), 0, &mut v);
        v
    };
    let same = |p: u32, s: &str| {
        let want = alone(s);
        statement(&t, p, p + s.len() as u32 + 1).is_some_and(|n| {
            let mut v = vec![];
            shape(n, p, &mut v);
            v == want
        })
    };
    Some((same(b, before), same(a, after)))
}

/// a broken line does not damage the statements around it
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_recover() {
    warm();
    zsym::begin();
    let n = zsym::param(0) as usize;
    let mut middle = String::new();
    for i in 0..n {
        if i > 0 {
            middle.push(' ');
        }
        middle.push_str(pick(BROKEN, zsym::param(1) as usize));
    }
    let k = zsym::param(2) as usize;
    // (some of the others could go on in a broken line)
    let before = pick(INTACT, k.min(4));
    let after = pick(INTACT, k);
    let indent = pick(&["", " "], zsym::param(3) as usize);
    let Some((b, a)) = recover_check(&middle, before, after, indent) else { return };
    zsym::check(b, "a broken line damages the statement before it");
    zsym::check(a, "a broken line damages the statement behind it");
}

fn all_recover() {
    let n = zsym::param(0) as u32;
    let ind = if zsym::param(1) == 0 { "" } else { " " };
    for k in 0..BROKEN.len().pow(n) {
        let mut k = k;
        let mut s: Vec<&str> = vec![];
        for _ in 0..n {
            s.push(BROKEN[k % BROKEN.len()]);
            k /= BROKEN.len();
        }
        let m = s.join(" ");
        for after in INTACT {
            if let Some((b, a)) = recover_check(&m, "y = f(z)", after, ind) {
                if !b || !a {
                    println!("{m} | {after} {b} {a}");
                }
            }
        }
    }
}

/// (reference: valid, parser: valid, same fields, same literal text)
fn fstr_check(text: &str) -> Option<(bool, bool, bool, bool)> {
    let mut r = fstr::Ref::new(text);
    let want = r.whole();
    if r.unclear {
        return None;
    }
    let t = parsa_python::parse(format!("{text}\n").into_boxed_str());
    let got = is_valid(&t);
    let (mut fields, mut lit) = (vec![], vec![]);
    for n in t.nodes() {
        if n.is_type(PyNodeType::Nonterminal(NonterminalType::fstring_expr)) {
            fields.push((n.start() as usize, n.end() as usize));
        } else if n.is_type(PyNodeType::Terminal(TerminalType::FStringString)) {
            lit.extend_from_slice(n.as_code().as_bytes());
        }
    }
    Some((want, got, fields == r.fields, lit == r.literal))
}

/// f-strings are valid and structured as PEP 701 says
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_fstr() {
    warm();
    zsym::begin();
    let (n, pieces) = (zsym::param(0) as usize, zsym::param(1) as usize);
    let quote = pick(fstr::QUOTES, zsym::param(2) as usize);
    let mut s = String::from(pick(fstr::PREFIXES, zsym::param(3) as usize));
    s.push_str(quote);
    let open = zsym::param(4) as usize;
    s.push_str(["", "{v", "{v:", "{v:{v:1}"][open]);
    for _ in 0..n {
        s.push_str(pick(fstr::PIECES, pieces));
    }
    s.push_str(["", "}", "}b", "}b"][open]);
    s.push_str(quote);
    let Some((want, got, fields, literal)) = fstr_check(&s) else { return };
    if want {
        zsym::cover(0);
        zsym::check(got, "a valid f-string is reported to have a syntax error");
        zsym::check(fields, "the replacement fields of an f-string are not where PEP 701 says");
        zsym::check(literal, "the literal text of an f-string is wrong");
    } else {
        zsym::cover(1);
        zsym::check(!got, "an invalid f-string is not reported");
    }
    zsym::out(got as u64);
}

fn all_fstr() {
    let n = zsym::param(0) as u32;
    for &q in fstr::QUOTES {
        for p in &fstr::PREFIXES[..2] {
            for k in 0..fstr::PIECES.len().pow(n) {
                let mut k = k;
                let mut s = format!("{p}{q}{}", ["", "{v", "{v:", "{v:{v:1}"][zsym::param(1) as usize]);
                for _ in 0..n {
                    s.push_str(fstr::PIECES[k % fstr::PIECES.len()]);
                    k /= fstr::PIECES.len();
                }
                s.push_str(["", "}", "}b", "}b"][zsym::param(1) as usize]);
                s.push_str(q);
                let Some((want, got, f, l)) = fstr_check(&s) else { continue };
                println!("0 {} {} {}", got as u8, want as u8, s.replace('\\', "\\\\").replace('\n', "\\n"));
                if want && got && !(f && l) {
                    println!("BAD {s:?} {f} {l}");
                }
            }
        }
    }
}

fn all_expr() {
    for ops in 0..=3usize {
        let nu = if ops < 3 { expr::UNARY.len() } else { 1 };
        for k in 0..expr::BINARY.len().pow(ops as u32) * nu.pow(ops as u32 + 1) {
            let mut k = k;
            let mut d = |n: usize| {
                let r = k % n;
                k /= n;
                r
            };
            let o: Vec<_> = (0..ops).map(|_| expr::BINARY[d(expr::BINARY.len())]).collect();
            let u: Vec<_> = (0..=ops).map(|_| expr::UNARY[d(nu)]).collect();
            let (text, want) = expr_case(&o, &u);
            let w = want.is_some();
            let (a, b) = expr_check(text.clone(), want.clone());
            println!("0 {} {} x = {text}\\n", (a == w) as u8, w as u8);
            if !a || !b {
                println!("BAD {text} {want:?} {a} {b}");
            }
        }
    }
}

fn all_indent() {
    let g = warm();
    for n in 1..=3usize {
        let m = indent::KINDS.len() * 4;
        for k in 0..m.pow(n as u32) {
            let mut k = k;
            let mut lines = vec![];
            for _ in 0..n {
                lines.push((k % 4, indent::KINDS[k / 4 % indent::KINDS.len()]));
                k /= m;
            }
            let (text, toks, at) = indent::build(&lines, " ", "\n");
            let (w, got, d) = indent_check(&g, text.clone(), toks, &at);
            println!("0 {} {} {}", got as u8, w as u8, text.replace('\\', "\\\\").replace('\n', "\\n"));
            if w && !d {
                println!("BAD {text:?}");
            }
        }
    }
}

fn all() {
    let g = warm();
    for (i, t) in tmpl::TEMPLATES.iter().enumerate() {
        let holes = t.split(' ').filter(|w| *w == "?").count();
        for k in 0..tmpl::ALPHA.len().pow(holes as u32) {
            let mut k = k;
            let (text, toks) = tmpl::render(t, || {
                let r = tmpl::ALPHA[k % tmpl::ALPHA.len()];
                k /= tmpl::ALPHA.len();
                r
            });
            let want = reference(&g, &toks);
            let got = is_valid(&parsa_python::parse(text.clone().into_boxed_str()));
            println!("{i} {} {} {}", got as u8, want as u8, text.replace('\n', "\\n"));
        }
    }
}
