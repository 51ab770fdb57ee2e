//! What is being typed at the cursor: the context of a completion in lines that
//! are complete up to the cursor, and perhaps behind it.
use parsa_python_cst::*;

fn pick(n: usize) -> usize {
    zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize
}

fn sp() -> &'static str {
    [" ", "  "][pick(2)]
}

/// relative dots, with blanks perhaps
fn dots() -> (String, usize) {
    let n = pick(zsym::param(1) as usize + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && i == n - 1 {
            s.push_str(["", " "][pick(2)]);
        }
        s.push('.');
    }
    (s, n)
}

fn dotted(n: usize) -> String {
    ["k", "k.l", "k.l.m"][n - 1].into()
}

fn base_text(b: Option<DottedImportName>) -> String {
    b.map_or("-".into(), |b| b.as_code().to_string())
}

fn target_text<'a>(t: &PrimaryTargetOrAtom<'a>) -> &'a str {
    match t {
        PrimaryTargetOrAtom::Atom(a) => a.as_code(),
        PrimaryTargetOrAtom::PrimaryTarget(p) => p.as_code(),
    }
}

pub fn describe(node: &CompletionNode, rest: &RestNode) -> String {
    match node {
        CompletionNode::Attribute { base } => format!("attribute of {}", base.as_code()),
        CompletionNode::PrimaryTarget { base } => format!("attribute of {}", target_text(base)),
        CompletionNode::ImportName { path: None } => "import -".into(),
        CompletionNode::ImportName { path: Some((n, d)) } => match d {
            None => format!("import {}", n.as_code()),
            Some(d) => format!("import {}.{}", n.as_code(), d.as_code()),
        },
        // (the same modules are offered)
        CompletionNode::ImportFromFirstPart { dots: 0, base } => format!("import {}", base_text(*base)),
        CompletionNode::ImportFromFirstPart { dots, base } => format!("from {dots} {}", base_text(*base)),
        CompletionNode::ImportFromTarget { dots, base } => format!("from {dots} {} import", base_text(*base)),
        CompletionNode::ParamName { func_name, decorators } => format!("param of {}{}", func_name.as_code(), if decorators.is_some() { " decorated" } else { "" }),
        CompletionNode::AsNewName => "as".into(),
        CompletionNode::NecessaryKeyword(k) => format!("keyword {k}"),
        CompletionNode::AfterDefKeyword => "def".into(),
        CompletionNode::AfterClassKeyword => "class".into(),
        CompletionNode::InsideString => "string".into(),
        CompletionNode::InsideComment { .. } => "comment".into(),
        CompletionNode::Global { context: None } => "global".into(),
        CompletionNode::Global { context: Some(c) } => {
            let (b, a) = match c {
                CompletionContext::PrimaryCall { base, args } => (base.as_code(), args),
                CompletionContext::PrimaryTargetCall { base, args } => (target_text(base), args),
            };
            let (n, mut k) = a.map_or((0, vec![]), |a| {
                let u = a.used_args_until(rest);
                (u.positional_args, u.keyword_args.iter().map(|x| x.to_string()).collect())
            });
            k.sort();
            format!("argument of {b} {n} {k:?}")
        }
    }
}

/// (text before the partial name, context, what may follow)
fn form(kind: usize) -> (String, String, &'static [&'static str]) {
    const NOTHING: &[&str] = &[""];
    match kind {
        0 => {
            let (d, n) = dots();
            let what = if n == 0 { "import".into() } else { format!("from {n}") };
            let m = pick(zsym::param(2) as usize + 1);
            let s = if n == 0 { sp() } else { ["", " "][pick(2)] };
            if m == 0 {
                (format!("from{s}{d}"), format!("{what} -"), &["", " import x"])
            } else {
                let b = dotted(m);
                (format!("from{s}{d}{}{b}.", ["", " "][pick(2)]), format!("{what} {b}"), &["", " import x"])
            }
        }
        1 => {
            let (d, n) = dots();
            let m = pick(zsym::param(2) as usize + 1);
            zsym::assume(n + m > 0);
            let b = if m > 0 { dotted(m) } else { String::new() };
            let names = ["", "n, ", "n as o, "][pick(3)];
            let paren = pick(2) == 1;
            (
                format!("from {d}{b} import {}{names}", if paren { "(" } else { "" }),
                format!("from {n} {} import", if m > 0 { b } else { "-".into() }),
                if paren { &["", ")", ", z)"] } else { &["", ", z", " as z"] },
            )
        }
        2 => {
            let first = ["", "n, ", "n.o as p, "][pick(3)];
            let m = pick(zsym::param(2) as usize + 1);
            if m == 0 {
                (format!("import {first}"), "import -".into(), &["", " as z", ", z"])
            } else {
                let b = dotted(m);
                (format!("import {first}{b}."), format!("import {b}"), &["", " as z", ", z", ".z"])
            }
        }
        3 => {
            const CTX: &[(&str, &[&str])] = &[
                ("", &["", " + 1", "()", "[0]", ".z", " = 1", ".z = 1", " += 1", ": int"]),
                ("x = ", &["", " + 1", ".z()"]),
                ("f(", &["", ")", ", z)"]),
                ("f(x, y=", &["", ")", ", z=1)"]),
                ("[", &["", "]", " for z in y]"]),
                ("return ", &["", ", z"]),
                ("x + ", &["", " * 2"]),
                ("x if ", &[" else z", ""]),
                ("not ", &[""]),
                ("{x: ", &["}", ""]),
                ("lambda: ", &[""]),
                ("f'{", &["}'", "!r}'", ":>3}'"]),
                ("del ", &["", ", z"]),
            ];
            let c = CTX[pick(CTX.len())];
            let b = ["k", "k.l", "k()", "k(l, m=1)", "k[l]", "(k)", "(k + l)", "'k'", "k().l", "1.0", "[k]", "k[l].m"][pick(12)];
            (format!("{}{b}{}.", c.0, ["", " "][pick(2)]), format!("attribute of {b}"), c.1)
        }
        4 => {
            const KEYWORDS: &[(&str, &str, &[&str])] = &[
                ("def ", "def", &["", "(): pass", "(a, b): pass", "["]),
                ("async def ", "def", &["", "(): pass"]),
                ("class ", "class", &["", ": pass", "(a): pass"]),
                ("import n as ", "as", &["", ", z"]),
                ("import n.o as ", "as", &["", ", z"]),
                ("from n import o as ", "as", &["", ", z"]),
                ("from n import (o as ", "as", &["", ")", ", z)"]),
                ("with n as ", "as", &["", ": pass"]),
            ];
            let k = KEYWORDS[pick(KEYWORDS.len())];
            (k.0.into(), k.1.into(), k.2)
        }
        5 => {
            let ctx = ["", "x = ", "g(", "return ", "if "][pick(5)];
            let f = ["f", "f.g", "f(h)", "f[h]"][pick(4)];
            let n = pick(zsym::param(1) as usize + 1);
            let (mut args, mut pos, mut kw) = (String::new(), 0, vec![]);
            for i in 0..n {
                match pick(3) {
                    0 if kw.is_empty() => {
                        args.push_str(["p, ", "q.r, ", "h(p), "][pick(3)]);
                        pos += 1;
                    }
                    1 => {
                        let k = format!("k{i}");
                        args.push_str(&format!("{k}=1, "));
                        kw.push(k);
                    }
                    _ => zsym::assume(false),
                }
            }
            (format!("{ctx}{f}({args}"), format!("argument of {f} {pos} {kw:?}"), &[")", ", z)", ", z=1)"])
        }
        6 => {
            let d = pick(2);
            let p = ["", "a, ", "a: int, ", "a=1, "][pick(4)];
            (format!("{}def f({p}", ["", "@dec\n"][d]), format!("param of f{}", ["", " decorated"][d]), &["): pass", ", z): pass", ": int): pass", "=1): pass"])
        }
        7 => {
            let c = ["", "x = ", "x + ", "return ", "if ", "x, ", "[", "while x and ", "for x in ", "@", "assert x, ", "raise ", "with "][pick(13)];
            (c.into(), "global".into(), NOTHING)
        }
        _ => {
            let c = ["'", "x = \"", "f('", "r'''"][pick(4)];
            let end = match c.as_bytes()[c.len() - 1] {
                b'"' => &["\"", " y\""],
                _ if c.len() == 4 => &["'''", "\ny'''"],
                _ => &["'", " y'"],
            };
            (c.into(), "string".into(), end)
        }
    }
}

/// n0: which form, 0 = all; n1: dots or arguments; n2: parts of a dotted name
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ctx() {
    crate::warm();
    let kind = match zsym::param(0) {
        0 => pick(9),
        n => n as usize - 1,
    };
    const BEFORE: &[(&str, &str)] = &[
        ("", "Module"),
        ("x = 1\n", "Module"),
        ("def o():\n    ", "def o"),
        ("class O:\n    x\n    def o():\n        pass\n    ", "class O"),
        ("if x:\n    y\nelse:\n    ", "Module"),
    ];
    let before = BEFORE[pick(if zsym::param(3) > 0 { zsym::param(3) as usize } else { BEFORE.len() })];
    let (line, want, after) = form(kind);
    let (partial, more) = [("", ""), ("v", ""), ("v", "w"), ("vw", "")][pick(4)];
    let mut after = after[pick(after.len())];
    if partial.is_empty() {
        // only what is written before the cursor tells what comes
        after = if matches!(kind, 5 | 6 | 8) { after } else { "" };
        zsym::assume(!after.starts_with([',', ':', '=']));
        // (targets of `del` are only recognized when they are complete)
        zsym::assume(!line.starts_with("del "));
    }
    let end = ["\n", "\ny = 2\n", ""][pick(3)];
    let mut head = before.0.to_string();
    let pad = head.rsplit('\n').next().unwrap_or("").to_string();
    head.push_str(&line.replace('\n', &format!("\n{pad}")));
    head.push_str(partial);
    let pos = head.len() as u32;
    let text = format!("{head}{more}{after}{end}");
    let t = Tree::parse(text.clone().into_boxed_str());
    let (scope, node, rest) = t.completion_node(pos);
    let got = describe(&node, &rest);
    #[cfg(feature = "show")]
    {
        eprintln!("{text:?} at {pos}\ngot      {got} | {} | {}\nexpected {want} | {partial} | {}", rest.as_code(), scope.short_debug_info(), before.1);
    }
    zsym::check(got == want, "the context of the completion is not the one that was typed");
    if kind < 8 {
        zsym::check(rest.as_code() == partial, "the text to complete is not the part of the name before the cursor");
    }
    if kind != 4 && kind != 6 && !(line.is_empty() && partial.is_empty()) {
        let lambda = line.starts_with("lambda");
        zsym::check(scope.short_debug_info() == before.1 || lambda, "the scope of the completion is not the one around the cursor");
    }
    zsym::cover(0);
    zsym::out_str(&got);
}
