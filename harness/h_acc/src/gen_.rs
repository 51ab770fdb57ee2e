//! Texts and what the grammar of Python says their parts are.
use std::sync::atomic::Ordering::Relaxed;

use crate::{COUNT, KIND, RICH, pick};

/// a text and the dump of its parts
pub type P = (String, String);

pub fn texts(v: &[P], sep: &str) -> String {
    v.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(sep)
}

pub fn exps(v: &[P]) -> String {
    v.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join(" ")
}

/// a name that is used nowhere else
pub fn nm() -> String {
    let n = COUNT.fetch_add(1, Relaxed);
    let c = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[n as usize % 52] as char;
    if n < 52 { c.to_string() } else { format!("{c}{}", n / 52) }
}

/// some expression
pub fn ex() -> P {
    let left = RICH.load(Relaxed);
    RICH.store(left.wrapping_sub(1), Relaxed);
    if left == 0 {
        let (a, b, c) = (nm(), nm(), nm());
        match KIND.load(Relaxed) {
            0 => (format!("{a} if {b} else {c}"), format!("(ternary {a} {b} {c})")),
            1 => (format!("lambda {a}: {b}"), format!("(lambda [(arg {a} - -)] {b})")),
            2 => (format!("{a} or {b}"), format!("(or {a} {b})")),
            3 => (format!("not {a}"), format!("(not {a})")),
            4 => (format!("({a}, {b})"), format!("(tuple [{a} {b}])")),
            5 => (format!("{a}.{b}"), format!("(. {a} {b})")),
            6 => (format!("-{a}"), format!("(unary - {a})")),
            7 => (format!("{a} < {b}"), format!("[(< __lt__ __gt__ {a} {b})]")),
            8 => (format!("({a} := {b})"), format!("(paren (:= {a} {b}))")),
            _ => (format!("{a} | {b}"), format!("(| __or__ __ror__ {a} {b})")),
        }
    } else {
        let a = nm();
        (a.clone(), a)
    }
}

/// some operand of a binary operator, comparison, call or star
pub fn ex_base() -> P {
    let p = ex();
    if p.1 == p.0 || p.0.starts_with('(') { p } else { (format!("({})", p.0), format!("(paren {})", p.1)) }
}

/// an expression or an assignment expression
pub fn nex() -> P {
    if pick(3) == 2 {
        let (a, e) = (nm(), ex());
        (format!("{a} := {}", e.0), format!("(:= {a} {})", e.1))
    } else {
        ex()
    }
}

fn some(p: Option<P>) -> P {
    p.unwrap_or((String::new(), "-".into()))
}

/// the parameters of a function or lambda: n items with their commas
pub fn param_list(n: usize, lambda: bool) -> Option<P> {
    #[derive(PartialEq)]
    enum S {
        Plain,
        Kw,
        Done,
    }
    let mut s = S::Plain;
    let (mut default, mut slash, mut bare) = (false, false, false);
    let mut text: Vec<String> = vec![];
    let mut out: Vec<(&'static str, String)> = vec![];
    for _ in 0..n {
        // 0..=3: a name with or without annotation and default; then /, *, *a, *a: t, *a: *t, **a, **a: t
        let k = pick(11);
        if lambda && matches!(k, 2 | 3 | 7 | 8 | 10) || s == S::Done {
            return None;
        }
        match k {
            0..=3 => {
                let a = nm();
                let ann = (k & 2 != 0).then(ex);
                let def = (k & 1 != 0).then(ex);
                if s == S::Plain {
                    if default && def.is_none() {
                        return None;
                    }
                    default |= def.is_some();
                }
                bare = false;
                text.push(format!("{a}{}{}", ann.as_ref().map_or(String::new(), |a| format!(": {}", a.0)), def.as_ref().map_or(String::new(), |a| format!("={}", a.0))));
                out.push((if s == S::Kw { "kw" } else { "arg" }, format!("{a} {} {}", some(ann).1, some(def).1)));
            }
            4 => {
                if s != S::Plain || slash || out.is_empty() {
                    return None;
                }
                slash = true;
                text.push("/".into());
                for o in &mut out {
                    o.0 = "pos";
                }
            }
            5 => {
                if s != S::Plain {
                    return None;
                }
                s = S::Kw;
                bare = true;
                text.push("*".into());
            }
            6..=8 => {
                if s != S::Plain {
                    return None;
                }
                s = S::Kw;
                let a = nm();
                let (t, x) = match k {
                    6 => (String::new(), "-".to_string()),
                    7 => {
                        let e = ex();
                        (format!(": {}", e.0), e.1)
                    }
                    _ => {
                        let e = ex_base();
                        (format!(": *{}", e.0), format!("(* {})", e.1))
                    }
                };
                text.push(format!("*{a}{t}"));
                out.push(("*", format!("{a} {x} -")));
            }
            _ => {
                if bare {
                    return None;
                }
                s = S::Done;
                let a = nm();
                let e = (k == 10).then(ex);
                text.push(format!("**{a}{}", e.as_ref().map_or(String::new(), |e| format!(": {}", e.0))));
                out.push(("**", format!("{a} {} -", some(e).1)));
            }
        }
    }
    if bare {
        return None;
    }
    let comma = if n > 0 { ["", ","][pick(2)] } else { "" };
    let e = out.iter().map(|(k, x)| format!("({k} {x})")).collect::<Vec<_>>().join(" ");
    Some((format!("{}{comma}", text.join(", ")), format!("[{e}]")))
}

pub fn type_params(n: usize) -> P {
    if n == 0 {
        return (String::new(), "-".into());
    }
    let v: Vec<P> = (0..n)
        .map(|_| {
            let a = nm();
            match pick(9) {
                0 => (a.clone(), format!("(var {a} - -)")),
                1 => {
                    let e = ex();
                    (format!("{a}: {}", e.0), format!("(var {a} {} -)", e.1))
                }
                2 => {
                    let e = ex();
                    (format!("{a} = {}", e.0), format!("(var {a} - {})", e.1))
                }
                3 => {
                    let (b, e) = (ex(), ex());
                    (format!("{a}: {} = {}", b.0, e.0), format!("(var {a} {} {})", b.1, e.1))
                }
                4 => (format!("*{a}"), format!("(* {a} -)")),
                5 => {
                    let e = ex();
                    (format!("*{a} = {}", e.0), format!("(* {a} {})", e.1))
                }
                6 => {
                    let e = ex_base();
                    (format!("*{a} = *{}", e.0), format!("(* {a} (* {}))", e.1))
                }
                7 => (format!("**{a}"), format!("(** {a} -)")),
                _ => {
                    let e = ex();
                    (format!("**{a} = {}", e.0), format!("(** {a} {})", e.1))
                }
            }
        })
        .collect();
    let comma = ["", ","][pick(2)];
    (format!("[{}{comma}]", texts(&v, ", ")), format!("[{}]", exps(&v)))
}

fn pad(i: usize) -> String {
    "    ".repeat(i)
}

/// a block behind a colon
pub fn body(indent: usize) -> P {
    block(indent, pick(9))
}

fn block(indent: usize, kind: usize) -> P {
    let (a, b) = (nm(), nm());
    match kind {
        0 => (" pass\n".into(), "[pass]".into()),
        5 => (format!("\n{0}'{a}' '{b}'\n{0}'{b}'\n", pad(indent + 1)), format!("[(str ['{a}' '{b}']) (str ['{b}'])]")),
        1 => (format!(" {a}; {b}\n"), format!("[{a} {b}]")),
        6 => (format!("\n{0}{a}\n{0}'{b}'\n", pad(indent + 1)), format!("[{a} (str ['{b}'])]")),
        7 => (format!(" '{a}'; '{b}'\n"), format!("[(str ['{a}']) (str ['{b}'])]")),
        8 => (format!(" {a}; '{b}'\n"), format!("[{a} (str ['{b}'])]")),
        2 => (format!("\n{}{a}\n", pad(indent + 1)), format!("[{a}]")),
        3 => (format!(" # c\n\n{0}{a}\n\n{0}return {b};\n", pad(indent + 1)), format!("[{a} (return {b})]")),
        _ => (format!("\n{0}if {a}:\n{0} {b}\n{0}pass\n", pad(indent + 1)), format!("[(if [({a} [{b}])]) pass]")),
    }
}

/// a function or class with up to n decorators, type parameters or arguments
pub fn definition(n: usize, tp: usize, indent: usize) -> P {
    let decs: Vec<P> = (0..pick(n + 1)).map(|_| nex()).collect();
    let t = type_params(if tp == 0 { 0 } else { pick(tp + 1) });
    let name = nm();
    let (mut text, mut out) = (String::new(), String::new());
    for d in &decs {
        text.push_str(&format!("@{}\n{}", d.0, pad(indent)));
    }
    let f = match pick(4) {
        0 => {
            let (a, x) = [("", "- -"), ("()", "() -")][pick(2)];
            let b = body(indent);
            (format!("class {name}{}{a}:{}", t.0, b.0), format!("(class {name} {} {x} {})", t.1, b.1))
        }
        1 => {
            let (e, k, f, g, h) = (ex(), nm(), ex(), ex(), ex_base());
            let (a, x) = match pick(4) {
                0 => (format!("{}", e.0), format!("[{}]", e.1)),
                1 => (format!("{}, {k}={},", e.0, f.0), format!("[{} ({k}= {})]", e.1, f.1)),
                2 => (format!("*{}, **{}", h.0, g.0), format!("[(* {}) (** {})]", h.1, g.1)),
                _ => (format!("{k}={}", f.0), format!("[({k}= {})]", f.1)),
            };
            let b = body(indent);
            (format!("class {name}{}({a}):{}", t.0, b.0), format!("(class {name} {} () {x} {})", t.1, b.1))
        }
        k => {
            let p = nm();
            let r = (pick(2) == 1).then(ex);
            let b = body(indent);
            let (pt, px) = [(String::new(), "[]".to_string()), (p.clone(), format!("[(arg {p} - -)]"))][pick(2)].clone();
            let (a1, a2, a3) = if k == 3 { ("async ", "(async ", ")") } else { ("", "", "") };
            (
                format!("{a1}def {name}{}({pt}){}:{}", t.0, r.as_ref().map_or(String::new(), |r| format!(" -> {}", r.0)), b.0),
                format!("{a2}(def {name} {} {px} {} {}){a3}", t.1, some(r).1, b.1),
            )
        }
    };
    text.push_str(&f.0);
    if decs.is_empty() { out.push_str(&f.1) } else { out.push_str(&format!("(@ [{}] {})", exps(&decs), f.1)) }
    (text, out)
}

fn dotted(n: usize) -> String {
    (0..n).map(|_| nm()).collect::<Vec<_>>().join(".")
}

/// an import of up to n names of up to m parts
pub fn import(n: usize, m: usize) -> P {
    if pick(2) == 0 {
        let v: Vec<P> = (0..1 + pick(n))
            .map(|_| {
                let d = dotted(1 + pick(m));
                match pick(3) {
                    0 => (d.clone(), d),
                    1 => {
                        let a = nm();
                        (format!("{d} as {a}"), format!("(as {d} {a})"))
                    }
                    // the last part of the name
                    _ => {
                        let a = d.rsplit('.').next().unwrap();
                        (format!("{d} as {a}"), format!("(as {d} {a}{})", if d == a { "!" } else { "" }))
                    }
                }
            })
            .collect();
        return (format!("import {}", texts(&v, ", ")), format!("(import [{}])", exps(&v)));
    }
    const DOTS: [&str; 12] = ["", ".", "..", "...", "....", ".....", "......", ". .", ". ...", "... .", ".. ..", "... ... ."];
    let dotted_ = DOTS[pick(12)];
    let dots = dotted_.matches('.').count();
    let parts = if dots == 0 { 1 + pick(m) } else { pick(m + 1) };
    let d = dotted(parts);
    let sep = if parts > 0 && dots % 2 == 1 { " " } else { "" };
    let v: Vec<P> = (0..1 + pick(n))
        .map(|_| {
            let a = nm();
            match pick(3) {
                0 => (a.clone(), format!("({a} {a})")),
                1 => {
                    let b = nm();
                    (format!("{a} as {b}"), format!("({a} {b})"))
                }
                _ => (format!("{a} as {a}"), format!("({a} {a}!)")),
            }
        })
        .collect();
    let (t, x) = match pick(4) {
        0 => ("*".to_string(), "*".to_string()),
        1 => (texts(&v, ", "), format!("[{}]", exps(&v))),
        2 => (format!("({})", texts(&v, ",")), format!("[{}]", exps(&v))),
        _ => (format!("(\n  {},\n)", texts(&v, ",  # c\n")), format!("[{}]", exps(&v))),
    };
    (format!("from {dotted_}{sep}{d} import {t}"), format!("(from {dots} {} {x})", if parts == 0 { "-" } else { &d }))
}

/// the arguments of a call
pub fn arguments(n: usize) -> Option<P> {
    if n == 1 && pick(2) == 1 {
        let c = comp_in(1, 1);
        return Some((c.0, format!("[{}]", c.1)));
    }
    let (mut kw, mut kws) = (false, false);
    let mut v: Vec<P> = vec![];
    for _ in 0..n {
        v.push(match pick(5) {
            0 => {
                if kw || kws {
                    return None;
                }
                ex()
            }
            1 => {
                if kw || kws {
                    return None;
                }
                let (a, e) = (nm(), ex());
                (format!("{a}:={}", e.0), format!("(:= {a} {})", e.1))
            }
            2 => {
                if kws {
                    return None;
                }
                let e = ex();
                (format!("*{}", e.0), format!("(* {})", e.1))
            }
            3 => {
                kw = true;
                let (a, e) = (nm(), ex());
                (format!("{a}={}", e.0), format!("({a}= {})", e.1))
            }
            _ => {
                kws = true;
                let e = ex();
                (format!("**{}", e.0), format!("(** {})", e.1))
            }
        });
    }
    let comma = if n > 0 { ["", ","][pick(2)] } else { "" };
    Some((format!("{}{comma}", texts(&v, ", ")), format!("[{}]", exps(&v))))
}

pub fn subscripts(n: usize) -> P {
    let v: Vec<P> = (0..n)
        .map(|_| match pick(4) {
            0 => ex(),
            1 => {
                let (a, e) = (nm(), ex());
                (format!("{a}:={}", e.0), format!("(:= {a} {})", e.1))
            }
            2 => {
                let e = ex();
                (format!("*{}", e.0), format!("(* {})", e.1))
            }
            _ => {
                let a = (pick(2) == 1).then(ex_base);
                let b = (pick(2) == 1).then(ex_base);
                let (t, c) = match pick(3) {
                    0 => (String::new(), None),
                    1 => (":".to_string(), None),
                    _ => {
                        let e = ex_base();
                        (format!(":{}", e.0), Some(e))
                    }
                };
                let (a, b, c) = (some(a), some(b), some(c));
                (format!("{}:{}{t}", a.0, b.0), format!("(slice {} {} {})", a.1, b.1, c.1))
            }
        })
        .collect();
    let comma = pick(2);
    let x = if n == 1 && comma == 0 { v[0].1.clone() } else { format!("[{}]", exps(&v)) };
    (format!("{}{}", texts(&v, ", "), ["", ","][comma]), x)
}

fn elements(n: usize) -> Vec<P> {
    (0..n)
        .map(|_| {
            if pick(2) == 1 {
                let e = ex_base();
                (format!("*{}", e.0), format!("(* {})", e.1))
            } else {
                nex()
            }
        })
        .collect()
}

pub fn display(n: usize) -> P {
    let k = pick(4);
    if k == 3 {
        let v: Vec<P> = (0..n)
            .map(|_| {
                if pick(2) == 1 {
                    let e = ex_base();
                    (format!("**{}", e.0), format!("(** {})", e.1))
                } else {
                    let (a, b) = (ex(), ex());
                    (format!("{}: {}", a.0, b.0), format!("({} : {})", a.1, b.1))
                }
            })
            .collect();
        let comma = if n > 0 { ["", ","][pick(2)] } else { "" };
        return (format!("{{{}{comma}}}", texts(&v, ", ")), format!("(dict [{}])", exps(&v)));
    }
    let v = elements(n);
    let comma = if n == 0 { "" } else if k == 2 && n == 1 { "," } else { ["", ","][pick(2)] };
    let (o, c, name) = [("[", "]", "list"), ("{", "}", "set"), ("(", ")", "tuple")][k];
    let name = if k == 1 && n == 0 { "dict" } else { name };
    (format!("{o}{}{comma}{c}", texts(&v, ", ")), format!("({name} [{}])", exps(&v)))
}

/// something that can be assigned to; top: also without parentheses
pub fn star_target(depth: usize, starred: bool) -> P {
    let k = pick(if depth == 0 { 3 } else { 5 } + if starred { 1 } else { 0 });
    let (a, b) = (nm(), nm());
    match k {
        0 => (a.clone(), format!("(def {a})")),
        1 => (format!("{a}.{b}"), format!("(attr (. {a} {b}) {b})")),
        2 => (format!("{a}[{b}]"), format!("(index (sub {a} {b}))")),
        3 | 4 if depth > 0 => {
            let n = pick(3);
            let v: Vec<P> = (0..n).map(|_| star_target(depth - 1, true)).collect();
            let (o, c) = [("(", ")"), ("[", "]")][k - 3];
            // (a) is a
            if k == 3 && n == 1 {
                return (format!("({},)", v[0].0), format!("(tuple [{}])", v[0].1));
            }
            let comma = if n > 0 { ["", ","][pick(2)] } else { "" };
            (format!("{o}{}{comma}{c}", texts(&v, ", ")), format!("(tuple [{}])", exps(&v)))
        }
        _ => (format!("*{a}"), format!("(* (def {a}))")),
    }
}

/// a list of targets without parentheses
pub fn star_targets(n: usize, depth: usize) -> P {
    let n = 1 + pick(n);
    let comma = pick(2);
    let v: Vec<P> = (0..n).map(|_| star_target(depth, n > 1 || comma == 1)).collect();
    if n == 1 && comma == 0 {
        return v[0].clone();
    }
    (format!("{}{}", texts(&v, ", "), ["", ","][comma]), format!("(tuple [{}])", exps(&v)))
}

fn clauses(n: usize, targets: usize) -> P {
    let v: Vec<P> = (0..n)
        .map(|_| {
            let (t, e) = (star_targets(targets, 0), ex_base());
            let ifs: Vec<P> = (0..pick(3)).map(|_| ex_base()).collect();
            let (a, k) = [("", "for"), ("async ", "async")][pick(2)];
            let mut s = format!(" {a}for {} in {}", t.0, e.0);
            for i in &ifs {
                s.push_str(&format!(" if {}", i.0));
            }
            (s, format!("({k} {} {} [{}])", t.1, e.1, exps(&ifs)))
        })
        .collect();
    (texts(&v, ""), format!("[{}]", exps(&v)))
}

fn comp_in(n: usize, targets: usize) -> P {
    let e = nex();
    let c = clauses(n, targets);
    (format!("{}{}", e.0, c.0), format!("(comp {} {})", e.1, c.1))
}

pub fn comprehension(n: usize, targets: usize) -> P {
    match pick(4) {
        3 => {
            let (k, v) = (ex(), ex());
            let c = clauses(n, targets);
            (format!("{{{}: {}{}}}", k.0, v.0, c.0), format!("(dict (comp ({} : {}) {}))", k.1, v.1, c.1))
        }
        k => {
            let c = comp_in(n, targets);
            let (o, e, name) = [("[", "]", "list"), ("{", "}", "set"), ("(", ")", "gen")][k];
            (format!("{o}{}{e}", c.0), format!("({name} {})", c.1))
        }
    }
}

pub fn comparisons(n: usize) -> P {
    const OPS: [(&str, &str); 10] = [
        ("<", "< __lt__ __gt__"),
        (">", "> __gt__ __lt__"),
        ("<=", "<= __le__ __ge__"),
        (">=", ">= __ge__ __le__"),
        ("==", "=="),
        ("!=", "!="),
        ("is", "is"),
        ("is not", "is-not"),
        ("in", "in"),
        ("not in", "not-in"),
    ];
    let mut l = nm();
    let mut text = l.clone();
    let mut v = vec![];
    for _ in 0..n {
        let o = OPS[pick(10)];
        let r = nm();
        text.push_str(&format!(" {} {r}", o.0));
        v.push(format!("({} {l} {r})", o.1));
        l = r;
    }
    (text, format!("[{}]", v.join(" ")))
}

pub const BIN: [(&str, &str, u8); 13] = [
    ("|", "or", 1),
    ("^", "xor", 2),
    ("&", "and", 3),
    ("<<", "lshift", 4),
    (">>", "rshift", 4),
    ("+", "add", 5),
    ("-", "sub", 5),
    ("*", "mul", 6),
    ("@", "matmul", 6),
    ("/", "truediv", 6),
    ("%", "mod", 6),
    ("//", "floordiv", 6),
    ("**", "pow", 7),
];

/// n binary operators in a row, grouped as the precedences say
pub fn operators(n: usize) -> P {
    let ops: Vec<_> = (0..n).map(|_| BIN[pick(13)]).collect();
    let names: Vec<String> = (0..=n).map(|_| nm()).collect();
    let mut text = names[0].clone();
    for i in 0..n {
        text.push_str(&format!(" {} {}", ops[i].0, names[i + 1]));
    }
    fn go(ops: &[(&str, &str, u8)], names: &[String]) -> String {
        if ops.is_empty() {
            return names[0].clone();
        }
        // the operator that is applied last: the last of the weakest, or the first if it is **
        let min = ops.iter().map(|o| o.2).min().unwrap();
        let i = if min == 7 { 0 } else { ops.iter().rposition(|o| o.2 == min).unwrap() };
        format!("({} __{1}__ __r{1}__ {2} {3})", ops[i].0, ops[i].1, go(&ops[..i], &names[..=i]), go(&ops[i + 1..], &names[i + 1..]))
    }
    let x = go(&ops, &names);
    (text, x)
}

/// the parts of an f-string
fn fparts(n: usize, depth: usize, spec: bool) -> P {
    let mut v: Vec<P> = vec![];
    let mut was_text = false;
    for _ in 0..n {
        let k = pick(if depth == 0 { 3 } else { 5 });
        let (a, b) = (nm(), nm());
        if k == 0 {
            // two texts in a row are one
            if was_text {
                continue;
            }
            let s = if spec { a.clone() } else { [a.clone(), format!("{{{{{a}")][pick(2)].clone() };
            v.push((s.clone(), s));
            was_text = true;
            continue;
        }
        was_text = false;
        v.push(match k {
            1 => (format!("{{{a}}}"), format!("({{}} [{a}] -)")),
            2 => (format!("{{{a},{b}!r}}"), format!("({{}} [{a} {b}] -)")),
            3 => {
                let s = fparts(pick(n + 1), depth - 1, true);
                (format!("{{{a}:{}}}", s.0), format!("({{}} [{a}] {})", s.1))
            }
            _ => {
                let s = fparts(1, depth - 1, true);
                (format!("{{{a} = !s:{}}}", s.0), format!("({{}} [{a}] {})", s.1))
            }
        });
    }
    (texts(&v, ""), format!("[{}]", exps(&v)))
}

pub fn fstring(n: usize, depth: usize) -> P {
    let p = fparts(n, depth, false);
    let (o, c) = [("f'", "'"), ("F\"\"\"", "\"\"\""), ("rf\"", "\"")][pick(3)];
    let f = (format!("{o}{}{c}", p.0), format!("(f {})", p.1));
    match pick(3) {
        0 => f,
        1 => (format!("'x' {}", f.0), format!("'x' {}", f.1)),
        _ => (format!("{} '' {}", f.0, f.0), format!("{} '' {}", f.1, f.1)),
    }
}

/// an expression list as in `return a, *b`
pub fn star_exprs(n: usize) -> P {
    let n = 1 + pick(n);
    let v: Vec<P> = (0..n)
        .map(|_| {
            if n > 1 && pick(2) == 1 {
                let e = ex_base();
                (format!("*{}", e.0), format!("(* {})", e.1))
            } else {
                ex()
            }
        })
        .collect();
    let comma = pick(2);
    if n == 1 && comma == 0 {
        return v[0].clone();
    }
    (format!("{}{}", texts(&v, ", "), ["", ","][comma]), format!("(tuple [{}])", exps(&v)))
}

fn yields(n: usize) -> P {
    match pick(3) {
        0 => ("yield".into(), "(yield)".into()),
        1 => {
            let e = star_exprs(n);
            (format!("yield {}", e.0), format!("(yield {})", e.1))
        }
        _ => {
            let e = ex();
            (format!("yield from {}", e.0), format!("(yield-from {})", e.1))
        }
    }
}

fn right(n: usize) -> P {
    if pick(3) == 2 { yields(n) } else { star_exprs(n) }
}

fn del_targets(n: usize, depth: usize) -> P {
    let n = 1 + pick(n);
    let v: Vec<P> = (0..n)
        .map(|_| {
            let (a, b) = (nm(), nm());
            match pick(if depth > 0 { 6 } else { 3 }) {
                0 => (a.clone(), format!("(def {a})")),
                1 => (format!("{a}.{b}"), format!("(attr (. {a} {b}) {b})")),
                2 => (format!("{a}[{b}]"), format!("(index (sub {a} {b}))")),
                3 => {
                    let d = del_targets(n, depth - 1);
                    (format!("({})", d.0), d.1)
                }
                4 => {
                    let d = del_targets(n, depth - 1);
                    (format!("[{}]", d.0), d.1)
                }
                // nothing to delete
                _ => (["()", "[]"][pick(2)].into(), "".into()),
            }
        })
        .collect();
    let comma = ["", ","][pick(2)];
    let x = v.iter().map(|p| p.1.as_str()).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" ");
    (format!("{}{comma}", texts(&v, ", ")), format!("[{x}]"))
}

/// a simple statement with lists of up to n parts
pub fn simple(n: usize) -> P {
    let (a, b) = (nm(), nm());
    match pick(13) {
        0 => ("pass".into(), "pass".into()),
        1 => ("break".into(), "break".into()),
        2 => ("continue".into(), "continue".into()),
        3 => ("return".into(), "(return -)".into()),
        4 => {
            let e = star_exprs(n);
            (format!("return {}", e.0), format!("(return {})", e.1))
        }
        5 => match pick(3) {
            0 => ("raise".into(), "(raise)".into()),
            1 => {
                let e = ex();
                (format!("raise {}", e.0), format!("(raise {} -)", e.1))
            }
            _ => {
                let (e, f) = (ex(), ex());
                (format!("raise {} from {}", e.0, f.0), format!("(raise {} {})", e.1, f.1))
            }
        },
        6 => {
            let e = ex();
            if pick(2) == 0 {
                (format!("assert {}", e.0), format!("(assert {} -)", e.1))
            } else {
                let f = ex();
                (format!("assert {}, {}", e.0, f.0), format!("(assert {} {})", e.1, f.1))
            }
        }
        7 => [(format!("global {a}"), format!("(global [{a}])")), (format!("global {a}, {b}"), format!("(global [{a} {b}])"))][pick(2)].clone(),
        8 => {
            let d = del_targets(n, 1);
            (format!("del {}", d.0), format!("(del {})", d.1))
        }
        9 => {
            let t = type_params(pick(2));
            let e = ex();
            (format!("type {a}{} = {}", t.0, e.0), format!("(type {a} {} {})", t.1, e.1))
        }
        10 => yields(n),
        11 => star_exprs(n),
        _ => {
            let e = ex_base();
            (format!("await {}", e.0), format!("(await {})", e.1))
        }
    }
}

/// an assignment with up to n targets, nested to a depth
pub fn assignment(n: usize, depth: usize) -> P {
    let (a, b) = (nm(), nm());
    let single = |k: usize| -> P {
        match k {
            0 => (a.clone(), format!("(def {a})")),
            1 => (format!("{a}.{b}"), format!("(attr (. {a} {b}) {b})")),
            2 => (format!("{a}[{b}]"), format!("(index (sub {a} {b}))")),
            _ => (format!("({a})"), format!("(def {a})")),
        }
    };
    match pick(3) {
        0 => {
            let v: Vec<P> = (0..1 + pick(n)).map(|_| star_targets(n, depth)).collect();
            let r = right(1);
            (format!("{} = {}", texts(&v, " = "), r.0), format!("(= [{}] {})", exps(&v), r.1))
        }
        1 => {
            let t = single(pick(4));
            let an = ex();
            if pick(2) == 0 {
                (format!("{}: {}", t.0, an.0), format!("(: {} {} -)", t.1, an.1))
            } else {
                let r = right(2);
                (format!("{}: {} = {}", t.0, an.0, r.0), format!("(: {} {} {})", t.1, an.1, r.1))
            }
        }
        _ => {
            let t = single(pick(4));
            let (o, m, _) = BIN[pick(13)];
            let r = right(2);
            (format!("{} {o}= {}", t.0, r.0), format!("({o}= __i{m}__ __{m}__ __r{m}__ {} {})", t.1, r.1))
        }
    }
}

/// a compound statement (kinds: 0 = any but match) with up to n repetitions
pub fn compound(kind: usize, n: usize, indent: usize) -> P {
    let p = pad(indent);
    // one of the blocks is any block
    let any = pick(3);
    let mut number = 0;
    let mut body = || {
        number += 1;
        if number - 1 == any { body(indent) } else { block(indent, number % 2 * 2) }
    };
    let mut s;
    let k = if kind == 0 { pick(5) } else { kind - 1 };
    match k {
        0 => {
            let (c, b) = (nex(), body());
            s = (format!("if {}:{}", c.0, b.0), format!("(if [({} {})", c.1, b.1));
            for _ in 0..pick(n + 1) {
                let (c, b) = (nex(), body());
                s.0.push_str(&format!("{p}elif {}:{}", c.0, b.0));
                s.1.push_str(&format!(" ({} {})", c.1, b.1));
            }
            if pick(2) == 1 {
                let b = body();
                s.0.push_str(&format!("{p}else:{}", b.0));
                s.1.push_str(&format!(" (else {})", b.1));
            }
            s.1.push_str("])");
        }
        1 | 2 => {
            if k == 1 {
                let (c, b) = (nex(), body());
                s = (format!("while {}:{}", c.0, b.0), format!("(while {} {}", c.1, b.1));
            } else {
                let (t, e, b) = (star_targets(n, 1), star_exprs(n), body());
                s = (format!("for {} in {}:{}", t.0, e.0, b.0), format!("(for {} {} {}", t.1, e.1, b.1));
            }
            if pick(2) == 1 {
                let b = body();
                s.0.push_str(&format!("{p}else:{}", b.0));
                s.1.push_str(&format!(" {})", b.1));
            } else {
                s.1.push_str(" -)");
            }
            if k == 2 && pick(2) == 1 {
                s = (format!("async {}", s.0), format!("(async {})", s.1));
            }
        }
        3 => {
            let v: Vec<P> = (0..1 + pick(n))
                .map(|_| {
                    let e = ex();
                    if pick(2) == 1 {
                        let t = star_target(1, false);
                        (format!("{} as {}", e.0, t.0), format!("({} {})", e.1, t.1))
                    } else {
                        (e.0, format!("({} -)", e.1))
                    }
                })
                .collect();
            let items = texts(&v, ", ");
            // parentheses around all items belong to the statement
            zsym::assume(!(v.len() == 1 && v[0].1.starts_with("((tuple") && v[0].1.ends_with(" -)")));
            let t = match pick(3) {
                0 => items,
                1 => format!("({items})"),
                _ => format!("(\n{items},\n)"),
            };
            let b = body();
            s = (format!("with {t}:{}", b.0), format!("(with [{}] {})", exps(&v), b.1));
            if pick(2) == 1 {
                s = (format!("async {}", s.0), format!("(async {})", s.1));
            }
        }
        _ => {
            let b = body();
            s = (format!("try:{}", b.0), format!("(try [(try {})", b.1));
            let ex_n = pick(n + 1);
            let star = ex_n > 0 && pick(2) == 1;
            for i in 0..ex_n {
                let b = body();
                let k = pick(4);
                if k == 0 && (star || i + 1 < ex_n) {
                    zsym::assume(false);
                }
                let (e, f, a) = (ex(), ex(), nm());
                let (t, x) = match k {
                    0 => (String::new(), "-".to_string()),
                    1 => (format!(" {}", e.0), format!("[{}]", e.1)),
                    2 => (format!(" {}, {}", e.0, f.0), format!("[{} {}]", e.1, f.1)),
                    _ => (format!(" {} as {a}", e.0), format!("(as {} {a})", e.1)),
                };
                let st = if star { "*" } else { "" };
                s.0.push_str(&format!("{p}except{st}{t}:{}", b.0));
                s.1.push_str(&format!(" (except{st} {x} {})", b.1));
            }
            if ex_n > 0 && pick(2) == 1 {
                let b = body();
                s.0.push_str(&format!("{p}else:{}", b.0));
                s.1.push_str(&format!(" (else {})", b.1));
            }
            if ex_n == 0 || pick(2) == 1 {
                let b = body();
                s.0.push_str(&format!("{p}finally:{}", b.0));
                s.1.push_str(&format!(" (finally {})", b.1));
            }
            s.1.push_str("])");
        }
    }
    s
}

/// a literal in a pattern
fn literal() -> P {
    [
        ("1", "(int 1)"),
        ("-1", "(int 1 neg)"),
        ("1.5", "(float 1.5)"),
        ("-2j", "(complex 2j neg)"),
        ("-1+2j", "(complex-number -1+2j)"),
        ("'a' 'b'", "(str ['a' 'b'])"),
        ("b'a'", "(bytes b'a')"),
        ("None", "None"),
        ("True", "(bool true)"),
        ("False", "(bool false)"),
    ]
    .map(|(a, b)| (a.to_string(), b.to_string()))[pick(10)]
    .clone()
}

/// a pattern without `as` and `|`
fn closed(n: usize, depth: usize) -> P {
    let (a, b, c) = (nm(), nm(), nm());
    let k = pick(if depth == 0 { 4 } else { 9 });
    match k {
        0 => (a.clone(), format!("(def {a})")),
        1 => ("_".into(), "_".into()),
        2 => literal(),
        3 => [(format!("{a}.{b}"), format!("(dotted {a}.{b})")), (format!("{a}.{b}.{c}"), format!("(dotted {a}.{b}.{c})"))][pick(2)].clone(),
        4 => {
            let p = pattern(n, depth - 1);
            (format!("({})", p.0), format!("(paren {})", p.1))
        }
        5 | 6 => {
            let v = seq(pick(n + 1), n, depth - 1);
            let (o, e) = [("(", ")"), ("[", "]")][k - 5];
            let comma = if v.is_empty() { "" } else if k == 5 && v.len() == 1 { "," } else { ["", ","][pick(2)] };
            (format!("{o}{}{comma}{e}", texts(&v, ", ")), format!("(seq [{}])", exps(&v)))
        }
        7 => {
            let m = pick(n + 1);
            let mut v: Vec<P> = (0..m)
                .map(|_| {
                    let key = if pick(2) == 0 { literal() } else { (format!("{a}.{b}"), format!("(dotted {a}.{b})")) };
                    let p = pattern(n, depth - 1);
                    (format!("{}: {}", key.0, p.0), format!("({} : {})", key.1, p.1))
                })
                .collect();
            if pick(2) == 1 {
                v.push((format!("**{c}"), format!("(** {c})")));
            }
            let comma = if v.is_empty() { "" } else { ["", ","][pick(2)] };
            (format!("{{{}{comma}}}", texts(&v, ", ")), format!("(map [{}])", exps(&v)))
        }
        _ => {
            let name = [a.clone(), format!("{a}.{b}")][pick(2)].clone();
            let pos = pick(n + 1);
            let mut v: Vec<P> = (0..pos).map(|_| pattern(n, depth - 1)).collect();
            for _ in 0..pick(n + 1) {
                let k = nm();
                let p = pattern(n, depth - 1);
                v.push((format!("{k}={}", p.0), format!("({k}= {})", p.1)));
            }
            let comma = if v.is_empty() { "" } else { ["", ","][pick(2)] };
            (format!("{name}({}{comma})", texts(&v, ", ")), format!("(class {name} [{}])", exps(&v)))
        }
    }
}

fn pattern(n: usize, depth: usize) -> P {
    let first = closed(n, depth);
    let mut p = first;
    if depth > 0 {
        let m = pick(n);
        if m > 0 {
            let mut v = vec![p];
            for _ in 0..m {
                v.push(closed(n, depth - 1));
            }
            p = (texts(&v, " | "), format!("(| [{}])", exps(&v)));
        }
    }
    if pick(2) == 1 {
        let a = nm();
        p = (format!("{} as {a}", p.0), format!("(as {} {a})", p.1));
    }
    p
}

fn seq(m: usize, n: usize, depth: usize) -> Vec<P> {
    let star = if pick(2) == 1 && m > 0 { pick(m) } else { usize::MAX };
    (0..m)
        .map(|i| {
            if i == star {
                let a = nm();
                [(format!("*{a}"), format!("(*def {a})")), ("*_".into(), "(*_)".into())][pick(2)].clone()
            } else {
                pattern(n, depth)
            }
        })
        .collect()
}

/// a match statement with up to m cases
pub fn match_stmt(m: usize, n: usize, depth: usize) -> P {
    let subject = {
        let (a, b) = (nm(), nm());
        match if depth > 0 { 0 } else { pick(4) } {
            0 => (a.clone(), a),
            1 => (format!("{a}, {b}"), format!("(tuple [{a} {b}])")),
            2 => (format!("*{a},"), format!("(tuple [(* {a})])")),
            _ => (format!("{a} := {b}"), format!("(:= {a} {b})")),
        }
    };
    let (mut text, mut out) = (format!("match {}:\n", subject.0), format!("(match {} [", subject.1));
    for i in 0..1 + pick(m) {
        let (t, x) = if pick(2) == 0 {
            pattern(n, depth)
        } else {
            let v = seq(1 + pick(n), n, depth.saturating_sub(1));
            let comma = if v.len() == 1 { "," } else { ["", ","][pick(2)] };
            (format!("{}{comma}", texts(&v, ", ")), format!("(seq [{}])", exps(&v)))
        };
        let g = (depth == 0 && pick(2) == 1).then(nm);
        let b = if m == 1 { (" pass\n".to_string(), "[pass]".to_string()) } else { body(1) };
        text.push_str(&format!("    case {t}{}:{}", g.as_ref().map_or(String::new(), |g| format!(" if {g}")), b.0));
        if i > 0 {
            out.push(' ');
        }
        out.push_str(&format!("(case {x} {} {})", g.as_deref().unwrap_or("-"), b.1));
    }
    out.push_str("])");
    (text, out)
}
