//! Values of literals: strings, bytes and numbers, against a reference decoder
//! written from the Python language reference.
use parsa_python_cst::{AtomContent, Tree};
zsym::entries!(h_str, h_bytes, h_concat, h_num, h_bignum, h_content, h_doc);

fn warm() {
    let t = Tree::parse("x = f'{a:1}' 'a' b'' 1\n".into());
    std::hint::black_box(&t);
    zsym::begin();
}

const HEX: &[u8] = b"0123456789abcdefABCDEFgG";
const HEX_ONLY: &[u8] = b"0123456789abcdefABCDEF";
const PIECES: &[&str] = &[
    "a", "\\", "'", "\"", "n", "x", "u", "U", "N", "{", "}", "0", "7", "8", "f", "F", "\n", "\r", "\r\n", "\\\r\n", "z", "\u{e9}", "\u{1d11e}", "#",
];

/// the body of a literal; `p` free pieces or one escape with symbolic digits
fn body(p: usize) -> String {
    let mut s = String::new();
    let kind = zsym::split(zsym::range(0, 6) as u64);
    let mut push = |alpha: &[u8], n: usize| s.push_str(&zsym::ascii(n, alpha));
    match kind {
        0 => {
            for _ in 0..p {
                zsym::push_choice(&mut s, PIECES);
            }
        }
        1 => {
            push(b"\\", 1);
            push(b"x", 1);
            push(HEX, 2);
            push(b"1'g", 1);
        }
        2 => {
            push(b"\\", 1);
            push(b"u", 1);
            push(HEX_ONLY, 3);
            push(HEX, 1);
            push(b"0k", 1);
        }
        3 => {
            push(b"\\", 1);
            push(b"U", 1);
            push(b"0", 2);
            push(b"01", 2);
            push(b"0dDf", 1);
            push(b"08fF", 3);
        }
        4 => {
            push(b"\\", 1);
            push(b"0123456789", 3);
            push(b"0z", 1);
        }
        5 => {
            push(b"a", 1);
            push(b"\\", 1);
            push(&(0..=127).collect::<Vec<u8>>(), 1);
            push(b"1", 1);
        }
        _ => {
            // truncated escapes
            push(b"\\", 1);
            push(b"xuU", 1);
            let n = zsym::split(zsym::range(0, 3) as u64) as usize;
            push(b"1f", n);
        }
    }
    s
}

/// does the literal `text` (prefix already removed) end exactly at its end?
fn closes(text: &[u8]) -> bool {
    let q = text[0];
    let triple = text.len() >= 6 && text[1] == q && text[2] == q;
    let n = if triple { 3 } else { 1 };
    let mut i = n;
    while i < text.len() {
        if text[i] == b'\\' {
            // "\" CR LF is one escaped newline
            i += if i + 2 < text.len() && text[i + 1] == b'\r' && text[i + 2] == b'\n' { 3 } else { 2 };
            continue;
        }
        if !triple && (text[i] == b'\n' || text[i] == b'\r') {
            return false;
        }
        if text[i] == q && (!triple || (i + 2 < text.len() && text[i + 1] == q && text[i + 2] == q)) {
            return i + n == text.len();
        }
        i += 1;
    }
    false
}

fn normalize(body: &str) -> Vec<char> {
    let mut v = vec![];
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            v.push('\n');
        } else {
            v.push(c);
        }
    }
    v
}

/// None: not a valid literal, or a value that the implementation cannot represent
fn decode(body: &str, raw: bool, bytes: bool) -> Option<Vec<u32>> {
    let b = normalize(body);
    if raw {
        return Some(b.iter().map(|&c| c as u32).collect());
    }
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        if c != '\\' {
            out.push(c as u32);
            continue;
        }
        let e = b[i];
        i += 1;
        match e {
            '\n' => (),
            '\\' | '\'' | '"' => out.push(e as u32),
            'a' => out.push(7),
            'b' => out.push(8),
            'f' => out.push(12),
            'n' => out.push(10),
            'r' => out.push(13),
            't' => out.push(9),
            'v' => out.push(11),
            'N' if !bytes => return None,
            'x' | 'u' | 'U' if !(bytes && e != 'x') => {
                let n = match e {
                    'x' => 2,
                    'u' => 4,
                    _ => 8,
                };
                if i + n > b.len() {
                    return None;
                }
                let mut v = 0u64;
                for k in 0..n {
                    v = v.wrapping_mul(16) + b[i + k].to_digit(16)? as u64;
                }
                i += n;
                if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                    return None;
                }
                out.push(v as u32);
            }
            '0'..='7' => {
                let mut v = e as u32 - 48;
                let mut k = 1;
                while k < 3 && i < b.len() && ('0'..='7').contains(&b[i]) {
                    v = v * 8 + (b[i] as u32 - 48);
                    i += 1;
                    k += 1;
                }
                out.push(if bytes { v & 255 } else { v });
            }
            _ => {
                out.push('\\' as u32);
                out.push(e as u32);
            }
        }
    }
    Some(out)
}

const QUOTES: &[&str] = &["'", "\"", "'''", "\"\"\""];

fn atom<'a>(t: &'a Tree) -> Option<AtomContent<'a>> {
    t.maybe_star_expressions()?.maybe_simple_expression()?.maybe_unpacked_atom()
}

/// (source, the part after the prefix closes, body, raw)
fn literal(prefixes: &[&str]) -> (String, bool, String, bool) {
    let mut s = String::new();
    let p = zsym::push_choice(&mut s, prefixes);
    let raw = prefixes[p].contains(['r', 'R']);
    let at = s.len();
    let q = zsym::push_choice(&mut s, QUOTES);
    let b = body(zsym::param(0) as usize);
    s.push_str(&b);
    s.push_str(QUOTES[q]);
    let ok = closes(&s.as_bytes()[at..]);
    (s, ok, b, raw)
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_str() {
    warm();
    let (s, ok, b, raw) = literal(&["", "R", "u"]);
    let t = Tree::parse(s.clone().into_boxed_str());
    let lit = match atom(&t) {
        Some(AtomContent::Strings(s)) => s.maybe_single_string_literal(),
        _ => None,
    };
    if ok {
        zsym::check(lit.is_some(), "a well-formed string literal is not parsed as one");
        let lit = lit.unwrap();
        zsym::check(lit.as_code() == s, "the literal is not the whole text");
        let v = lit.as_python_string();
        let v = v.as_str();
        zsym::check(v.is_some(), "a string literal without value");
        let v = v.unwrap();
        if let Some(want) = decode(&b, raw, false) {
            zsym::cover(0);
            let got: Vec<u32> = v.chars().map(|c| c as u32).collect();
            zsym::check(got == want, "the value of the string literal is not Python's");
        }
        zsym::out_str(v);
    } else {
        // whatever is recognised instead must still be safe to look at
        for n in t.filter_all_names(None) {
            zsym::out(n.start() as u64);
        }
        if let Some(l) = lit {
            zsym::out(l.as_python_string().as_str().map(|s| s.len()).unwrap_or(0) as u64);
        }
        zsym::out(0);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_bytes() {
    warm();
    let (s, ok, b, raw) = literal(&["b", "Rb"]);
    let t = Tree::parse(s.clone().into_boxed_str());
    let lit = match atom(&t) {
        Some(AtomContent::Bytes(s)) => s.maybe_single_bytes_literal(),
        _ => None,
    };
    if ok && b.is_ascii() {
        zsym::check(lit.is_some(), "a well-formed bytes literal is not parsed as one");
    }
    if let Some(lit) = lit {
        zsym::check(!ok || lit.as_code() == s, "the literal is not the whole text");
        let v = lit.content_as_bytes();
        if ok && b.is_ascii() && let Some(want) = decode(&b, raw, true) {
            zsym::cover(0);
            let got: Vec<u32> = v.iter().map(|&c| c as u32).collect();
            zsym::check(got == want, "the value of the bytes literal is not Python's");
        }
        for b in v.iter() {
            zsym::out(*b as u64);
        }
    }
    zsym::out(1);
}

/// implicit concatenation: the value is the concatenation of the values
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_concat() {
    warm();
    const LITS: &[(&str, Option<&str>)] = &[
        ("'a'", Some("a")),
        ("'\\n'", Some("\n")),
        ("r'\\n'", Some("\\n")),
        ("''", Some("")),
        ("'''x\n'''", Some("x\n")),
        ("\"'\"", Some("'")),
        ("f'{a}'", None),
        ("f''", None),
        ("u'\\x41\u{e9}'", Some("A\u{e9}")),
        ("'''a\r\nb\\\r\nc'''", Some("a\nbc")),
    ];
    let n = zsym::param(0) as usize;
    let mut src = String::from("(");
    let mut want = Some(String::new());
    for _ in 0..n {
        let i = zsym::split(zsym::range(0, LITS.len() as u8 - 1) as u64) as usize;
        src.push_str(LITS[i].0);
        // (two quotes directly followed by a third one would start a triple-quoted string)
        zsym::push_choice(&mut src, if matches!(LITS[i].0, "''" | "f''") { &[" ", "\n"] } else { &[" ", "\n", ""] });
        want = match (want, LITS[i].1) {
            (Some(a), Some(b)) => Some(a + b),
            _ => None,
        };
    }
    src.push(')');
    let t = Tree::parse(src.into_boxed_str());
    let Some(AtomContent::NamedExpression(e)) = atom(&t) else {
        zsym::check(false, "a parenthesised concatenation is not parsed as such");
        return;
    };
    let Some(AtomContent::Strings(s)) = e.expression().maybe_unpacked_atom() else {
        zsym::check(false, "a concatenation of string literals is not parsed as such");
        return;
    };
    zsym::check(s.iter().count() == n, "the number of concatenated literals");
    let v = s.as_python_string();
    zsym::check(v.as_str() == want.as_deref(), "the value of a concatenation is not the concatenation of the values");
    zsym::out_str(v.as_str().unwrap_or("<f>"));
}

#[derive(PartialEq, Clone, Copy)]
enum Num {
    Int(u128),
    Float,
    Complex,
}

/// [0-9](_?[0-9])*  -> end
fn digits(b: &[u8], mut i: usize, base: u32) -> Option<usize> {
    let d = |i: usize| i < b.len() && (b[i] as char).is_digit(base);
    if !d(i) {
        return None;
    }
    i += 1;
    loop {
        if d(i) {
            i += 1
        } else if i < b.len() && b[i] == b'_' && d(i + 1) {
            i += 2
        } else {
            return Some(i);
        }
    }
}

fn value(b: &[u8], base: u32) -> u128 {
    let mut v = 0u128;
    for &c in b {
        if c != b'_' {
            v = v.wrapping_mul(base as u128).wrapping_add((c as char).to_digit(base).unwrap() as u128);
        }
    }
    v
}

/// the whole text as a number literal (language reference, 2.6)
fn number(b: &[u8]) -> Option<Num> {
    let n = b.len();
    if n > 2 && b[0] == b'0' {
        let base = match b[1] {
            b'x' | b'X' => 16,
            b'o' | b'O' => 8,
            b'b' | b'B' => 2,
            _ => 0,
        };
        if base > 0 {
            let from = if b[2] == b'_' { 3 } else { 2 };
            return (digits(b, from, base) == Some(n)).then(|| Num::Int(value(&b[from..], base)));
        }
    }
    let (b, imag) = match b.last() {
        Some(b'j' | b'J') => (&b[..n - 1], true),
        _ => (b, false),
    };
    let n = b.len();
    let int_end = digits(b, 0, 10);
    let mut i = int_end.unwrap_or(0);
    let mut float = false;
    if i < n && b[i] == b'.' {
        float = true;
        i += 1;
        if let Some(e) = digits(b, i, 10) {
            i = e;
        } else if int_end.is_none() {
            return None;
        }
    } else if int_end.is_none() {
        return None;
    }
    if i < n && (b[i] == b'e' || b[i] == b'E') {
        let mut k = i + 1;
        if k < n && (b[k] == b'+' || b[k] == b'-') {
            k += 1;
        }
        i = digits(b, k, 10)?;
        float = true;
    }
    if i != n {
        return None;
    }
    if imag {
        return Some(Num::Complex);
    }
    if float {
        return Some(Num::Float);
    }
    if b[0] == b'0' && b.iter().any(|&c| c != b'0' && c != b'_') {
        return None; // leading zeros are only allowed for zero
    }
    Some(Num::Int(value(b, 10)))
}

fn num_of(t: &Tree) -> Option<Num> {
    match atom(t)? {
        AtomContent::Int(i) => {
            let v = i.parse_as_big_uint().to_u64_digits();
            let mut x = 0u128;
            for (k, d) in v.iter().enumerate() {
                x += (*d as u128) << (64 * k);
            }
            Some(Num::Int(x))
        }
        AtomContent::Float(_) => Some(Num::Float),
        AtomContent::Complex(_) => Some(Num::Complex),
        _ => None,
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_num() {
    warm();
    let s = zsym::ascii(zsym::param(0) as usize, b"0123789_xXoObBaFfEe.jJ+-");
    let t = Tree::parse(s.clone().into_boxed_str());
    let got = num_of(&t);
    match number(s.as_bytes()) {
        Some(Num::Int(v)) => {
            zsym::cover(0);
            zsym::check(matches!(got, Some(Num::Int(_))), "an integer literal is not parsed as an integer");
            zsym::check(got == Some(Num::Int(v)), "the value of the integer literal is not Python's");
        }
        Some(Num::Float) => {
            zsym::cover(1);
            zsym::check(got == Some(Num::Float), "a float literal is not parsed as a float");
        }
        Some(Num::Complex) => {
            zsym::cover(2);
            zsym::check(got == Some(Num::Complex), "an imaginary literal is not parsed as such");
        }
        None => {
            zsym::cover(3);
            // ("1_" etc. are not numbers; the tree may still hold a number as a part)
            zsym::check(got.is_none(), "a text that is not a number is parsed as one");
        }
    }
    zsym::out(t.length() as u64);
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_bignum() {
    warm();
    const HEADS: &[&str] = &["0x", "0b1010_10", "0o7", "184467440737095516", "429496729", "3402823669209384634633746074317682", "0xFFFF_ffff_ffff_ff", "1_000_000_000_000", "0o1777777777777777777777"];
    let mut s = String::new();
    let h = zsym::push_choice(&mut s, HEADS);
    let alpha: &[u8] = match s.as_bytes()[1] {
        b'x' => b"0123456789abcdefABCDEF",
        b'b' => b"01",
        b'o' => b"01234567",
        _ => b"0123456789",
    };
    s.push_str(&zsym::ascii(zsym::param(0) as usize, alpha));
    let t = Tree::parse(s.clone().into_boxed_str());
    zsym::check(num_of(&t) == number(s.as_bytes()), "the value of a long integer literal is not Python's");
    zsym::out(h as u64);
    zsym::out(t.length() as u64);
}

/// `content`: the text between the quotes
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_content() {
    warm();
    let mut s = String::from("x = ");
    let lit = s.len();
    zsym::push_choice(&mut s, &["", "r", "u"]);
    let at = s.len();
    let q = zsym::push_choice(&mut s, QUOTES);
    let from = s.len();
    for _ in 0..zsym::param(0) {
        zsym::push_choice(&mut s, &["a", "\\", "'", "\"", "\n", "\u{e9}"]);
    }
    let to = s.len();
    s.push_str(QUOTES[q]);
    zsym::assume(closes(&s.as_bytes()[at..]));
    let t = Tree::parse(s.clone().into_boxed_str());
    let stmt = t.root().iter_stmt_likes().next().unwrap();
    let parsa_python_cst::StmtLikeContent::Assignment(a) = stmt.node else {
        zsym::check(false, "an assignment of a string is not parsed as one");
        return;
    };
    let e = a.right_side().and_then(|r| r.maybe_simple_expression());
    zsym::check(e.is_some(), "no right side");
    let l = e.unwrap().maybe_single_string_literal();
    zsym::check(l.is_some(), "the right side is not a string literal");
    let l = l.unwrap();
    zsym::check(l.content() == &s[from..to], "content is not the text between the quotes");
    let (a, b) = l.content_start_and_end_in_literal();
    zsym::check((a as usize, b as usize) == (from - lit, to - lit), "the range of the content");
    zsym::cover(0);
    zsym::out_str(l.content());
}

/// docstrings lose their common indentation
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_doc() {
    const PARTS: &[&str] = &[" ", "x", "\n", "\t", "\u{a0}", "\u{e9}", "\u{3000}"];
    warm();
    let mut text = String::new();
    let n = (zsym::param(1) as usize).min(PARTS.len());
    for _ in 0..zsym::param(0) {
        text.push_str(PARTS[zsym::split(zsym::range(0, n as u8 - 1) as u64) as usize]);
    }
    // the naive way
    let blank = |l: &str| l.trim().is_empty();
    let space = |l: &str| l.chars().take_while(|c| c.is_whitespace()).map(|c| c.len_utf8()).sum::<usize>();
    let margin = text.split('\n').filter(|l| !blank(l)).map(|l| space(l)).min();
    let one = !text.contains(['\u{a0}', '\u{3000}']);
    let mut want = String::new();
    for (i, l) in text.split('\n').enumerate() {
        if i > 0 {
            want.push('\n');
        }
        want.push_str(match margin {
            Some(m) if l.len() >= m && one => &l[m..],
            _ => l,
        });
    }
    let got = utils::dedent(&text);
    if one {
        zsym::check(got == want, "dedented text is not the text without its common indentation");
    } else {
        let bare = |s: &str| s.split('\n').map(|l| l.trim_start().to_string()).collect::<Vec<_>>();
        zsym::check(bare(&got) == bare(&text), "dedenting changes more than the indentation");
    }
    let code = format!("def f():\n  '''{text}'''\nf\n");
    let t = Tree::parse(code.into_boxed_str());
    let name = t.filter_all_names(None).next().unwrap();
    let doc = name.clean_docstring();
    if one {
        // (surrounding white space does not matter)
        zsym::check(doc.trim() == want.trim(), "the docstring is not its text without the common indentation");
    }
    zsym::out_str(&doc);
}
