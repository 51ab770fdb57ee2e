//! Tokens: a reference lexer written from "Lexical analysis" of the language reference.

pub const BYTES: &[u8] = b"a01.='\"_r-*<>:!(\\# +e,xb/;)[{u|@~$\x0cjo9RB%&^]}?`Uto";
pub const LEXEMES: &[&str] = &[
    "a", "1", "'a'", ".", "=", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "<<=", ">>=", "*", "**", "*=", "**=", "/", "//", "/=", "//=", "+", "+=", "-", "-=", "->", "%", "%=", "&", "&=", "|",
    "|=", "^", "^=", "~", "@", "@=", ":", ":=", ";", ",", "...", "(", ")", "[", "]", "{", "}", // 50
    "''", "\"\"", "'''a'''", "\"\"\"a\"\"\"", "'''a\"'''", "\"\"\"'a\"\"\"", "'\\''", "\"\\\"\"", "'''\\''''", "'\"'", "\"'\"", "r'\\''", "R'a'", "u'a'", "U\"a\"", "b'a'", "B'a'", "br'a'", "bR'a'", "Br'a'",
    "BR'a'", "rb'a'", "rB'a'", "Rb'a'", "RB\"a\"", "t'a'", "T'a'", "ur'a'", "bu'a'", "rr'a'", "'a", "'''a''", "0", "00", "01", "1_0", "1__0", "1_", "1.", "1.5", ".5", "1e5", "1E+5", "1e-5", "1.e5",
    "1j", "1.5J", "0x1F", "0X_1f", "0o17", "0O8", "0b10", "0B2", "1e", "_", "__a", "a1", "_1", "\u{e9}", "a\u{e9}", "\u{1d400}", "if", "not", "in", "None", "async", "match", "type", "_a", "x", "e5", "j", "!", "$", "?", "\\",
    "#a", " ", "\t", "\x0c",
];

#[derive(PartialEq, Clone, Copy)]
pub enum Kind {
    Name,
    Keyword,
    Number,
    Str,
    Bytes,
    Op,
}

pub enum Lexed {
    Tokens(Vec<(usize, usize, Kind)>),
    Error,
    /// f-strings are not judged here
    Unclear,
}

const KEYWORDS: &[&str] = &[
    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in",
    "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield",
];
const OPS: &[&[u8]] = &[
    b"**=", b"//=", b">>=", b"<<=", b"...", b"==", b"!=", b"<=", b">=", b"<<", b">>", b"**", b"*=", b"//", b"/=", b"+=", b"-=", b"->", b"%=", b"&=", b"|=", b"^=", b"@=", b":=", b"=", b"<", b">",
    b"*", b"/", b"+", b"-", b"%", b"&", b"|", b"^", b"~", b"@", b":", b";", b",", b".", b"(", b")", b"[", b"]", b"{", b"}",
];

fn digits(s: &[u8], mut i: usize, ok: fn(u8) -> bool) -> Option<usize> {
    if i >= s.len() || !ok(s[i]) {
        return None;
    }
    i += 1;
    loop {
        if i < s.len() && ok(s[i]) {
            i += 1;
        } else if i + 1 < s.len() && s[i] == b'_' && ok(s[i + 1]) {
            i += 2;
        } else {
            return Some(i);
        }
    }
}

fn dec(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
fn hex(b: u8) -> bool {
    dec(b) || b >= b'a' && b <= b'f' || b >= b'A' && b <= b'F'
}
fn oct(b: u8) -> bool {
    b >= b'0' && b <= b'7'
}
fn bin(b: u8) -> bool {
    b == b'0' || b == b'1'
}

/// end of the longest number; Err: not a valid one
fn number(s: &[u8], i: usize) -> Result<usize, ()> {
    let at = |k: usize| if k < s.len() { s[k] | 0x20 } else { 0 };
    if s[i] == b'0' && (at(i + 1) == b'x' || at(i + 1) == b'o' || at(i + 1) == b'b') {
        let ok = match at(i + 1) {
            b'x' => hex,
            b'o' => oct,
            _ => bin,
        };
        let k = if i + 2 < s.len() && s[i + 2] == b'_' { i + 3 } else { i + 2 };
        return digits(s, k, ok).ok_or(());
    }
    let mut e = i;
    let mut float = false;
    if let Some(k) = digits(s, i, dec) {
        e = k;
    }
    let int_end = e;
    if e < s.len() && s[e] == b'.' {
        float = true;
        e = digits(s, e + 1, dec).unwrap_or(e + 1);
    }
    if at(e) == b'e' {
        let sign = e + 1 < s.len() && (s[e + 1] == b'+' || s[e + 1] == b'-');
        if let Some(k) = digits(s, e + 1 + sign as usize, dec) {
            float = true;
            e = k;
        }
    }
    if at(e) == b'j' {
        float = true;
        e += 1;
    }
    // no leading zeros in decimal integers
    if !float && s[i] == b'0' && s[i..int_end].iter().any(|c| *c != b'0' && *c != b'_') {
        return Err(());
    }
    Ok(e)
}

fn is_name(b: u8, first: bool) -> bool {
    b >= b'a' && b <= b'z' || b >= b'A' && b <= b'Z' || b == b'_' || b >= 0x80 || !first && dec(b)
}

pub fn lex(s: &[u8]) -> Lexed {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        if b == b' ' || b == b'\t' || b == 0x0c {
            i += 1;
            continue;
        }
        if b == b'#' {
            break;
        }
        if b == b'\\' && i + 1 == s.len() {
            // a continuation line without a next line
            return Lexed::Unclear;
        }
        if dec(b) || b == b'.' && i + 1 < s.len() && dec(s[i + 1]) {
            let Ok(e) = number(s, i) else { return Lexed::Error };
            // 1a, 1_: not a number, but 1if is two tokens
            if e < s.len() && is_name(s[e], false) {
                let mut k = e;
                while k < s.len() && is_name(s[k], false) {
                    k += 1;
                }
                if !["and", "else", "for", "if", "in", "is", "or", "not"].iter().any(|w| w.as_bytes() == &s[e..k]) {
                    return Lexed::Error;
                }
            }
            out.push((i, e, Kind::Number));
            i = e;
            continue;
        }
        let mut e = i;
        while e < s.len() && is_name(s[e], e == i) {
            e += 1;
        }
        if e < s.len() && (s[e] == b'\'' || s[e] == b'"') {
            // a string with or without a prefix
            let low: Vec<u8> = s[i..e].iter().map(|c| c | 0x20).collect();
            let kind = match &low[..] {
                b"" | b"r" | b"u" | b"t" => Some(Kind::Str),
                b"b" | b"br" | b"rb" => Some(Kind::Bytes),
                _ => None,
            };
            if low.contains(&b'f') || low.len() == 2 && low.contains(&b't') {
                return Lexed::Unclear;
            }
            if let Some(kind) = kind {
                let q = s[e];
                let triple = e + 2 < s.len() && s[e + 1] == q && s[e + 2] == q;
                let mut k = e + if triple { 3 } else { 1 };
                loop {
                    if k >= s.len() {
                        return Lexed::Error;
                    }
                    if s[k] == b'\\' {
                        k += 2;
                        continue;
                    }
                    if s[k] == q {
                        if !triple {
                            k += 1;
                            break;
                        }
                        if k + 2 < s.len() && s[k + 1] == q && s[k + 2] == q {
                            k += 3;
                            break;
                        }
                    }
                    k += 1;
                }
                out.push((i, k, kind));
                i = k;
                continue;
            }
        }
        if e > i {
            let kw = KEYWORDS.iter().any(|w| w.as_bytes() == &s[i..e]);
            out.push((i, e, if kw { Kind::Keyword } else { Kind::Name }));
            i = e;
            continue;
        }
        let Some(op) = OPS.iter().find(|o| s[i..].starts_with(o)) else { return Lexed::Error };
        out.push((i, i + op.len(), Kind::Op));
        i += op.len();
    }
    Lexed::Tokens(out)
}
