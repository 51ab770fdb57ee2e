//! Symbolic inputs shared by the parser harnesses. `kind` and `n` are harness
//! parameters (part of the stated bound), everything else is symbolic.

/// every ASCII byte
pub fn all_ascii() -> Vec<u8> {
    (0..=127u8).collect()
}

/// one representative of every class of characters the tokenizer treats differently
pub const STRUCT: &[u8] = b"a1_.:;,=(){}[]'\"\\#@ \t\n\r\x0cfrbNx+*!<~$";

/// templates: `\x00` marks a symbolic byte
pub const TEMPLATES: &[&str] = &[
    "f'{a\0\0\0'\n",
    "f'\0\0\0'\n",
    "f\"\"\"\0\0\0\"\"\"\n",
    "if a:\n \0\0\0b\nc\n",
    "if a:\n b\n\0\0\0c\n",
    "(a\0\0\0b\nc)\n",
    "x = \0\0\0\ny = 1\n",
    "\0\0\0",
    "def f(\0\0\0): pass\n",
    "'\0\0\0\n",
    "b'\0\0\0\n",
    "'''\0\0\0'''\n",
    "[a for b in \0\0\0]\n",
    "class A:\n def f(self):\n  \0\0\0\nx\n",
    "a\\\0\0\0b\n",
    "f'{a:\0\0\0}'\n",
    "f'{f\"{\0\0\0}\"}'\n",
    "match a:\n case \0\0\0: pass\n",
    "import \0\0\0\n",
    "x: \0\0\0\n",
    "try:\n a\n\0\0\0except b: c\n",
    "@\0\0\0\ndef f(): pass\n",
    "  \0\0\0a\n b\n",
    "\u{e9}\0\0\0\u{1d11e}\n",
];

/// more templates, for the queries of editors
pub const IDE_TEMPLATES: &[&str] = &[
    "from . import (a, \0\0\0\nx = 1\n",
    "from a.b\0\0\0 import c\n",
    "from .\0\0\0\n",
    "import a.b\0\0\0\n",
    "f(a, \0\0\0",
    "f(a, \0\0\0\ny = f(b)\n",
    "x.f(a=1, b\0\0\0)\n",
    "f(*a, **b\0\0\0\n",
    "a.b(c)[d](\0\0\0) = 1\n",
    "def f(a, b=1\0\0\0\n pass\n",
    "@d\ndef f(a, \0\0\0): pass\n",
    "class A(B, \0\0\0): pass\n",
    "f(x for x in y\0\0\0)\n",
    "def g():\n return f(\0\0\0\nh()\n",
    "lambda a, b: \0\0\0\n",
    "with a as b\0\0\0: pass\n",
    "x = 1 # type: ignore\0\0\0\ny\n",
    "x = 1 # type: ignore[a\0\0\0] # b\n",
    "# mypy: \0\0\0\nx\n",
    "import a # c\nfrom b import c\0\0\0\nx\n",
    "if x:\n    a\n  \\\n#\u{e9}\0\0\0\nb\n",
    "f'\\N{a}\0\0\0'\n",
    "f'{f\"{a}\0\0\0\"}'\n",
    "print(a\n b\0\0\0\ndef f(): pass\n",
    "a.\0\0\0\nb.c = d\n",
    "{a: b, **c, \0\0\0}\n",
    "global a\0\0\0\nnonlocal b\n",
    "def f(a: int = 1, *, b\0\0\0) -> c: ...\n",
    "*a.b\0\0\0, c = d\n",
    "for *a.b\0\0\0 in c: pass\n",
    "del (a.b\0\0\0, [c])\n",
];

pub const TOKENS: &[&str] = &[
    "a", "b.c", "1", "'s'", "f'{a}'", "(", ")", "[", "]", "{", "}", ":", ",", ";", "=", "+", "*", "**", ".", "@", "->", ":=",
    "\n", "\n ", "\n  ", "#c\n", "\\\n", "if ", "else", "elif ", "for ", " in ", "while ", "def f", "class C", "return ", "import ", "from ",
    " as ", "with ", "try", "except", "finally", "lambda ", "not ", "await ", "async ", "yield ", "match ", "case ", "type ", "pass", "del ",
    "global ", "f'", "'", "\"\"\"", "}'", "...", "/", "*a", "**a", " is ", "print", "\u{e9}", "\u{1d11e}", "\u{20ac}", "\t", "\r\n", "\x0c", "$",
];

pub fn pick_token(out: &mut String, set: &[&str]) {
    zsym::push_choice(out, set);
}

/// The input of a parser harness: a symbolic choice between
/// (a) exactly n0 arbitrary ASCII bytes, (b) exactly n1 bytes out of STRUCT,
/// (c) every template with n2 symbolic bytes out of STRUCT, (d) n3 tokens out of TOKENS
/// where n0..n3 are harness parameters (0 = leave out)
pub fn text() -> String {
    let n: Vec<usize> = (0..5).map(|i| zsym::param(i) as usize).collect();
    let kinds: Vec<u8> = (0..5u8).filter(|&i| n[i as usize] > 0).collect();
    let kind = zsym::split(zsym::one_of(&kinds) as u64) as usize;
    match kind {
        0 => zsym::ascii(n[0], &all_ascii()),
        1 => zsym::ascii(n[1], STRUCT),
        2 => {
            let t = zsym::split(zsym::range(0, TEMPLATES.len() as u8 - 1) as u64) as usize;
            fill(TEMPLATES[t], STRUCT, n[2])
        }
        4 => {
            let t = zsym::split(zsym::range(0, IDE_TEMPLATES.len() as u8 - 1) as u64) as usize;
            fill(IDE_TEMPLATES[t], STRUCT, n[4])
        }
        _ => {
            let mut s = String::new();
            for _ in 0..n[3] {
                pick_token(&mut s, TOKENS);
            }
            s
        }
    }
}

/// replace the first `m` holes by symbolic bytes, drop the others
pub fn fill(t: &str, alphabet: &[u8], m: usize) -> String {
    let mut v = vec![];
    let mut k = 0;
    for &b in t.as_bytes() {
        if b == 0 {
            if k < m {
                v.push(zsym::one_of(alphabet));
            }
            k += 1;
        } else {
            v.push(b);
        }
    }
    // holes are ASCII and the rest of the template is valid UTF-8
    unsafe { String::from_utf8_unchecked(v) }
}
