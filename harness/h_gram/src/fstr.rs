//! f-strings: a reference written from PEP 701 for texts over a small alphabet.

pub const PREFIXES: &[&str] = &["f", "rf", "F", "fR"];
pub const QUOTES: &[&str] = &["'", "\"\"\"", "\"", "'''"];
/// most structural first
pub const PIECES: &[&str] = &[
    "{", "}", "v", ":", "!r", "=", "'", "\\", "N{v}", "a", " ", "\"", "[", "]", "!=", "(", ")", ",", "\n", "f'", "1", ":=", "\u{e9}", "{{", "}}", "{v}", "{v:", "'q'",
];

#[derive(Default)]
pub struct Ref {
    s: Vec<u8>,
    i: usize,
    /// every replacement field: (start, end), outer before inner
    pub fields: Vec<(usize, usize)>,
    /// the literal text of all f-strings as it is written
    pub literal: Vec<u8>,
    /// something this reference has no opinion about
    pub unclear: bool,
}

impl Ref {
    pub fn new(s: &str) -> Self {
        Ref { s: s.as_bytes().to_vec(), ..Default::default() }
    }
    fn at(&self, p: &str) -> bool {
        self.s[self.i..].starts_with(p.as_bytes())
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.at(p);
        if r {
            self.i += p.len();
        }
        r
    }
    fn space(&mut self) {
        while self.at(" ") || self.at("\n") || self.at("\\\n") {
            self.i += if self.at("\\") { 2 } else { 1 };
        }
    }
    /// one f-string that is the whole text
    pub fn whole(&mut self) -> bool {
        let r = self.fstring();
        // more text behind it: no opinion
        self.unclear |= r && self.i < self.s.len();
        r
    }
    fn fstring(&mut self) -> bool {
        let mut raw = false;
        while self.i < self.s.len() && self.s[self.i].is_ascii_alphabetic() {
            raw |= self.s[self.i] == b'r' || self.s[self.i] == b'R';
            self.i += 1;
        }
        for q in ["'''", "\"\"\"", "'", "\""] {
            if self.eat(q) {
                return self.content(q, raw, false);
            }
        }
        false
    }
    fn content(&mut self, quote: &str, raw: bool, spec: bool) -> bool {
        loop {
            if self.i >= self.s.len() {
                return false;
            }
            if self.at(quote) {
                self.i += quote.len();
                return !spec;
            }
            if spec && self.at("}") {
                return true;
            }
            if !spec && (self.at("{{") || self.at("}}")) {
                self.literal.extend_from_slice(&self.s[self.i..self.i + 2]);
                self.i += 2;
                continue;
            }
            if self.at("{") {
                if !self.field(quote, raw) {
                    return false;
                }
                continue;
            }
            if self.at("}") {
                return false;
            }
            if self.at("\n") && (quote.len() == 1 || spec) {
                self.unclear |= spec;
                return false;
            }
            let mut n = 1;
            if self.at("\\") {
                if !raw && self.at("\\N{v}") {
                    n = 5;
                } else if !raw && self.at("\\N") {
                    return false;
                } else if self.i + 1 < self.s.len() && self.s[self.i + 1] != b'{' && self.s[self.i + 1] != b'}' {
                    n = 2;
                }
            }
            if self.i + n > self.s.len() {
                return false;
            }
            self.literal.extend_from_slice(&self.s[self.i..self.i + n]);
            self.i += n;
        }
    }
    fn field(&mut self, quote: &str, raw: bool) -> bool {
        let k = self.fields.len();
        self.fields.push((self.i, 0));
        self.i += 1;
        if !self.tuple() {
            return false;
        }
        if self.at("=") && !self.at("==") {
            self.i += 1;
            self.space();
        }
        if self.eat("!r") {
            if self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] >= 0x80) {
                // not a conversion, but a name
                self.unclear = true;
                return false;
            }
            self.space();
        }
        if self.eat(":") && !self.content(quote, raw, true) {
            return false;
        }
        self.fields[k].1 = self.i + 1;
        self.eat("}")
    }
    /// a, b
    fn tuple(&mut self) -> bool {
        loop {
            if !self.comparison() {
                return false;
            }
            if !self.eat(",") {
                return true;
            }
            self.space();
            if self.at("}") || self.at("=") || self.at("!r") || self.at(":") || self.at(")") || self.at("]") {
                return true;
            }
        }
    }
    fn comparison(&mut self) -> bool {
        loop {
            if !self.primary() {
                return false;
            }
            if !self.eat("!=") && !self.eat("==") {
                return true;
            }
        }
    }
    fn primary(&mut self) -> bool {
        self.space();
        let c = if self.i < self.s.len() { self.s[self.i] } else { return false };
        match c {
            b'(' => {
                self.i += 1;
                if !self.inside(")", false) {
                    return false;
                }
            }
            b'[' => {
                self.i += 1;
                if !self.inside("]", false) {
                    return false;
                }
            }
            b'{' => {
                // a set or a dict: no opinion
                self.unclear = true;
                return false;
            }
            b'1' => {
                while self.at("1") {
                    self.i += 1;
                }
                if self.i < self.s.len() && (self.s[self.i].is_ascii_alphabetic() || self.s[self.i] >= 0x80) {
                    return false;
                }
            }
            b'\'' | b'"' => {
                if !self.strings() {
                    return false;
                }
            }
            _ if c.is_ascii_alphabetic() || c >= 0x80 => {
                let start = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] >= 0x80) {
                    self.i += 1;
                }
                if self.at("'") || self.at("\"") {
                    if self.i - start == 1 && (c == b'f' || c == b'r') {
                        self.i = start;
                        if !self.strings() {
                            return false;
                        }
                    } else {
                        return false;
                    }
                }
            }
            _ => return false,
        }
        loop {
            self.space();
            if self.eat("[") {
                self.space();
                if !self.inside("]", true) {
                    return false;
                }
            } else if self.eat("(") {
                if !self.inside(")", false) {
                    return false;
                }
            } else {
                return true;
            }
        }
    }
    /// the rest behind an opening bracket
    fn inside(&mut self, close: &str, subscript: bool) -> bool {
        self.space();
        if self.eat(close) {
            return !subscript;
        }
        loop {
            if !(subscript && self.at(":") && !self.at(":=")) && !self.named() {
                return false;
            }
            if subscript && self.at(":") {
                self.unclear = true;
                return false;
            }
            if self.at("=") && !self.at("==") {
                // a keyword argument
                self.unclear = true;
                return false;
            }
            if self.eat(close) {
                return true;
            }
            if !self.eat(",") {
                return false;
            }
            self.space();
            if self.eat(close) {
                return true;
            }
        }
    }
    fn named(&mut self) -> bool {
        let start = self.i;
        if !self.comparison() {
            return false;
        }
        let name = self.s[start..self.i].iter().filter(|c| **c != b' ' && **c != b'\n' && **c != b'\\').all(|c| c.is_ascii_alphabetic() || *c >= 0x80 || *c == b'1');
        if self.at(":=") {
            self.i += 2;
            let ok = name && self.s[start..self.i].iter().find(|c| **c != b' ' && **c != b'\n' && **c != b'\\') != Some(&b'1');
            return self.comparison() && ok;
        }
        true
    }
    fn strings(&mut self) -> bool {
        loop {
            if self.at("f'") || self.at("f\"") || self.at("rf'") || self.at("fr'") {
                if !self.fstring() {
                    return false;
                }
            } else if self.at("'") || self.at("\"") {
                let q = if self.at("'''") {
                    "'''"
                } else if self.at("\"\"\"") {
                    "\"\"\""
                } else if self.at("'") {
                    "'"
                } else {
                    "\""
                };
                self.i += q.len();
                while !self.at(q) {
                    if self.at("\\") {
                        if self.at("\\N") && !self.at("\\N{v}") {
                            return false;
                        }
                        self.i += 1;
                    } else if self.at("\n") && q.len() == 1 {
                        return false;
                    }
                    self.i += 1;
                    if self.i >= self.s.len() {
                        return false;
                    }
                }
                self.i += q.len();
            } else if self.at("r'") {
                self.unclear = true;
                return false;
            } else {
                return true;
            }
            self.space();
        }
    }
}
