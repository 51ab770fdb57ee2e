//! How operators nest: a reference parser written from the precedence table of the language reference.
use parsa_python::PyNode;

/// the structure of a tree: leaves as text, nodes with several children in parentheses
pub fn canon(n: PyNode, out: &mut String) {
    if n.is_leaf() {
        out.push_str(n.as_code());
        return;
    }
    let c: Vec<_> = n.iter_children().collect();
    if c.len() == 1 {
        return canon(c[0], out);
    }
    out.push('(');
    for (i, c) in c.into_iter().enumerate() {
        if i > 0 {
            out.push(' ');
        }
        canon(c, out);
    }
    out.push(')');
}

pub struct R<'a> {
    pub t: &'a [&'static str],
    pub i: usize,
}

type S = Option<String>;

impl R<'_> {
    fn is(&self, s: &str) -> bool {
        self.t.get(self.i) == Some(&s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.is(s);
        self.i += r as usize;
        r
    }
    pub fn expression(&mut self) -> S {
        if self.eat("lambda") {
            if !self.eat(":") {
                return None;
            }
            return Some(format!("(lambda : {})", self.expression()?));
        }
        let a = self.level(0)?;
        if self.eat("if") {
            let b = self.level(0)?;
            if !self.eat("else") {
                return None;
            }
            let c = self.expression()?;
            return Some(format!("({a} if {b} else {c})"));
        }
        Some(a)
    }
    /// from weakest to strongest: or, and, not, comparisons, |, ^, &, shifts, + -, * @ / % //
    fn level(&mut self, l: usize) -> S {
        const BIN: &[&[&str]] = &[&["or"], &["and"], &[], &[], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "@", "/", "%", "//"]];
        match l {
            2 => {
                if self.eat("not") {
                    return Some(format!("(not {})", self.level(2)?));
                }
                return self.level(3);
            }
            3 => {
                let mut parts = vec![self.level(4)?];
                loop {
                    let op = if self.eat("not") {
                        if !self.eat("in") {
                            return None;
                        }
                        "(not in)"
                    } else if self.eat("is") {
                        if self.eat("not") { "(is not)" } else { "is" }
                    } else if let Some(o) = ["<", ">", "==", ">=", "<=", "!=", "in"].into_iter().find(|o| self.is(o)) {
                        self.i += 1;
                        o
                    } else {
                        break;
                    };
                    parts.push(op.to_string());
                    parts.push(self.level(4)?);
                }
                return Some(if parts.len() == 1 { parts.pop()? } else { format!("({})", parts.join(" ")) });
            }
            10 => return self.factor(),
            _ => (),
        }
        let mut a = self.level(l + 1)?;
        while let Some(o) = BIN[l].iter().find(|o| self.is(o)) {
            self.i += 1;
            let b = self.level(l + 1)?;
            a = format!("({a} {o} {b})");
        }
        Some(a)
    }
    fn factor(&mut self) -> S {
        for u in ["+", "-", "~"] {
            if self.eat(u) {
                return Some(format!("({u} {})", self.factor()?));
            }
        }
        let a = if self.eat("await") { format!("(await {})", self.primary()?) } else { self.primary()? };
        if self.eat("**") {
            return Some(format!("({a} ** {})", self.factor()?));
        }
        Some(a)
    }
    fn primary(&mut self) -> S {
        let mut a = self.atom()?;
        loop {
            if self.eat(".") {
                let t = self.t.get(self.i)?;
                if !t.as_bytes()[0].is_ascii_lowercase() || t.len() > 1 {
                    return None;
                }
                self.i += 1;
                a = format!("({a} . {t})");
            } else if self.eat("(") {
                if self.eat(")") {
                    a = format!("({a} ( ))");
                } else {
                    let e = self.expression()?;
                    if !self.eat(")") {
                        return None;
                    }
                    a = format!("({a} ( {e} ))");
                }
            } else if self.eat("[") {
                let e = self.expression()?;
                if !self.eat("]") {
                    return None;
                }
                a = format!("({a} [ {e} ])");
            } else {
                return Some(a);
            }
        }
    }
    fn atom(&mut self) -> S {
        if self.eat("(") {
            let e = self.expression()?;
            return if self.eat(")") { Some(format!("(( {e} ))")) } else { None };
        }
        let t = self.t.get(self.i)?;
        if t.len() == 1 && t.as_bytes()[0].is_ascii_lowercase() {
            self.i += 1;
            return Some(t.to_string());
        }
        None
    }
}

pub const UNARY: &[&str] = &["", "not", "-", "await", "lambda :", "~", "+", "("];
/// one operator of each level, then the others
pub const BINARY: &[&str] = &[
    "or", "and", "<", "not in", "is not", "|", "^", "&", "<<", "+", "*", "**", "if", "else", ".", "(", ")", "[", "]", // 19
    ">>", "-", "/", "//", "%", "@", "in", "is", "==", "!=", ">", "<=", ">=", "not",
];
