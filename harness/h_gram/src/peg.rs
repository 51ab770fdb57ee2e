//! A PEG recogniser for python.gram: the reference for what is valid Python.
use std::collections::HashMap;

#[derive(Debug)]
enum E {
    Tok(u8),
    Rule(u8),
    Seq(Vec<usize>),
    Alt(Vec<usize>),
    Opt(usize),
    Star(usize),
    Plus(usize),
    Gather(usize, usize),
    And(usize),
    Not(usize),
    Cut,
}

pub struct Peg {
    nodes: Vec<E>,
    /// (first terminals, can be empty)
    first: Vec<(u128, bool)>,
    rules: Vec<usize>,
    left: Vec<bool>,
    terms: HashMap<String, u8>,
    names: Vec<String>,
    pub start: u8,
}

#[derive(Clone, Copy)]
pub struct Tok {
    /// literal (keyword, operator, soft keyword) or class
    lit: u8,
    /// NAME, for names which are also soft keywords
    class: u8,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.b.get(self.i).unwrap_or(&0)
    }
}

impl Peg {
    pub fn new(text: &str) -> Peg {
        let mut g = Peg { nodes: vec![], first: vec![], rules: vec![], left: vec![], terms: HashMap::new(), names: vec![], start: 0 };
        let mut bodies = vec![];
        for l in text.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let (n, b) = l.split_once(':').unwrap();
            g.names.push(n.to_string());
            bodies.push(b.to_string());
        }
        for b in &bodies {
            let mut p = P { b: b.as_bytes(), i: 0 };
            let e = g.alt(&mut p);
            assert_eq!(p.peek(), 0, "{b}");
            g.rules.push(e);
        }
        g.first = (0..g.nodes.len()).map(|_| (0, false)).collect();
        loop {
            let mut changed = false;
            for i in 0..g.nodes.len() {
                let f = g.compute_first(i);
                if f != g.first[i] {
                    g.first[i] = f;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        for r in 0..g.rules.len() {
            let l = g.is_left(r);
            g.left.push(l);
        }
        g
    }

    fn add(&mut self, e: E) -> usize {
        self.nodes.push(e);
        self.nodes.len() - 1
    }

    fn term(&mut self, s: &str) -> u8 {
        let n = self.terms.len() as u8;
        *self.terms.entry(s.to_string()).or_insert(n)
    }

    fn alt(&mut self, p: &mut P) -> usize {
        let mut v = vec![self.seq(p)];
        while p.peek() == b'|' {
            p.i += 1;
            v.push(self.seq(p));
        }
        if v.len() == 1 { v[0] } else { self.add(E::Alt(v)) }
    }

    fn seq(&mut self, p: &mut P) -> usize {
        let mut v = vec![];
        while !matches!(p.peek(), 0 | b'|' | b')' | b']') {
            v.push(self.item(p));
        }
        if v.len() == 1 { v[0] } else { self.add(E::Seq(v)) }
    }

    fn item(&mut self, p: &mut P) -> usize {
        let c = p.peek();
        match c {
            b'&' => {
                p.i += 1;
                let a = self.item(p);
                return self.add(E::And(a));
            }
            b'!' => {
                p.i += 1;
                let a = self.item(p);
                return self.add(E::Not(a));
            }
            b'~' => {
                p.i += 1;
                return self.add(E::Cut);
            }
            _ => (),
        }
        let a = match c {
            b'(' => {
                p.i += 1;
                let a = self.alt(p);
                assert_eq!(p.peek(), b')');
                p.i += 1;
                a
            }
            b'[' => {
                p.i += 1;
                let a = self.alt(p);
                assert_eq!(p.peek(), b']');
                p.i += 1;
                self.add(E::Opt(a))
            }
            b'\'' | b'"' => {
                let s = p.i + 1;
                let mut e = s;
                while p.b[e] != c {
                    e += 1;
                }
                p.i = e + 1;
                let t = std::str::from_utf8(&p.b[s..e]).unwrap().to_string();
                let t = self.term(&t);
                self.add(E::Tok(t))
            }
            _ => {
                let s = p.i;
                while p.i < p.b.len() && (p.b[p.i].is_ascii_alphanumeric() || p.b[p.i] == b'_') {
                    p.i += 1;
                }
                let t = std::str::from_utf8(&p.b[s..p.i]).unwrap().to_string();
                assert!(!t.is_empty());
                match self.names.iter().position(|n| *n == t) {
                    Some(r) => self.add(E::Rule(r as u8)),
                    None => {
                        assert!(t.bytes().all(|b| b.is_ascii_uppercase()), "{t}");
                        let t = self.term(&t);
                        self.add(E::Tok(t))
                    }
                }
            }
        };
        match p.b.get(p.i) {
            Some(b'?') => {
                p.i += 1;
                self.add(E::Opt(a))
            }
            Some(b'*') => {
                p.i += 1;
                self.add(E::Star(a))
            }
            Some(b'+') => {
                p.i += 1;
                self.add(E::Plus(a))
            }
            Some(b'.') => {
                p.i += 1;
                // separator.element+
                let b = self.item(p);
                let E::Plus(b) = self.nodes[b] else { panic!() };
                self.add(E::Gather(a, b))
            }
            _ => a,
        }
    }

    fn compute_first(&self, i: usize) -> (u128, bool) {
        let f = |x: usize| self.first[x];
        match &self.nodes[i] {
            E::Tok(t) => (1u128 << *t, false),
            E::Rule(r) => f(self.rules[*r as usize]),
            E::Seq(v) => {
                let mut s = 0;
                for &x in v {
                    let (a, e) = f(x);
                    s |= a;
                    if !e {
                        return (s, false);
                    }
                }
                (s, true)
            }
            E::Alt(v) => v.iter().fold((0, false), |(s, e), &x| (s | f(x).0, e | f(x).1)),
            E::Opt(x) | E::Star(x) => (f(*x).0, true),
            E::Plus(x) => f(*x),
            E::Gather(_, x) => f(*x),
            E::And(_) | E::Not(_) | E::Cut => (0, true),
        }
    }

    /// a rule that starts with itself
    fn is_left(&self, r: usize) -> bool {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![self.rules[r]];
        while let Some(x) = todo.pop() {
            if std::mem::replace(&mut seen[x], true) {
                continue;
            }
            match &self.nodes[x] {
                E::Rule(q) => {
                    if *q as usize == r {
                        return true;
                    }
                    todo.push(self.rules[*q as usize]);
                }
                E::Seq(v) => {
                    for &y in v {
                        todo.push(y);
                        if !self.first[y].1 {
                            break;
                        }
                    }
                }
                E::Alt(v) => todo.extend(v),
                E::Opt(y) | E::Star(y) | E::Plus(y) | E::Gather(_, y) | E::And(y) | E::Not(y) => todo.push(*y),
                _ => (),
            }
        }
        false
    }

    pub fn tok(&self, s: &str) -> Tok {
        let name = self.terms["NAME"];
        let c = s.chars().next().unwrap();
        let class = if matches!(s, "NEWLINE" | "INDENT" | "DEDENT" | "ENDMARKER") {
            self.terms[s]
        } else if s.ends_with(['\'', '"']) {
            self.terms[if s.starts_with('b') { "BYTES" } else { "STRING" }]
        } else if c.is_ascii_digit() || c == '.' && s.len() > 1 && s != "..." {
            self.terms["NUMBER"]
        } else if let Some(&t) = self.terms.get(s) {
            let soft = matches!(s, "match" | "case" | "type" | "_");
            return Tok { lit: t, class: if soft { name } else { t } };
        } else if c.is_alphabetic() || c == '_' {
            name
        } else {
            255
        };
        Tok { lit: class, class }
    }

    pub fn accepts(&self, toks: &[Tok]) -> bool {
        let mut run = Run { g: self, t: toks, memo: vec![0; self.rules.len() * (toks.len() + 1)] };
        run.rule_at(self.start, 0) == Some(toks.len())
    }
}

struct Run<'a> {
    g: &'a Peg,
    t: &'a [Tok],
    /// 0 unknown, 1 failed, n + 2: ends at n
    memo: Vec<u8>,
}

impl Run<'_> {
    fn can_start(&self, e: usize, pos: usize) -> bool {
        let (f, empty) = self.g.first[e];
        if empty {
            return true;
        }
        match self.t.get(pos) {
            Some(t) if t.lit < 128 => f >> t.lit & 1 == 1 || f >> t.class & 1 == 1,
            _ => false,
        }
    }

    fn rule_at(&mut self, r: u8, pos: usize) -> Option<usize> {
        let k = r as usize * (self.t.len() + 1) + pos;
        match self.memo[k] {
            0 => (),
            1 => return None,
            n => return Some(n as usize - 2),
        }
        let body = self.g.rules[r as usize];
        if !self.g.left[r as usize] {
            let x = self.eval(body, pos);
            self.memo[k] = x.map_or(1, |e| e as u8 + 2);
            return x;
        }
        // grow the seed; what other left-recursive rules found with the old seed is forgotten
        self.memo[k] = 1;
        let mut best: Option<usize> = None;
        loop {
            let x = self.eval(body, pos);
            if x.is_none() || best.is_some_and(|b| x.unwrap() <= b) {
                self.memo[k] = best.map_or(1, |e| e as u8 + 2);
                return best;
            }
            best = x;
            for q in 0..self.g.rules.len() {
                if q != r as usize && self.g.left[q] {
                    self.memo[q * (self.t.len() + 1) + pos] = 0;
                }
            }
            self.memo[k] = best.unwrap() as u8 + 2;
        }
    }

    fn eval(&mut self, e: usize, pos: usize) -> Option<usize> {
        if !self.can_start(e, pos) {
            return None;
        }
        let g = self.g;
        match &g.nodes[e] {
            E::Tok(t) => {
                let x = self.t.get(pos)?;
                (x.lit == *t || x.class == *t).then_some(pos + 1)
            }
            E::Rule(r) => self.rule_at(*r, pos),
            E::Seq(v) => {
                let mut p = pos;
                for &x in v {
                    p = self.eval(x, p)?;
                }
                Some(p)
            }
            E::Alt(v) => {
                for &x in v {
                    // a cut forbids the alternatives behind
                    if let E::Seq(items) = &g.nodes[x] {
                        let mut p = Some(pos);
                        let mut cut = false;
                        for &y in items {
                            if let E::Cut = g.nodes[y] {
                                cut = true;
                            }
                            p = self.eval(y, p.unwrap());
                            if p.is_none() {
                                break;
                            }
                        }
                        if p.is_some() || cut {
                            return p;
                        }
                    } else if let Some(p) = self.eval(x, pos) {
                        return Some(p);
                    }
                }
                None
            }
            E::Opt(x) => Some(self.eval(*x, pos).unwrap_or(pos)),
            E::Star(x) => {
                let mut p = pos;
                while let Some(q) = self.eval(*x, p) {
                    p = q;
                }
                Some(p)
            }
            E::Plus(x) => {
                let mut p = self.eval(*x, pos)?;
                while let Some(q) = self.eval(*x, p) {
                    p = q;
                }
                Some(p)
            }
            E::Gather(s, x) => {
                let mut p = self.eval(*x, pos)?;
                while let Some(q) = self.eval(*s, p) {
                    let Some(q) = self.eval(*x, q) else { break };
                    p = q;
                }
                Some(p)
            }
            E::And(x) => self.eval(*x, pos).map(|_| pos),
            E::Not(x) => match self.eval(*x, pos) {
                Some(_) => None,
                None => Some(pos),
            },
            E::Cut => Some(pos),
        }
    }
}
