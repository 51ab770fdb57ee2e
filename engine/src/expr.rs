//! Hash-consed bit-vector terms. Byte-sized symbolic variables carry a finite
//! domain; every term over exactly one byte variable has a cached 256-entry
//! truth table, which lets most feasibility questions be answered exactly
//! without calling the SMT solver.
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub type Ex = Rc<Node>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Debug)]
pub enum Op {
    Const(u128),
    Var(u16),
    Bin(B, Ex, Ex),
    Cmp(P, Ex, Ex),
    Ite(Ex, Ex, Ex),
    Cat(Ex, Ex), // hi, lo
    Ext(u16, Ex), // lowest bit
    ZExt(Ex),
    SExt(Ex),
    Tab(u16, Rc<[u64; 256]>), // function of one byte variable
}

pub struct Node {
    pub op: Op,
    pub w: u16,
    pub vars: Rc<[u16]>,
    pub bytevars: bool, // all variables are byte variables
    pub id: u32,
    pub table: OnceCell<Rc<[u64; 256]>>,
    pub bits: OnceCell<[u64; 4]>,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.op {
            Op::Const(c) => write!(f, "{:#x}:{}", c, self.w),
            Op::Var(v) => write!(f, "v{}", v),
            Op::Bin(b, x, y) => write!(f, "({:?} {:?} {:?})", b, x, y),
            Op::Cmp(b, x, y) => write!(f, "({:?} {:?} {:?})", b, x, y),
            Op::Ite(c, x, y) => write!(f, "(ite {:?} {:?} {:?})", c, x, y),
            Op::Cat(x, y) => write!(f, "(cat {:?} {:?})", x, y),
            Op::Ext(l, x) => write!(f, "(ext {}+{} {:?})", l, self.w, x),
            Op::ZExt(x) => write!(f, "(zext{} {:?})", self.w, x),
            Op::SExt(x) => write!(f, "(sext{} {:?})", self.w, x),
            Op::Tab(v, _) => write!(f, "(tab v{})", v),
        }
    }
}

struct Key(Ex);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        let (a, b) = (&self.0, &o.0);
        if a.w != b.w {
            return false;
        }
        match (&a.op, &b.op) {
            (Op::Const(x), Op::Const(y)) => x == y,
            (Op::Var(x), Op::Var(y)) => x == y,
            (Op::Bin(o1, x1, y1), Op::Bin(o2, x2, y2)) => o1 == o2 && Rc::ptr_eq(x1, x2) && Rc::ptr_eq(y1, y2),
            (Op::Cmp(o1, x1, y1), Op::Cmp(o2, x2, y2)) => o1 == o2 && Rc::ptr_eq(x1, x2) && Rc::ptr_eq(y1, y2),
            (Op::Ite(c1, x1, y1), Op::Ite(c2, x2, y2)) => Rc::ptr_eq(c1, c2) && Rc::ptr_eq(x1, x2) && Rc::ptr_eq(y1, y2),
            (Op::Cat(x1, y1), Op::Cat(x2, y2)) => Rc::ptr_eq(x1, x2) && Rc::ptr_eq(y1, y2),
            (Op::Ext(l1, x1), Op::Ext(l2, x2)) => l1 == l2 && Rc::ptr_eq(x1, x2),
            (Op::ZExt(x1), Op::ZExt(x2)) => Rc::ptr_eq(x1, x2),
            (Op::SExt(x1), Op::SExt(x2)) => Rc::ptr_eq(x1, x2),
            (Op::Tab(v1, t1), Op::Tab(v2, t2)) => v1 == v2 && t1 == t2,
            _ => false,
        }
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let p = |e: &Ex| e.id as u64;
        let (a, b, c, d) = match &self.0.op {
            Op::Const(x) => (0u64, *x as u64, (*x >> 64) as u64, 0),
            Op::Var(x) => (1, *x as u64, 0, 0),
            Op::Bin(o, x, y) => (2, *o as u64, p(x), p(y)),
            Op::Cmp(o, x, y) => (3, *o as u64, p(x), p(y)),
            Op::Ite(c, x, y) => (4, p(c), p(x), p(y)),
            Op::Cat(x, y) => (5, p(x), p(y), 0),
            Op::Ext(l, x) => (6, *l as u64, p(x), 0),
            Op::ZExt(x) => (7, p(x), 0, 0),
            Op::SExt(x) => (8, p(x), 0, 0),
            Op::Tab(v, t) => {
                let mut acc = 0xcbf29ce484222325u64;
                for x in t.iter() {
                    acc = (acc ^ x).wrapping_mul(0x100000001b3);
                }
                (9, *v as u64, acc, 0)
            }
        };
        h.write_u64(a ^ (self.0.w as u64) << 32);
        h.write_u64(b);
        h.write_u64(c);
        h.write_u64(d);
    }
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxB = std::hash::BuildHasherDefault<FxH>;

pub struct Pool {
    map: HashMap<Key, (), FxB>,
    next: u32,
    pub var_w: Vec<u16>,
    novars: Rc<[u16]>,
    gc_at: usize,
}

thread_local! {
    pub static POOL: RefCell<Pool> = RefCell::new(Pool {
        map: HashMap::default(), next: 1, var_w: vec![], novars: Rc::from(vec![]), gc_at: 1_000_000,
    });
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

fn merge(a: &Rc<[u16]>, b: &Rc<[u16]>) -> Rc<[u16]> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() || a == b {
        return a.clone();
    }
    let mut v: Vec<u16> = a.iter().chain(b.iter()).cloned().collect();
    v.sort();
    v.dedup();
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    Rc::from(v)
}

fn intern(op: Op, w: u16) -> Ex {
    POOL.with(|p| {
        let p = &mut *p.borrow_mut();
        let (vars, bv) = match &op {
            Op::Const(_) => (p.novars.clone(), true),
            Op::Var(v) => (Rc::from(vec![*v]), p.var_w[*v as usize] == 8),
            Op::Tab(v, _) => (Rc::from(vec![*v]), true),
            Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Cat(a, b) => (merge(&a.vars, &b.vars), a.bytevars && b.bytevars),
            Op::Ite(c, a, b) => (merge(&c.vars, &merge(&a.vars, &b.vars)), c.bytevars && a.bytevars && b.bytevars),
            Op::Ext(_, a) | Op::ZExt(a) | Op::SExt(a) => (a.vars.clone(), a.bytevars),
        };
        let id = p.next;
        let n = Key(Rc::new(Node { op, w, vars, bytevars: bv, id, table: OnceCell::new(), bits: OnceCell::new() }));
        if let Some((k, _)) = p.map.get_key_value(&n) {
            return k.0.clone();
        }
        p.next += 1;
        let e = n.0.clone();
        p.map.insert(n, ());
        if p.map.len() > p.gc_at {
            // drop unreferenced terms, repeatedly (parents before children)
            loop {
                let before = p.map.len();
                p.map.retain(|k, _| Rc::strong_count(&k.0) > 1);
                if before - p.map.len() <= before / 50 {
                    break;
                }
            }
            p.gc_at = (p.map.len() * 2).max(1_000_000);
        }
        e
    })
}

pub fn new_var(w: u16) -> Ex {
    let v = POOL.with(|p| {
        let p = &mut *p.borrow_mut();
        p.var_w.push(w);
        p.var_w.len() - 1
    });
    intern(Op::Var(v as u16), w)
}
pub fn var(v: u16) -> Ex {
    let w = POOL.with(|p| p.borrow().var_w[v as usize]);
    intern(Op::Var(v), w)
}
pub fn ensure_var(v: usize, w: u16) -> Ex {
    POOL.with(|p| {
        let p = &mut *p.borrow_mut();
        if p.var_w.len() == v {
            p.var_w.push(w);
        }
        assert_eq!(p.var_w[v], w, "symbolic variable {} created with different widths on different paths", v);
    });
    intern(Op::Var(v as u16), w)
}
pub fn k(c: u128, w: u16) -> Ex {
    intern(Op::Const(c & mask(w)), w)
}
pub fn tab(v: u16, t: Rc<[u64; 256]>, w: u16) -> Ex {
    intern(Op::Tab(v, t), w)
}

impl Node {
    pub fn as_const(&self) -> Option<u128> {
        match self.op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn single(&self) -> Option<u16> {
        if self.bytevars && self.vars.len() == 1 && self.w <= 64 { Some(self.vars[0]) } else { None }
    }
    /// 256-entry table, for terms over one byte variable.
    pub fn tbl(&self) -> &Rc<[u64; 256]> {
        self.table.get_or_init(|| {
            let m = mask(self.w) as u64;
            let get = |e: &Ex| -> Src {
                match e.op {
                    Op::Const(c) => Src::K(c),
                    _ if e.w <= 64 => Src::T(e.tbl().clone()),
                    _ => Src::Wide(e.clone()),
                }
            };
            let mut out = [0u64; 256];
            match &self.op {
                Op::Const(c) => out = [*c as u64; 256],
                Op::Var(_) => {
                    for i in 0..256 {
                        out[i] = i as u64;
                    }
                }
                Op::Tab(_, t) => return t.clone(),
                Op::Bin(b, x, y) => {
                    let (s, t) = (get(x), get(y));
                    for i in 0..256 {
                        out[i] = bin_c(*b, s.at(i), t.at(i), self.w) as u64 & m;
                    }
                }
                Op::Cmp(b, x, y) => {
                    let (s, t) = (get(x), get(y));
                    for i in 0..256 {
                        out[i] = cmp_c(*b, s.at(i), t.at(i), x.w) as u64;
                    }
                }
                Op::Ite(c, x, y) => {
                    let (c, s, t) = (get(c), get(x), get(y));
                    for i in 0..256 {
                        out[i] = (if c.at(i) != 0 { s.at(i) } else { t.at(i) }) as u64;
                    }
                }
                Op::Cat(x, y) => {
                    let (s, t) = (get(x), get(y));
                    for i in 0..256 {
                        out[i] = ((s.at(i) << y.w) | t.at(i)) as u64 & m;
                    }
                }
                Op::Ext(l, x) => {
                    let s = get(x);
                    for i in 0..256 {
                        out[i] = (s.at(i) >> l) as u64 & m;
                    }
                }
                Op::ZExt(x) => {
                    let s = get(x);
                    for i in 0..256 {
                        out[i] = s.at(i) as u64;
                    }
                }
                Op::SExt(x) => {
                    let s = get(x);
                    for i in 0..256 {
                        out[i] = sext(s.at(i), x.w) as u64 & m;
                    }
                }
            }
            Rc::new(out)
        })
    }
    /// For 1-bit terms over one byte variable: the set of values making it true.
    pub fn tset(&self) -> &[u64; 4] {
        self.bits.get_or_init(|| {
            let t = self.tbl();
            let mut b = [0u64; 4];
            for i in 0..256 {
                if t[i] & 1 != 0 {
                    b[i / 64] |= 1 << (i % 64);
                }
            }
            b
        })
    }
}

enum Src {
    K(u128),
    T(Rc<[u64; 256]>),
    Wide(Ex),
}
impl Src {
    #[inline]
    fn at(&self, i: usize) -> u128 {
        match self {
            Src::K(c) => *c,
            Src::T(t) => t[i] as u128,
            Src::Wide(e) => eval1(e, i as u128),
        }
    }
}
fn eval1(e: &Ex, v: u128) -> u128 {
    match &e.op {
        Op::Const(c) => *c,
        Op::Var(_) => v,
        Op::Tab(_, t) => t[v as usize] as u128,
        Op::Bin(b, x, y) => bin_c(*b, eval1(x, v), eval1(y, v), e.w),
        Op::Cmp(b, x, y) => cmp_c(*b, eval1(x, v), eval1(y, v), x.w) as u128,
        Op::Ite(c, x, y) => if eval1(c, v) != 0 { eval1(x, v) } else { eval1(y, v) },
        Op::Cat(x, y) => (eval1(x, v) << y.w) | eval1(y, v),
        Op::Ext(l, x) => (eval1(x, v) >> l) & mask(e.w),
        Op::ZExt(x) => eval1(x, v),
        Op::SExt(x) => sext(eval1(x, v), x.w) & mask(e.w),
    }
}

pub fn sext(c: u128, w: u16) -> u128 {
    if w >= 128 { return c; }
    let s = 128 - w as u32;
    (((c << s) as i128) >> s) as u128
}

pub fn bin_c(b: B, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    let r = match b {
        B::Add => x.wrapping_add(y),
        B::Sub => x.wrapping_sub(y),
        B::Mul => x.wrapping_mul(y),
        B::UDiv => if y == 0 { m } else { x / y },
        B::URem => if y == 0 { x } else { x % y },
        B::SDiv => if y == 0 { m } else { (sext(x, w) as i128).wrapping_div(sext(y, w) as i128) as u128 },
        B::SRem => if y == 0 { x } else { (sext(x, w) as i128).wrapping_rem(sext(y, w) as i128) as u128 },
        B::Shl => if y >= w as u128 { 0 } else { x << y },
        B::LShr => if y >= w as u128 { 0 } else { x >> y },
        B::AShr => ((sext(x, w) as i128) >> (y.min(w as u128 - 1).min(127))) as u128,
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
    };
    r & m
}
pub fn cmp_c(p: P, x: u128, y: u128, w: u16) -> bool {
    match p {
        P::Eq => x == y,
        P::Ult => x < y,
        P::Ule => x <= y,
        P::Slt => (sext(x, w) as i128) < (sext(y, w) as i128),
        P::Sle => (sext(x, w) as i128) <= (sext(y, w) as i128),
    }
}

pub fn bin(b: B, x: &Ex, y: &Ex) -> Ex {
    let w = x.w;
    debug_assert_eq!(x.w, y.w);
    if let (Some(a), Some(c)) = (x.as_const(), y.as_const()) {
        return k(bin_c(b, a, c, w), w);
    }
    // commutative: constant to the right
    if x.as_const().is_some() && matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor) {
        return bin(b, y, x);
    }
    if let Some(c) = y.as_const() {
        let m = mask(w);
        match b {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if c == 0 => return x.clone(),
            B::Mul if c == 1 => return x.clone(),
            B::Mul if c == 0 => return k(0, w),
            B::Mul if c.is_power_of_two() => return bin(B::Shl, x, &k(c.trailing_zeros() as u128, w)),
            B::UDiv if c == 1 => return x.clone(),
            B::UDiv if c.is_power_of_two() => return bin(B::LShr, x, &k(c.trailing_zeros() as u128, w)),
            B::URem if c.is_power_of_two() => return bin(B::And, x, &k(c - 1, w)),
            B::And if c == 0 => return k(0, w),
            B::And if c == m => return x.clone(),
            B::Or if c == m => return k(m, w),
            B::Sub => return bin(B::Add, x, &k(c.wrapping_neg() & m, w)),
            B::Shl if c < w as u128 => {
                return cat(&ext(0, w - c as u16, x), &k(0, c as u16));
            }
            B::LShr if c < w as u128 => {
                return zext(&ext(c as u16, w - c as u16, x), w);
            }
            B::Shl | B::LShr => return k(0, w),
            B::And if (c + 1).is_power_of_two() => {
                // low-bit mask
                let n = (c + 1).trailing_zeros() as u16;
                return zext(&ext(0, n, x), w);
            }
            _ => {}
        }
        if let Op::Bin(b2, x2, y2) = &x.op {
            if let Some(c2) = y2.as_const() {
                match (b, b2) {
                    (B::Add, B::Add) => return bin(B::Add, x2, &k(c.wrapping_add(c2), w)),
                    (B::Xor, B::Xor) => return bin(B::Xor, x2, &k(c ^ c2, w)),
                    (B::And, B::And) => return bin(B::And, x2, &k(c & c2, w)),
                    (B::Or, B::Or) => return bin(B::Or, x2, &k(c | c2, w)),
                    _ => {}
                }
            }
        }
        if matches!(b, B::And | B::Or | B::Xor) {
            match &x.op {
                Op::Cat(h, l) => {
                    let ch = k(c >> l.w, h.w);
                    let cl = k(c, l.w);
                    return cat(&bin(b, h, &ch), &bin(b, l, &cl));
                }
                Op::ZExt(z) if b == B::And => {
                    return zext(&bin(B::And, z, &k(c, z.w)), w);
                }
                Op::ZExt(z) => {
                    let hi = k(c >> z.w, w - z.w);
                    return cat(&hi, &bin(b, z, &k(c, z.w)));
                }
                _ => {}
            }
        }
        // ite(c, k1, k2) op k  ->  ite
        if let Op::Ite(cc, t, e) = &x.op {
            if t.as_const().is_some() && e.as_const().is_some() {
                return ite(cc, &bin(b, t, y), &bin(b, e, y));
            }
        }
    }
    if Rc::ptr_eq(x, y) {
        match b {
            B::Sub | B::Xor => return k(0, w),
            B::And | B::Or => return x.clone(),
            _ => {}
        }
    }
    if w == 1 {
        // boolean identities with negation
        let neg = |e: &Ex| -> Option<Ex> {
            if let Op::Bin(B::Xor, a, c) = &e.op {
                if c.as_const() == Some(1) { return Some(a.clone()); }
            }
            None
        };
        if let Some(nx) = neg(x) {
            if Rc::ptr_eq(&nx, y) {
                match b { B::And => return k(0, 1), B::Or | B::Xor => return k(1, 1), _ => {} }
            }
        }
        if let Some(ny) = neg(y) {
            if Rc::ptr_eq(&ny, x) {
                match b { B::And => return k(0, 1), B::Or | B::Xor => return k(1, 1), _ => {} }
            }
        }
    }
    if b == B::Or && w > 1 {
        // or of disjoint parts: cat(h, 0) | zext(l)
        let pair = |p: &Ex, q: &Ex| -> Option<Ex> {
            if let Op::Cat(h, l) = &p.op {
                if l.as_const() == Some(0) {
                    match &q.op {
                        Op::ZExt(z) if z.w <= l.w => return Some(cat(h, &zext(z, l.w))),
                        Op::Cat(h2, l2) if h2.as_const() == Some(0) && l2.w <= l.w => return Some(cat(h, &zext(l2, l.w))),
                        _ => {}
                    }
                }
            }
            None
        };
        if let Some(r) = pair(x, y).or_else(|| pair(y, x)) {
            return r;
        }
    }
    intern(Op::Bin(b, x.clone(), y.clone()), w)
}

pub fn not(x: &Ex) -> Ex {
    bin(B::Xor, x, &k(mask(x.w), x.w))
}

pub fn cmp(p: P, x: &Ex, y: &Ex) -> Ex {
    debug_assert_eq!(x.w, y.w);
    if let (Some(a), Some(c)) = (x.as_const(), y.as_const()) {
        return k(cmp_c(p, a, c, x.w) as u128, 1);
    }
    if Rc::ptr_eq(x, y) {
        return k(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1);
    }
    if p == P::Eq {
        if x.as_const().is_some() {
            return cmp(p, y, x);
        }
        if let Some(c) = y.as_const() {
            if x.w == 1 {
                return if c == 1 { x.clone() } else { not(x) };
            }
            match &x.op {
                Op::ZExt(z) => {
                    return if c > mask(z.w) { k(0, 1) } else { cmp(P::Eq, z, &k(c, z.w)) };
                }
                Op::Cat(h, l) => {
                    let a = cmp(P::Eq, h, &k(c >> l.w, h.w));
                    if a.as_const() == Some(0) {
                        return a;
                    }
                    let b = cmp(P::Eq, l, &k(c, l.w));
                    return bin(B::And, &a, &b);
                }
                Op::Ite(cc, t, e) if t.as_const().is_some() || e.as_const().is_some() => {
                    return ite(cc, &cmp(P::Eq, t, y), &cmp(P::Eq, e, y));
                }
                Op::Bin(B::Add, a, d) => {
                    if let Some(d) = d.as_const() {
                        return cmp(P::Eq, a, &k(c.wrapping_sub(d), x.w));
                    }
                }
                Op::Bin(B::Xor, a, d) => {
                    if let Some(d) = d.as_const() {
                        return cmp(P::Eq, a, &k(c ^ d, x.w));
                    }
                }
                _ => {}
            }
        } else if let (Op::ZExt(a), Op::ZExt(b)) = (&x.op, &y.op) {
            if a.w == b.w {
                return cmp(P::Eq, a, b);
            }
        } else if let (Op::Cat(h1, l1), Op::Cat(h2, l2)) = (&x.op, &y.op) {
            if l1.w == l2.w {
                return bin(B::And, &cmp(P::Eq, h1, h2), &cmp(P::Eq, l1, l2));
            }
        }
    } else {
        if let Some(c) = y.as_const() {
            if let Op::ZExt(z) = &x.op {
                match p {
                    P::Ult | P::Ule => {
                        if c > mask(z.w) {
                            return k(1, 1);
                        }
                        return cmp(p, z, &k(c, z.w));
                    }
                    P::Slt | P::Sle if z.w < x.w => {
                        if sext(c, y.w) as i128 >= 0 {
                            let u = if p == P::Slt { P::Ult } else { P::Ule };
                            return cmp(u, x, y);
                        }
                        return k(0, 1);
                    }
                    _ => {}
                }
            }
            if p == P::Ult && c == 0 {
                return k(0, 1);
            }
            if p == P::Ult && c == 1 {
                return cmp(P::Eq, x, &k(0, x.w));
            }
            if p == P::Ule && c == mask(x.w) {
                return k(1, 1);
            }
            if p == P::Ule && c == 0 {
                return cmp(P::Eq, x, y);
            }
            if let Op::Ite(cc, t, e) = &x.op {
                if t.as_const().is_some() && e.as_const().is_some() {
                    return ite(cc, &cmp(p, t, y), &cmp(p, e, y));
                }
            }
        }
        if let Some(c) = x.as_const() {
            if let Op::ZExt(z) = &y.op {
                match p {
                    P::Ult | P::Ule => {
                        if c > mask(z.w) {
                            return k(0, 1);
                        }
                        return cmp(p, &k(c, z.w), z);
                    }
                    P::Slt | P::Sle if z.w < y.w => {
                        if sext(c, x.w) as i128 >= 0 {
                            let u = if p == P::Slt { P::Ult } else { P::Ule };
                            return cmp(u, x, y);
                        }
                        return k(1, 1);
                    }
                    _ => {}
                }
            }
            if let Op::Ite(cc, t, e) = &y.op {
                if t.as_const().is_some() && e.as_const().is_some() {
                    return ite(cc, &cmp(p, x, t), &cmp(p, x, e));
                }
            }
        }
        if let (Op::ZExt(a), Op::ZExt(b)) = (&x.op, &y.op) {
            if a.w == b.w && matches!(p, P::Ult | P::Ule) {
                return cmp(p, a, b);
            }
        }
    }
    intern(Op::Cmp(p, x.clone(), y.clone()), 1)
}

pub fn ite(c: &Ex, x: &Ex, y: &Ex) -> Ex {
    debug_assert_eq!(x.w, y.w);
    if let Some(v) = c.as_const() {
        return if v != 0 { x.clone() } else { y.clone() };
    }
    if Rc::ptr_eq(x, y) {
        return x.clone();
    }
    if x.w == 1 {
        match (x.as_const(), y.as_const()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(B::Or, c, y),
            (Some(0), None) => return bin(B::And, &not(c), y),
            (None, Some(0)) => return bin(B::And, c, x),
            (None, Some(1)) => return bin(B::Or, &not(c), x),
            _ => {}
        }
    }
    if let Op::Bin(B::Xor, a, m) = &c.op {
        if m.as_const() == Some(1) {
            return ite(a, y, x);
        }
    }
    intern(Op::Ite(c.clone(), x.clone(), y.clone()), x.w)
}

pub fn cat(h: &Ex, l: &Ex) -> Ex {
    let w = h.w + l.w;
    if let (Some(a), Some(b)) = (h.as_const(), l.as_const()) {
        return k((a << l.w) | b, w);
    }
    if h.as_const() == Some(0) {
        return zext(l, w);
    }
    match (&h.op, &l.op) {
        (Op::Ext(lo1, a), Op::Ext(lo2, b)) if Rc::ptr_eq(a, b) && *lo1 == lo2 + l.w => {
            return ext(*lo2, w, a);
        }
        // cat(0..ext_hi(x)), ext_lo(x)) => zext(x part)
        (Op::ZExt(z), Op::Ext(lo2, b)) => {
            if let Op::Ext(lo1, a) = &z.op {
                if Rc::ptr_eq(a, b) && *lo1 == lo2 + l.w {
                    return zext(&ext(*lo2, z.w + l.w, a), w);
                }
            }
        }
        (_, Op::ZExt(z)) if false => {
            let _ = z;
        }
        _ => {}
    }
    // right-assoc: cat(cat(a,b), l) stays; cat(h, cat(a,b)) -> cat(cat(h,a),b) when h,a merge
    if let Op::Cat(a, b) = &l.op {
        return cat(&cat(h, a), b);
    }
    if let Op::ZExt(z) = &h.op {
        return zext(&cat(z, l), w);
    }
    // merge trailing: cat(cat(p, q), l) with q,l adjacent extracts or both const
    if let Op::Cat(p, q) = &h.op {
        match (&q.op, &l.op) {
            (Op::Ext(lo1, a), Op::Ext(lo2, b)) if Rc::ptr_eq(a, b) && *lo1 == lo2 + l.w => {
                return cat(p, &ext(*lo2, q.w + l.w, a));
            }
            (Op::Const(c1), Op::Const(c2)) => {
                return intern(Op::Cat(p.clone(), k((c1 << l.w) | c2, q.w + l.w)), w);
            }
            _ => {}
        }
    }
    intern(Op::Cat(h.clone(), l.clone()), w)
}

pub fn ext(lo: u16, w: u16, x: &Ex) -> Ex {
    if lo == 0 && w == x.w {
        return x.clone();
    }
    match &x.op {
        Op::Const(c) => return k(c >> lo, w),
        Op::Ext(l2, y) => return ext(lo + l2, w, y),
        Op::ZExt(y) => {
            if lo + w <= y.w {
                return ext(lo, w, y);
            }
            if lo >= y.w {
                return k(0, w);
            }
            return zext(&ext(lo, y.w - lo, y), w);
        }
        Op::SExt(y) => {
            if lo + w <= y.w {
                return ext(lo, w, y);
            }
        }
        Op::Cat(h, l) => {
            if lo + w <= l.w {
                return ext(lo, w, l);
            }
            if lo >= l.w {
                return ext(lo - l.w, w, h);
            }
            return cat(&ext(0, lo + w - l.w, h), &ext(lo, l.w - lo, l));
        }
        Op::Bin(b @ (B::And | B::Or | B::Xor), a, c) => {
            return bin(*b, &ext(lo, w, a), &ext(lo, w, c));
        }
        Op::Bin(b @ (B::Add | B::Sub | B::Mul), a, c) if lo == 0 => {
            return bin(*b, &ext(0, w, a), &ext(0, w, c));
        }
        Op::Ite(c, a, b) => {
            return ite(c, &ext(lo, w, a), &ext(lo, w, b));
        }
        _ => {}
    }
    intern(Op::Ext(lo, x.clone()), w)
}

pub fn zext(x: &Ex, w: u16) -> Ex {
    if x.w == w {
        return x.clone();
    }
    match &x.op {
        Op::Const(c) => return k(*c, w),
        Op::ZExt(y) => return zext(y, w),
        Op::Ite(c, a, b) if a.as_const().is_some() && b.as_const().is_some() => {
            return ite(c, &zext(a, w), &zext(b, w));
        }
        _ => {}
    }
    intern(Op::ZExt(x.clone()), w)
}
pub fn sexte(x: &Ex, w: u16) -> Ex {
    if x.w == w {
        return x.clone();
    }
    match &x.op {
        Op::Const(c) => return k(sext(*c, x.w), w),
        Op::ZExt(y) if y.w < x.w => return zext(y, w),
        _ => {}
    }
    intern(Op::SExt(x.clone()), w)
}

/// Evaluate under a full assignment.
pub fn eval(e: &Ex, m: &[u64], memo: &mut HashMap<u32, u128, FxB>) -> u128 {
    match &e.op {
        Op::Const(c) => return *c,
        Op::Var(v) => return m.get(*v as usize).copied().unwrap_or(0) as u128 & mask(e.w),
        Op::Tab(v, t) => return t[(m.get(*v as usize).copied().unwrap_or(0) & 255) as usize] as u128,
        _ => {}
    }
    if let Some(v) = e.single() {
        if e.table.get().is_some() {
            return e.tbl()[(m.get(v as usize).copied().unwrap_or(0) & 255) as usize] as u128;
        }
    }
    if let Some(r) = memo.get(&e.id) {
        return *r;
    }
    let r = match &e.op {
        Op::Bin(b, x, y) => bin_c(*b, eval(x, m, memo), eval(y, m, memo), e.w),
        Op::Cmp(b, x, y) => cmp_c(*b, eval(x, m, memo), eval(y, m, memo), x.w) as u128,
        Op::Ite(c, x, y) => if eval(c, m, memo) != 0 { eval(x, m, memo) } else { eval(y, m, memo) },
        Op::Cat(x, y) => (eval(x, m, memo) << y.w) | eval(y, m, memo),
        Op::Ext(l, x) => (eval(x, m, memo) >> l) & mask(e.w),
        Op::ZExt(x) => eval(x, m, memo),
        Op::SExt(x) => sext(eval(x, m, memo), x.w) & mask(e.w),
        _ => unreachable!(),
    };
    memo.insert(e.id, r);
    r
}

pub type Known = HashMap<u32, (Ex, u128), FxB>;
/// Rebuild `e` replacing every maximal subterm that is constant under the
/// current byte domains by that constant.
pub fn resolve(e: &Ex, dom: &[[u64; 4]], known: &Known, memo: &mut HashMap<u32, Ex, FxB>) -> Ex {
    if e.as_const().is_some() {
        return e.clone();
    }
    if let Some((_, c)) = known.get(&e.id) {
        return k(*c, e.w);
    }
    if let Some(v) = e.single() {
        if let Some(c) = const_under(e, &dom[v as usize]) {
            return k(c as u128, e.w);
        }
        return e.clone();
    }
    if let Some(r) = memo.get(&e.id) {
        return r.clone();
    }
    let r = match &e.op {
        Op::Bin(b, x, y) => bin(*b, &resolve(x, dom, known, memo), &resolve(y, dom, known, memo)),
        Op::Cmp(b, x, y) => cmp(*b, &resolve(x, dom, known, memo), &resolve(y, dom, known, memo)),
        Op::Ite(c, x, y) => {
            let c = resolve(c, dom, known, memo);
            match c.as_const() {
                Some(0) => resolve(y, dom, known, memo),
                Some(_) => resolve(x, dom, known, memo),
                None => ite(&c, &resolve(x, dom, known, memo), &resolve(y, dom, known, memo)),
            }
        }
        Op::Cat(x, y) => cat(&resolve(x, dom, known, memo), &resolve(y, dom, known, memo)),
        Op::Ext(l, x) => ext(*l, e.w, &resolve(x, dom, known, memo)),
        Op::ZExt(x) => zext(&resolve(x, dom, known, memo), e.w),
        Op::SExt(x) => sexte(&resolve(x, dom, known, memo), e.w),
        _ => e.clone(),
    };
    // the rebuilt term may itself be known, or constant over what is left of a domain
    let r = if r.as_const().is_some() || r.id == e.id {
        r
    } else if let Some((_, c)) = known.get(&r.id) {
        k(*c, e.w)
    } else if let Some(v) = r.single() {
        match const_under(&r, &dom[v as usize]) {
            Some(c) => k(c as u128, e.w),
            None => r,
        }
    } else {
        r
    };
    memo.insert(e.id, r.clone());
    r
}

pub fn dom_iter(d: &[u64; 4]) -> impl Iterator<Item = usize> + '_ {
    (0..4).flat_map(move |i| {
        let mut x = d[i];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let b = x.trailing_zeros() as usize;
                x &= x - 1;
                Some(i * 64 + b)
            }
        })
    })
}
pub fn dom_count(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}

pub fn const_under(e: &Ex, d: &[u64; 4]) -> Option<u64> {
    if e.w == 1 {
        let t = e.tset();
        let any = (0..4).any(|i| t[i] & d[i] != 0);
        let all = (0..4).all(|i| d[i] & !t[i] == 0);
        return if all { Some(1) } else if !any { Some(0) } else { None };
    }
    let t = e.tbl();
    let mut it = dom_iter(d);
    let first = t[it.next()?];
    for i in it {
        if t[i] != first {
            return None;
        }
    }
    Some(first)
}
