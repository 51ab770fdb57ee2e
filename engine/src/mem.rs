use crate::expr::*;
use crate::ir::Val;
use std::collections::HashMap;
use std::rc::Rc;

pub const PAGE: u64 = 4096;
const CH: usize = 256; // pages per chunk
pub const LIMIT: u64 = 0x1_0000_0000;
pub const HEAP: u64 = 0x2000_0000;
pub const STACK: u64 = 0xC000_0000;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE as usize],
    pub sym: Option<Box<HashMap<u16, Ex, FxB>>>,
}
#[derive(Clone)]
pub struct Chunk {
    pages: Vec<Option<Rc<Page>>>,
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub brk: u64,
    free: Rc<HashMap<u64, Vec<u64>, FxB>>,
}

pub enum By {
    C(u8),
    S(Ex),
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![None; (LIMIT / PAGE) as usize / CH], brk: HEAP, free: Rc::new(HashMap::default()) }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let p = (a / PAGE) as usize;
        let c = self.chunks.get(p / CH)?.as_ref()?;
        c.pages[p % CH].as_deref()
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let p = (a / PAGE) as usize;
        let c = Rc::make_mut(self.chunks.get_mut(p / CH)?.as_mut()?);
        Some(Rc::make_mut(c.pages[p % CH].as_mut()?))
    }
    pub fn map(&mut self, a: u64, n: u64) {
        let mut x = a / PAGE;
        let end = (a + n.max(1) - 1) / PAGE;
        assert!((end as usize / CH) < self.chunks.len(), "out of modelled memory");
        while x <= end {
            let p = x as usize;
            let c = self.chunks[p / CH].get_or_insert_with(|| Rc::new(Chunk { pages: vec![None; CH] }));
            if c.pages[p % CH].is_none() {
                Rc::make_mut(c).pages[p % CH] = Some(Rc::new(Page { data: [0; PAGE as usize], sym: None }));
            }
            x += 1;
        }
    }
    pub fn mapped(&self, a: u64, n: u64) -> bool {
        if a < PAGE * 16 || a.checked_add(n).is_none() {
            return false;
        }
        let mut x = a & !(PAGE - 1);
        loop {
            if self.page(x).is_none() {
                return false;
            }
            x += PAGE;
            if x >= a + n.max(1) {
                return true;
            }
        }
    }
    pub fn byte(&self, a: u64) -> Option<By> {
        let p = self.page(a)?;
        let o = (a % PAGE) as usize;
        if let Some(s) = &p.sym {
            if let Some(e) = s.get(&(o as u16)) {
                return Some(By::S(e.clone()));
            }
        }
        Some(By::C(p.data[o]))
    }
    pub fn set_byte(&mut self, a: u64, b: By) -> Option<()> {
        let p = self.page_mut(a)?;
        let o = (a % PAGE) as usize;
        match b {
            By::C(c) => {
                p.data[o] = c;
                if let Some(s) = &mut p.sym {
                    s.remove(&(o as u16));
                    if s.is_empty() {
                        p.sym = None;
                    }
                }
            }
            By::S(e) => {
                p.sym.get_or_insert_with(Default::default).insert(o as u16, e);
            }
        }
        Some(())
    }
    /// Read a little-endian integer of `n` bytes (<= 16) as a value of width `w`.
    #[inline]
    pub fn read(&self, a: u64, n: u64, w: u16) -> Option<Val> {
        let o = a % PAGE;
        if o + n <= PAGE && n <= 8 {
            let p = self.page(a)?;
            if p.sym.is_none() {
                let mut b = [0u8; 8];
                let o = o as usize;
                match n {
                    1 => return Some(Val::C(p.data[o] as u64 & if w < 8 { (1 << w) - 1 } else { 255 })),
                    8 => {
                        b.copy_from_slice(&p.data[o..o + 8]);
                        return Some(Val::C(u64::from_le_bytes(b) & if w < 64 { (1 << w) - 1 } else { u64::MAX }));
                    }
                    _ => {
                        b[..n as usize].copy_from_slice(&p.data[o..o + n as usize]);
                        return Some(Val::C(u64::from_le_bytes(b) & if w < 64 { (1 << w) - 1 } else { u64::MAX }));
                    }
                }
            }
        }
        // slow path
        let mut conc: u128 = 0;
        let mut any = false;
        let mut bs = Vec::with_capacity(n as usize);
        for i in 0..n {
            match self.byte(a + i)? {
                By::C(c) => {
                    conc |= (c as u128) << (8 * i);
                    bs.push(None);
                }
                By::S(e) => {
                    any = true;
                    bs.push(Some(e));
                }
            }
        }
        if !any {
            let v = conc & mask(w);
            return Some(if w > 64 { Val::W([v as u64, (v >> 64) as u64]) } else { Val::C(v as u64) });
        }
        let mut acc: Option<Ex> = None;
        for i in (0..n as usize).rev() {
            let e = bs[i].clone().unwrap_or_else(|| k((conc >> (8 * i)) & 255, 8));
            acc = Some(match acc {
                None => e,
                Some(h) => cat(&h, &e),
            });
        }
        let e = ext(0, w, &acc.unwrap());
        Some(from_ex(e))
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: u64, v: &Val) -> Option<()> {
        let o = a % PAGE;
        match v {
            Val::C(c) if n <= 8 => {
                if o + n <= PAGE {
                    let p = self.page_mut(a)?;
                    let o = o as usize;
                    p.data[o..o + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                    if let Some(s) = &mut p.sym {
                        for i in 0..n as usize {
                            s.remove(&((o + i) as u16));
                        }
                        if s.is_empty() {
                            p.sym = None;
                        }
                    }
                    return Some(());
                }
                for i in 0..n {
                    self.set_byte(a + i, By::C((c >> (8 * i)) as u8))?;
                }
            }
            Val::C(c) => {
                for i in 0..n {
                    self.set_byte(a + i, By::C(if i < 8 { (c >> (8 * i)) as u8 } else { 0 }))?;
                }
            }
            Val::W(x) => {
                let c = x[0] as u128 | (x[1] as u128) << 64;
                for i in 0..n {
                    self.set_byte(a + i, By::C((c >> (8 * i)) as u8))?;
                }
            }
            Val::E(e) => {
                let e = zext(e, (n * 8) as u16);
                for i in 0..n {
                    let b = ext((8 * i) as u16, 8, &e);
                    match b.as_const() {
                        Some(c) => self.set_byte(a + i, By::C(c as u8))?,
                        None => self.set_byte(a + i, By::S(b))?,
                    }
                }
            }
            Val::A(_) => panic!("write aggregate"),
        }
        Some(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Option<()> {
        let mut i = 0;
        while i < b.len() {
            let x = a + i as u64;
            let o = (x % PAGE) as usize;
            let n = (PAGE as usize - o).min(b.len() - i);
            let p = self.page_mut(x)?;
            p.data[o..o + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = &mut p.sym {
                s.retain(|k, _| (*k as usize) < o || (*k as usize) >= o + n);
                if s.is_empty() {
                    p.sym = None;
                }
            }
            i += n;
        }
        Some(())
    }
    pub fn fill(&mut self, a: u64, n: u64, v: u8) -> Option<()> {
        let mut i = 0;
        while i < n {
            let x = a + i;
            let o = (x % PAGE) as usize;
            let m = (PAGE as usize - o).min((n - i) as usize);
            let p = self.page_mut(x)?;
            p.data[o..o + m].fill(v);
            if let Some(s) = &mut p.sym {
                s.retain(|k, _| (*k as usize) < o || (*k as usize) >= o + m);
                if s.is_empty() {
                    p.sym = None;
                }
            }
            i += m as u64;
        }
        Some(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Option<()> {
        if n == 0 {
            return Some(());
        }
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(u64, Ex)> = vec![];
        let mut i = 0;
        while i < n {
            let x = s + i;
            let o = (x % PAGE) as usize;
            let m = (PAGE as usize - o).min((n - i) as usize);
            let p = self.page(x)?;
            buf[i as usize..i as usize + m].copy_from_slice(&p.data[o..o + m]);
            if let Some(sy) = &p.sym {
                if sy.len() < m {
                    for (k, e) in sy.iter() {
                        let k = *k as usize;
                        if k >= o && k < o + m {
                            syms.push((i + (k - o) as u64, e.clone()));
                        }
                    }
                } else {
                    for k in o..o + m {
                        if let Some(e) = sy.get(&(k as u16)) {
                            syms.push((i + (k - o) as u64, e.clone()));
                        }
                    }
                }
            }
            i += m as u64;
        }
        self.write_bytes(d, &buf)?;
        for (o, e) in syms {
            self.set_byte(d + o, By::S(e))?;
        }
        Some(())
    }
    fn class(n: u64) -> u64 {
        let n = n.max(16);
        if n <= 1024 { (n + 15) / 16 * 16 } else { n.next_power_of_two() }
    }
    /// 16-byte header holds the size; returns an address aligned to `al`.
    pub fn malloc(&mut self, n: u64, al: u64) -> u64 {
        let c = Self::class(n);
        if al <= 16 {
            if self.free.get(&c).map_or(false, |v| !v.is_empty()) {
                let f = Rc::make_mut(&mut self.free);
                let a = f.get_mut(&c).unwrap().pop().unwrap();
                self.write(a - 16, 8, &Val::C(n));
                self.write(a - 8, 8, &Val::C(c));
                return a;
            }
        }
        let al = al.max(16);
        let a = (self.brk + 16 + al - 1) / al * al;
        self.map(a - 16, c + 16);
        self.brk = a + c;
        assert!(self.brk < STACK, "heap exhausted");
        self.write(a - 16, 8, &Val::C(n));
        self.write(a - 8, 8, &Val::C(if al > 16 { 0 } else { c }));
        a
    }
    pub fn size_of(&self, a: u64) -> Option<u64> {
        match self.read(a - 16, 8, 64)? {
            Val::C(n) => Some(n),
            _ => None,
        }
    }
    pub fn free(&mut self, a: u64) {
        if a < HEAP {
            return;
        }
        if let Some(Val::C(c)) = self.read(a - 8, 8, 64) {
            if c != 0 {
                Rc::make_mut(&mut self.free).entry(c).or_default().push(a);
            }
        }
    }
}

pub fn from_ex(e: Ex) -> Val {
    match e.as_const() {
        Some(c) if e.w <= 64 => Val::C(c as u64),
        Some(c) => Val::W([c as u64, (c >> 64) as u64]),
        None => Val::E(e),
    }
}
