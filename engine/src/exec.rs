//! Symbolic execution of the lowered module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub ip: u32,
    pub blk: u32,
    pub ret: Option<R>,
    pub normal: Option<u32>,
    pub sp: u64,
}

#[derive(Clone, Debug)]
pub enum Con {
    Dom(u16, [u64; 4]),
    Cond(Ex),
}

#[derive(Clone)]
pub struct Trace {
    pub v: Val,
    pub prev: Option<Rc<Trace>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub sp: u64,
    pub dom: Vec<[u64; 4]>,
    pub dom0: Vec<[u64; 4]>,
    pub wide: Vec<u16>, // width per variable (8 = byte with a domain)
    pub pc: Rc<Vec<Ex>>,
    pub multi: Rc<Vec<bool>>, // variable occurs in a multi-variable constraint
    pub model: Vec<u64>,
    pub steps: u64,
    pub depth: u32,
    pub frac: f64,
    pub trace: Option<Rc<Trace>>,
    pub covers: Rc<Vec<u32>>,
    pub asserts: u32,
    pub allow_panic: bool,
    pub errno: u64,
    pub env: Rc<Vec<(Vec<u8>, u64)>>,
    pub known: Rc<Known>,
}

pub enum Stop {
    Fork(Vec<Con>),
    Violation(String),
    Done,
    Pruned,
    Err(String),
}
type Rs<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    No, Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Bcmp, Strlen, Memchr, Memrchr, Memcpy, Memmove, Memset, Abort,
    Write, Zero, Getenv, Setenv, Getrandom, Errno, MinusOne, Panic, Sysconf, One, Writev, Clock,
    SymU8, SymU16, SymU32, SymU64, SymIn, SymRange, Assume, Assert, Out, Cover, Param, AllowPanic, Conc, Unknown, Begin, Symbolic,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub instrs: u64,
    pub forks: u64,
    pub branches_sym: u64,
    pub asserts_concrete: u64,
    pub asserts_symbolic: u64,
}

pub struct Engine {
    pub m: Module,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub bi: Vec<Bi>,
    pub solver: Solver,
    pub params: Vec<u64>,
    pub budget: u64,
    pub cnt: Counters,
    pub verify_dom: bool,
    pub used: HashMap<u32, u64>,
    pub symtouch: HashMap<u32, u64>,
    pub fixed: Option<Vec<u64>>, // concrete run
}

fn builtin(n: &str, decl: bool) -> Bi {
    use Bi::*;
    match n {
        "zsym_u8" => return SymU8,
        "zsym_u16" => return SymU16,
        "zsym_u32" => return SymU32,
        "zsym_u64" => return SymU64,
        "zsym_in" => return SymIn,
        "zsym_range" => return SymRange,
        "zsym_assume" => return Assume,
        "zsym_assert" => return Assert,
        "zsym_out" => return Out,
        "zsym_cover" => return Cover,
        "zsym_param" => return Param,
        "zsym_allow_panic" => return AllowPanic,
        "zsym_concretize" => return Conc,
        "zsym_begin" => return Begin,
        "zsym_is_symbolic" => return Symbolic,
        _ => {}
    }
    if !decl {
        if n.contains("4core9panicking") && !n.contains("3fmt") {
            return Panic;
        }
        if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic_with_hook") || n.contains("panic_with_hook")) {
            return Panic;
        }
        if n.contains("alloc18handle_alloc_error") {
            return Panic;
        }
        return No;
    }
    match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" => AlignedAlloc,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "memcpy" => Memcpy,
        "memmove" => Memmove,
        "memset" => Memset,
        "abort" => Abort,
        "write" => Write,
        "writev" => Writev,
        "getenv" => Getenv,
        "setenv" => Setenv,
        "getrandom" => Getrandom,
        "__errno_location" => Errno,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "getauxval" | "sigaction" | "signal" | "sigaltstack" | "munmap" | "close"
        | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" | "pthread_getspecific" => Zero,
        "clock_gettime" => Clock,
        "gettid" | "getpid" | "pthread_self" => One,
        "sysconf" => Sysconf,
        "syscall" | "open64" | "readlink" | "getcwd" | "stat64" | "statx" | "realpath" => MinusOne,
        _ => Unknown,
    }
}

fn m64(w: u16) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn to_ex(v: &Val, w: u16) -> Ex {
    match v {
        Val::C(c) => k(*c as u128, w),
        Val::W(x) => k(x[0] as u128 | (x[1] as u128) << 64, w),
        Val::E(e) => {
            debug_assert_eq!(e.w, w, "width mismatch {:?}", e);
            e.clone()
        }
        Val::A(_) => panic!("aggregate as term"),
    }
}
fn c128(v: &Val) -> Option<u128> {
    match v {
        Val::C(c) => Some(*c as u128),
        Val::W(x) => Some(x[0] as u128 | (x[1] as u128) << 64),
        _ => None,
    }
}
fn mk(c: u128, w: u16) -> Val {
    let c = c & mask(w);
    if w > 64 { Val::W([c as u64, (c >> 64) as u64]) } else { Val::C(c as u64) }
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![], mem: Mem::new(), sp: STACK, dom: vec![], dom0: vec![], wide: vec![], pc: Rc::new(vec![]), multi: Rc::new(vec![]), model: vec![],
            steps: 0, depth: 0, frac: -1.0, trace: None, covers: Rc::new(vec![]), asserts: 0, allow_panic: false, errno: 0, env: Rc::new(vec![]), known: Rc::new(HashMap::default()),
        }
    }
    pub fn resolve(&self, e: &Ex) -> Ex {
        if let Some(v) = e.single() {
            return match const_under(e, &self.dom[v as usize]) {
                Some(c) => k(c as u128, e.w),
                None => e.clone(),
            };
        }
        let mut memo = HashMap::default();
        resolve(e, &self.dom, &self.known, &mut memo)
    }
    pub fn eval(&self, e: &Ex) -> u128 {
        let mut memo = HashMap::default();
        eval(e, &self.model, &mut memo)
    }
}

/// A maximal subterm over a single byte variable that is not constant under
/// the domains; boolean ones reached only through boolean structure and
/// if-conditions are preferred.
fn find_bool_atom(e: &Ex, st: &State, depth: u32) -> Option<Ex> {
    if e.as_const().is_some() || depth > 64 {
        return None;
    }
    if let Some(v) = e.single() {
        if e.w == 1 && const_under(e, &st.dom[v as usize]).is_none() {
            return Some(e.clone());
        }
        return None;
    }
    match &e.op {
        Op::Bin(_, x, y) | Op::Cmp(_, x, y) | Op::Cat(x, y) => find_bool_atom(x, st, depth + 1).or_else(|| find_bool_atom(y, st, depth + 1)),
        Op::Ite(c, x, y) => find_bool_atom(c, st, depth + 1).or_else(|| find_bool_atom(x, st, depth + 1)).or_else(|| find_bool_atom(y, st, depth + 1)),
        Op::Ext(_, x) | Op::ZExt(x) | Op::SExt(x) => find_bool_atom(x, st, depth + 1),
        _ => None,
    }
}
fn find_single(e: &Ex, st: &State, best: &mut Option<(usize, Ex)>) {
    if e.as_const().is_some() {
        return;
    }
    if let Some(v) = e.single() {
        let t = e.tbl();
        let mut vals: Vec<u64> = dom_iter(&st.dom[v as usize]).map(|i| t[i]).collect();
        vals.sort();
        vals.dedup();
        if vals.len() > 1 && best.as_ref().map_or(true, |b| vals.len() < b.0) {
            *best = Some((vals.len(), e.clone()));
        }
        return;
    }
    match &e.op {
        Op::Bin(_, x, y) | Op::Cmp(_, x, y) | Op::Cat(x, y) => {
            find_single(x, st, best);
            find_single(y, st, best);
        }
        Op::Ite(c, x, y) => {
            find_single(c, st, best);
            find_single(x, st, best);
            find_single(y, st, best);
        }
        Op::Ext(_, x) | Op::ZExt(x) | Op::SExt(x) => find_single(x, st, best),
        _ => {}
    }
}

fn by_value(e: &Ex, st: &State) -> Vec<Con> {
    let v = e.single().unwrap();
    let t = e.tbl();
    let mut groups: HashMap<u64, [u64; 4]> = HashMap::new();
    let mut order = vec![];
    for i in dom_iter(&st.dom[v as usize]) {
        let g = groups.entry(t[i]).or_insert_with(|| {
            order.push(t[i]);
            [0; 4]
        });
        g[i / 64] |= 1 << (i % 64);
    }
    order.into_iter().map(|x| Con::Dom(v, groups[&x])).collect()
}

impl Engine {
    pub fn new(m: Module) -> Engine {
        let bi = m.funcs.iter().map(|f| builtin(&f.name, f.decl)).collect();
        let n = m.funcs.len();
        Engine {
            m, funcs: vec![None; n], bi, solver: Solver::new(), params: vec![], budget: 200_000_000, cnt: Counters::default(), verify_dom: false,
            used: HashMap::new(), symtouch: HashMap::new(), fixed: None,
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if self.funcs[id as usize].is_none() {
            self.funcs[id as usize] = Some(Rc::new(self.m.lower(id)));
        }
        self.funcs[id as usize].clone().unwrap()
    }
    pub fn start(&mut self, entry: u32) -> Result<State, String> {
        let mut st = State::new();
        for g in &self.m.globals {
            st.mem.map(g.addr, g.size.max(1));
            let b = self.m.init_bytes(g).map_err(|e| format!("global {}: {}", g.name, e))?;
            st.mem.write_bytes(g.addr, &b).unwrap();
        }
        st.mem.map(STACK, 1 << 20);
        let f = self.func(entry);
        let n = f.nregs as usize;
        st.frames.push(Frame { ip: f.blocks[0].start, f, regs: vec![Val::C(0); n], blk: 0, ret: None, normal: None, sp: STACK });
        Ok(st)
    }

    // ---------------------------------------------------------------- splits
    /// Constraints of the cases of a boolean term that is not constant.
    fn split(&mut self, st: &State, c: &Ex) -> Stop {
        self.cnt.branches_sym += 1;
        if let Some(v) = c.single() {
            let t = c.tset();
            let d = &st.dom[v as usize];
            let mut a = [0; 4];
            let mut b = [0; 4];
            for i in 0..4 {
                a[i] = t[i] & d[i];
                b[i] = !t[i] & d[i];
            }
            return Stop::Fork(vec![Con::Dom(v, a), Con::Dom(v, b)]);
        }
        if let Some(a) = find_bool_atom(c, st, 0) {
            return self.split(st, &a);
        }
        Stop::Fork(vec![Con::Cond(c.clone()), Con::Cond(not(c))])
    }
    fn concretize(&mut self, st: &State, e: &Ex) -> Rs<u64> {
        let e = st.resolve(e);
        if let Some(c) = e.as_const() {
            return Ok(c as u64);
        }
        self.cnt.branches_sym += 1;
        if e.single().is_some() {
            return Err(Stop::Fork(by_value(&e, st)));
        }
        let mut best = None;
        find_single(&e, st, &mut best);
        if let Some((_, s)) = best {
            return Err(Stop::Fork(by_value(&s, st)));
        }
        // wide variables: enumerate with the solver
        let mut out = vec![];
        let mut block: Vec<Ex> = vec![];
        loop {
            let mut cs: Vec<Ex> = st.pc.iter().cloned().collect();
            cs.extend(block.iter().cloned());
            let vars = all_vars(&cs, &e.vars);
            match self.solver.check(&cs, &vars, &st.dom) {
                Res::Unsat => break,
                Res::Unknown => return Err(Stop::Err("solver gave no answer".into())),
                Res::Sat(m) => {
                    let mut model = st.model.clone();
                    for (v, x) in m {
                        model[v as usize] = x;
                    }
                    let mut memo = HashMap::default();
                    let val = eval(&e, &model, &mut memo);
                    let q = cmp(P::Eq, &e, &k(val, e.w));
                    block.push(not(&q));
                    out.push(Con::Cond(q));
                    if out.len() > 300 {
                        return Err(Stop::Err("too many values for a symbolic address or size".into()));
                    }
                }
            }
        }
        Err(Stop::Fork(out))
    }
    /// Adds a constraint; false when the result is infeasible.
    pub fn constrain(&mut self, st: &mut State, c: &Con) -> Result<bool, String> {
        match c {
            Con::Dom(v, set) => {
                let d = &mut st.dom[*v as usize];
                let mut any = 0;
                for i in 0..4 {
                    d[i] &= set[i];
                    any |= d[i];
                }
                if any == 0 {
                    return Ok(false);
                }
                let d = *d;
                let m = st.model[*v as usize] as usize;
                if d[m / 64] >> (m % 64) & 1 != 0 {
                    self.solver.stats.model_hits += 1;
                    return Ok(true);
                }
                if !st.multi[*v as usize] {
                    self.solver.stats.dom_queries += 1;
                    if self.verify_dom {
                        if !matches!(self.solver.check(&[], &[*v], &st.dom), Res::Sat(_)) {
                            return Err("domain decision disagrees with z3".into());
                        }
                    }
                    st.model[*v as usize] = dom_iter(&d).next().unwrap() as u64;
                    return Ok(true);
                }
                self.resat(st, &[*v])
            }
            Con::Cond(e) => {
                let e = st.resolve(e);
                if let Some(c) = e.as_const() {
                    return Ok(c != 0);
                }
                if let Some(v) = e.single() {
                    let s = *e.tset();
                    return self.constrain(st, &Con::Dom(v, s));
                }
                // conjunctions are split
                if let Op::Bin(B::And, x, y) = &e.op {
                    let (x, y) = (x.clone(), y.clone());
                    return Ok(self.constrain(st, &Con::Cond(x))? && self.constrain(st, &Con::Cond(y))?);
                }
                Rc::make_mut(&mut st.pc).push(e.clone());
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(e.id, (e.clone(), 1));
                match &e.op {
                    Op::Bin(B::Xor, a, m) if m.as_const() == Some(1) => {
                        kn.insert(a.id, (a.clone(), 0));
                    }
                    Op::Cmp(P::Eq, a, b) => {
                        if let Some(c) = b.as_const() {
                            kn.insert(a.id, (a.clone(), c));
                        }
                    }
                    _ => {}
                }
                let mu = Rc::make_mut(&mut st.multi);
                for v in e.vars.iter() {
                    mu[*v as usize] = true;
                }
                if st.eval(&e) != 0 {
                    self.solver.stats.model_hits += 1;
                    return Ok(true);
                }
                let vs: Vec<u16> = e.vars.to_vec();
                self.resat(st, &vs)
            }
        }
    }
    fn resat(&mut self, st: &mut State, seed: &[u16]) -> Result<bool, String> {
        let (cs, vars) = component(st, seed);
        match self.solver.check(&cs, &vars, &st.dom) {
            Res::Unsat => Ok(false),
            Res::Unknown => Err("solver gave no answer".into()),
            Res::Sat(m) => {
                for (v, x) in m {
                    st.model[v as usize] = x;
                }
                Ok(true)
            }
        }
    }

    // ------------------------------------------------------------- execution
    fn push_call(&mut self, st: &mut State, fid: u32, args: Vec<Val>, ret: Option<R>, normal: Option<u32>) -> Rs<()> {
        let f = self.func(fid);
        if f.blocks.is_empty() {
            return Err(Stop::Err(format!("call of undefined {}", f.name)));
        }
        if st.frames.len() > 5000 {
            return Err(Stop::Violation("stack overflow (call depth over 5000)".into()));
        }
        *self.used.entry(fid).or_insert(0) += 1;
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(0));
        let sp = st.sp;
        st.frames.push(Frame { ip: f.blocks[0].start, f, regs, blk: 0, ret, normal, sp });
        Ok(())
    }

    fn jump(&mut self, st: &mut State, t: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            let from = fr.blk;
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = get(fr, o).clone();
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, inc)| get(fr, inc.iter().find(|x| x.0 == from).expect("phi edge").1).clone()).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = t;
        fr.ip = b.start;
    }

    /// Run until the state forks or stops. On Fork the current instruction has
    /// had no effect and is executed again by each successor.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let (f, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.ip)
            };
            self.cnt.instrs += 1;
            st.steps += 1;
            if st.steps > self.budget {
                return Stop::Violation(format!("no termination within {} instructions", self.budget));
            }
            if let Err(s) = self.step(st, &f, ip) {
                return s;
            }
        }
    }

    fn step(&mut self, st: &mut State, f: &Rc<Func>, ip: u32) -> Rs<()> {
        let ins = &f.code[ip as usize];
        macro_rules! fr { () => { st.frames.last_mut().unwrap() } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$d as usize] = v; fr.ip = ip + 1; return Ok(()); }} }
        match ins {
            I::Bin { op, w, d, a, b } => {
                let v = {
                    let fr = st.frames.last().unwrap();
                    let (x, y) = (get(fr, *a), get(fr, *b));
                    if let (Val::C(x), Val::C(y)) = (x, y) {
                        let (x, y) = (*x, *y);
                        let m = m64(*w);
                        Val::C(match op {
                            B::Add => x.wrapping_add(y) & m,
                            B::Sub => x.wrapping_sub(y) & m,
                            B::Mul => x.wrapping_mul(y) & m,
                            B::And => x & y,
                            B::Or => x | y,
                            B::Xor => x ^ y,
                            B::Shl if y < *w as u64 => (x << y) & m,
                            B::LShr if y < *w as u64 => x >> y,
                            B::UDiv | B::SDiv | B::URem | B::SRem if y == 0 => return Err(Stop::Violation("division by zero".into())),
                            _ => bin_c(*op, x as u128, y as u128, *w) as u64,
                        })
                    } else {
                        let (x, y) = (x.clone(), y.clone());
                        self.bin(st, *op, *w, &x, &y)?
                    }
                };
                set!(*d, v)
            }
            I::Cmp { p, w, d, a, b } => {
                let Pred::P(pp, sw, neg) = *p;
                let v = {
                    let fr = st.frames.last().unwrap();
                    let (x, y) = (get(fr, *a), get(fr, *b));
                    let (x, y) = if sw { (y, x) } else { (x, y) };
                    if let (Val::C(x), Val::C(y)) = (x, y) {
                        let r = match pp {
                            P::Eq => x == y,
                            P::Ult => x < y,
                            P::Ule => x <= y,
                            _ => cmp_c(pp, *x as u128, *y as u128, *w),
                        };
                        Val::C((r ^ neg) as u64)
                    } else {
                        cmpv(pp, neg, *w, x, y)
                    }
                };
                set!(*d, v)
            }
            I::Br { t } => {
                self.jump(st, *t);
                Ok(())
            }
            I::CondBr { c, t, f: fl } => {
                let cv = get(st.frames.last().unwrap(), *c).clone();
                let taken = match cv {
                    Val::C(x) => x & 1 != 0,
                    Val::E(e) => {
                        let r = st.resolve(&e);
                        match r.as_const() {
                            Some(x) => x != 0,
                            None => {
                                *self.symtouch.entry(f.id).or_insert(0) += 1;
                                return Err(self.split(st, &r));
                            }
                        }
                    }
                    _ => return Err(Stop::Err("branch on aggregate".into())),
                };
                self.jump(st, if taken { *t } else { *fl });
                Ok(())
            }
            I::Load { d, p, ty } => {
                let pv = get(st.frames.last().unwrap(), *p).clone();
                let v = self.load(st, &pv, ty)?;
                set!(*d, v)
            }
            I::Store { v, p, ty } => {
                let (vv, pv) = {
                    let fr = st.frames.last().unwrap();
                    (get(fr, *v).clone(), get(fr, *p).clone())
                };
                let a = self.addr(st, &pv)?;
                if !st.mem.mapped(a, ty_bytes(ty)) {
                    return Err(Stop::Violation(format!("store to unmapped address {:#x}", a)));
                }
                store(&mut st.mem, a, ty, &vv);
                fr!().ip = ip + 1;
                Ok(())
            }
            I::Gep { d, base, off, terms } => {
                let v = {
                    let fr = st.frames.last().unwrap();
                    let mut acc = *off;
                    let mut sym: Option<Ex> = None;
                    match get(fr, *base) {
                        Val::C(b) => acc = acc.wrapping_add(*b),
                        Val::E(e) => sym = Some(e.clone()),
                        _ => return Err(Stop::Err("gep base".into())),
                    }
                    for (o, w, s) in terms.iter() {
                        match get(fr, *o) {
                            Val::C(x) => {
                                let x = if *w < 64 { sext(*x as u128, *w) as u64 } else { *x };
                                acc = acc.wrapping_add(x.wrapping_mul(*s));
                            }
                            Val::E(e) => {
                                let e = if e.w < 64 { sexte(e, 64) } else { e.clone() };
                                let e = bin(B::Mul, &e, &k(*s as u128, 64));
                                sym = Some(match sym {
                                    None => e,
                                    Some(x) => bin(B::Add, &x, &e),
                                });
                            }
                            _ => return Err(Stop::Err("gep index".into())),
                        }
                    }
                    match sym {
                        None => Val::C(acc),
                        Some(e) => from_ex(bin(B::Add, &e, &k(acc as u128, 64))),
                    }
                };
                set!(*d, v)
            }
            I::Cast { k: kind, fw, tw, d, a } => {
                let x = get(st.frames.last().unwrap(), *a).clone();
                let v = self.cast(st, *kind, *fw, *tw, &x)?;
                set!(*d, v)
            }
            I::Select { d, c, a, b, ty, cv } => {
                let (c, a, b) = {
                    let fr = st.frames.last().unwrap();
                    (get(fr, *c).clone(), get(fr, *a).clone(), get(fr, *b).clone())
                };
                let v = if *cv {
                    let (c, a, b) = (agg(&c), agg(&a), agg(&b));
                    let w = match ty { Ty::Vec(_, w) => *w, _ => return Err(Stop::Err("select".into())) };
                    let mut o = vec![];
                    for i in 0..c.len() {
                        o.push(match &c[i] {
                            Val::C(x) => if x & 1 != 0 { a[i].clone() } else { b[i].clone() },
                            Val::E(e) => from_ex(ite(e, &to_ex(&a[i], w), &to_ex(&b[i], w))),
                            _ => return Err(Stop::Err("select".into())),
                        });
                    }
                    Val::A(Rc::new(o))
                } else {
                    match c {
                        Val::C(x) => if x & 1 != 0 { a } else { b },
                        Val::E(e) => {
                            let e = st.resolve(&e);
                            match e.as_const() {
                                Some(x) => if x != 0 { a } else { b },
                                None => match ty {
                                    Ty::Int(w) => from_ex(ite(&e, &to_ex(&a, *w), &to_ex(&b, *w))),
                                    _ => return Err(self.split(st, &e)),
                                },
                            }
                        }
                        _ => return Err(Stop::Err("select".into())),
                    }
                };
                set!(*d, v)
            }
            I::Switch { v, w, cases, list, def } => {
                let x = get(st.frames.last().unwrap(), *v).clone();
                let x = match &x {
                    Val::E(e) => from_ex(st.resolve(e)),
                    _ => x,
                };
                if let Some(c) = c128(&x) {
                    let t = cases.get(&c).copied().unwrap_or(*def);
                    self.jump(st, t);
                    return Ok(());
                }
                let e = to_ex(&x, *w);
                *self.symtouch.entry(f.id).or_insert(0) += 1;
                if let Some(v) = e.single() {
                    self.cnt.branches_sym += 1;
                    let t = e.tbl();
                    let mut groups: Vec<(u32, [u64; 4])> = vec![];
                    for i in dom_iter(&st.dom[v as usize]) {
                        let tg = cases.get(&(t[i] as u128)).copied().unwrap_or(*def);
                        let g = match groups.iter().position(|g| g.0 == tg) {
                            Some(p) => p,
                            None => {
                                groups.push((tg, [0; 4]));
                                groups.len() - 1
                            }
                        };
                        groups[g].1[i / 64] |= 1 << (i % 64);
                    }
                    if groups.len() == 1 {
                        self.jump(st, groups[0].0);
                        return Ok(());
                    }
                    return Err(Stop::Fork(groups.into_iter().map(|g| Con::Dom(v, g.1)).collect()));
                }
                if let Some(a) = find_bool_atom(&e, st, 0) {
                    return Err(self.split(st, &a));
                }
                // several variables: does one target take everything?
                let mut tg: HashMap<u32, Vec<u128>> = HashMap::new();
                let mut order = vec![];
                for (c, t) in list.iter() {
                    tg.entry(*t).or_insert_with(|| { order.push(*t); vec![] }).push(*c);
                }
                let mut cons = vec![];
                let mut none = k(1, 1);
                for t in &order {
                    if *t == *def { continue; }
                    let mut any = k(0, 1);
                    for c in &tg[t] {
                        any = bin(B::Or, &any, &cmp(P::Eq, &e, &k(*c, *w)));
                    }
                    none = bin(B::And, &none, &not(&any));
                    cons.push((any, *t));
                }
                cons.push((none, *def));
                // which are feasible?
                let mut feas = vec![];
                for (c, t) in cons {
                    let mut s2 = st.clone();
                    if self.constrain(&mut s2, &Con::Cond(c.clone())).map_err(Stop::Err)? {
                        feas.push((c, t));
                    }
                }
                if feas.len() == 1 {
                    self.jump(st, feas[0].1);
                    return Ok(());
                }
                // fork on one condition at a time so that re-execution makes progress
                Err(Stop::Fork(feas.into_iter().map(|x| Con::Cond(x.0)).collect()))
            }
            I::Ret { v } => {
                let rv = v.map(|o| get(st.frames.last().unwrap(), o).clone());
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let c = fr!();
                if let (Some(r), Some(v)) = (fr.ret, rv) {
                    c.regs[r as usize] = v;
                }
                match fr.normal {
                    Some(t) => self.jump(st, t),
                    None => c.ip += 1,
                }
                Ok(())
            }
            I::Call { d, f: callee, args, normal, rty } => {
                let fid = match callee {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let x = get(st.frames.last().unwrap(), *o).clone();
                        let a = self.addr(st, &x)?;
                        let id = a.wrapping_sub(FUNC_BASE) / 16;
                        if a < FUNC_BASE || id as usize >= self.m.funcs.len() {
                            return Err(Stop::Violation(format!("call through bad function pointer {:#x}", a)));
                        }
                        id as u32
                    }
                    Callee::Asm(s) => {
                        let v = match rty {
                            Ty::Void => None,
                            Ty::Agg(fs) => Some(Val::A(Rc::new(vec![Val::C(0); fs.len()]))),
                            Ty::Int(_) => Some(Val::C(0)),
                            _ => return Err(Stop::Err(format!("inline asm {}", s))),
                        };
                        if v.is_some() && !s.contains("cpuid") && !s.contains("xgetbv") {
                            return Err(Stop::Err(format!("inline asm {}", s)));
                        }
                        if let (Some(d), Some(v)) = (d, v) {
                            fr!().regs[*d as usize] = v;
                        }
                        fr!().ip = ip + 1;
                        return Ok(());
                    }
                };
                let av: Vec<Val> = {
                    let fr = st.frames.last().unwrap();
                    args.iter().map(|o| get(fr, *o).clone()).collect()
                };
                let b = self.bi[fid as usize];
                if b == Bi::No {
                    return self.push_call(st, fid, av, *d, *normal);
                }
                let r = self.builtin(st, b, fid, &av)?;
                if let (Some(d), Some(v)) = (d, r) {
                    fr!().regs[*d as usize] = v;
                }
                match normal {
                    Some(t) => self.jump(st, *t),
                    None => fr!().ip = ip + 1,
                }
                Ok(())
            }
            I::Intr { d, k: kind, args, ty, normal, aty } => {
                let av: Vec<Val> = {
                    let fr = st.frames.last().unwrap();
                    args.iter().map(|o| get(fr, *o).clone()).collect()
                };
                let r = self.intrinsic(st, kind, &av, ty, aty)?;
                if let (Some(d), Some(v)) = (d, r) {
                    fr!().regs[*d as usize] = v;
                }
                match normal {
                    Some(t) => self.jump(st, *t),
                    None => fr!().ip = ip + 1,
                }
                Ok(())
            }
            I::Alloca { d, size, align, n } => {
                let x = get(st.frames.last().unwrap(), *n).clone();
                let n = self.addr(st, &x)?;
                let a = (st.sp + align - 1) / align * align;
                let sz = size * n;
                st.sp = a + sz;
                if st.sp >= LIMIT - PAGE {
                    return Err(Stop::Violation("stack overflow".into()));
                }
                st.mem.map(a, sz.max(1));
                set!(*d, Val::C(a))
            }
            I::ExtractValue { d, a, idx } => {
                let mut v = get(st.frames.last().unwrap(), *a).clone();
                for i in idx.iter() {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        Val::C(0) => Val::C(0),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                set!(*d, v)
            }
            I::InsertValue { d, a, v, idx } => {
                let fr = st.frames.last().unwrap();
                let base = get(fr, *a).clone();
                let v = insert(base, idx, get(fr, *v).clone());
                set!(*d, v)
            }
            I::ExtractElem { d, a, i } => {
                let fr = st.frames.last().unwrap();
                let (a, i) = (get(fr, *a).clone(), get(fr, *i).clone());
                let i = self.addr(st, &i)?;
                let v = agg(&a)[i as usize].clone();
                set!(*d, v)
            }
            I::InsertElem { d, a, v, i } => {
                let fr = st.frames.last().unwrap();
                let (a, v, i) = (get(fr, *a).clone(), get(fr, *v).clone(), get(fr, *i).clone());
                let i = self.addr(st, &i)?;
                let mut x = agg(&a).to_vec();
                x[i as usize] = v;
                set!(*d, Val::A(Rc::new(x)))
            }
            I::Shuffle { d, a, b, mask, n } => {
                let fr = st.frames.last().unwrap();
                let (a, b) = (get(fr, *a).clone(), get(fr, *b).clone());
                let (a, b) = (agg(&a), agg(&b));
                let v: Vec<Val> = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 { Val::C(0) } else if (*m as u32) < *n { a[*m as usize].clone() } else { b[*m as usize - *n as usize].clone() }
                    })
                    .collect();
                set!(*d, Val::A(Rc::new(v)))
            }
            I::VBin { op, w, d, a, b } => {
                let fr = st.frames.last().unwrap();
                let (a, b) = (get(fr, *a).clone(), get(fr, *b).clone());
                let (a, b) = (agg(&a).to_vec(), agg(&b).to_vec());
                let mut o = vec![];
                for (x, y) in a.iter().zip(b.iter()) {
                    o.push(self.bin(st, *op, *w, x, y)?);
                }
                set!(*d, Val::A(Rc::new(o)))
            }
            I::VCmp { p, w, d, a, b } => {
                let fr = st.frames.last().unwrap();
                let (a, b) = (get(fr, *a).clone(), get(fr, *b).clone());
                let Pred::P(pp, sw, neg) = *p;
                let (a, b) = if sw { (b, a) } else { (a, b) };
                let o: Vec<Val> = agg(&a).iter().zip(agg(&b).iter()).map(|(x, y)| cmpv(pp, neg, *w, x, y)).collect();
                set!(*d, Val::A(Rc::new(o)))
            }
            I::VCast { k: kind, fw, tw, d, a } => {
                let a = get(st.frames.last().unwrap(), *a).clone();
                let mut o = vec![];
                for x in agg(&a).to_vec().iter() {
                    o.push(self.cast(st, *kind, *fw, *tw, x)?);
                }
                set!(*d, Val::A(Rc::new(o)))
            }
            I::BitCast { f, t, d, a } => {
                let v = get(st.frames.last().unwrap(), *a).clone();
                let v = bitcast(&v, f, t).ok_or_else(|| Stop::Err(format!("bitcast {:?} {:?}", f, t)))?;
                set!(*d, v)
            }
            I::Copy { d, a } => {
                let v = get(st.frames.last().unwrap(), *a).clone();
                set!(*d, v)
            }
            I::Rmw { d, op, p, v, w } => {
                let fr = st.frames.last().unwrap();
                let (p, v) = (get(fr, *p).clone(), get(fr, *v).clone());
                let a = self.addr(st, &p)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, &Val::C(a), &ty)?;
                let new = match op {
                    0 => v,
                    1 => self.bin(st, B::Add, *w, &old, &v)?,
                    2 => self.bin(st, B::Sub, *w, &old, &v)?,
                    3 => self.bin(st, B::And, *w, &old, &v)?,
                    5 => self.bin(st, B::Or, *w, &old, &v)?,
                    6 => self.bin(st, B::Xor, *w, &old, &v)?,
                    7..=10 => {
                        let (pp, sw) = match op { 7 => (P::Slt, true), 8 => (P::Slt, false), 9 => (P::Ult, true), _ => (P::Ult, false) };
                        let c = if sw { cmpv(pp, false, *w, &v, &old) } else { cmpv(pp, false, *w, &old, &v) };
                        match c {
                            Val::C(x) => if x != 0 { old.clone() } else { v },
                            _ => return Err(Stop::Err("symbolic atomic min/max".into())),
                        }
                    }
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                store(&mut st.mem, a, &ty, &new);
                set!(*d, old)
            }
            I::CmpXchg { d, p, c, n, w } => {
                let fr = st.frames.last().unwrap();
                let (p, c, n) = (get(fr, *p).clone(), get(fr, *c).clone(), get(fr, *n).clone());
                let a = self.addr(st, &p)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, &Val::C(a), &ty)?;
                let eq = match cmpv(P::Eq, false, *w, &old, &c) {
                    Val::C(x) => x != 0,
                    Val::E(e) => match st.resolve(&e).as_const() {
                        Some(x) => x != 0,
                        None => return Err(self.split(st, &e)),
                    },
                    _ => unreachable!(),
                };
                if eq {
                    store(&mut st.mem, a, &ty, &n);
                }
                set!(*d, Val::A(Rc::new(vec![old, Val::C(eq as u64)])))
            }
            I::FBin { op, w, d, a, b } => {
                let fr = st.frames.last().unwrap();
                let (a, b) = (get(fr, *a).clone(), get(fr, *b).clone());
                let (a, b) = (self.addr(st, &a)?, self.addr(st, &b)?);
                let r = if *w == 32 {
                    let (a, b) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match op { Fop::Add => a + b, Fop::Sub => a - b, Fop::Mul => a * b, Fop::Div => a / b, Fop::Rem => a % b }).to_bits() as u64
                } else {
                    let (a, b) = (f64::from_bits(a), f64::from_bits(b));
                    (match op { Fop::Add => a + b, Fop::Sub => a - b, Fop::Mul => a * b, Fop::Div => a / b, Fop::Rem => a % b }).to_bits()
                };
                set!(*d, Val::C(r))
            }
            I::FCmp { pred, w, d, a, b } => {
                let fr = st.frames.last().unwrap();
                let (a, b) = (get(fr, *a).clone(), get(fr, *b).clone());
                let (a, b) = (self.addr(st, &a)?, self.addr(st, &b)?);
                let (a, b) = if *w == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
                let un = a.is_nan() || b.is_nan();
                let r = match pred {
                    0 => false, 1 => !un && a == b, 2 => !un && a > b, 3 => !un && a >= b, 4 => !un && a < b, 5 => !un && a <= b, 6 => !un && a != b, 7 => !un,
                    8 => un, 9 => un || a == b, 10 => un || a > b, 11 => un || a >= b, 12 => un || a < b, 13 => un || a <= b, 14 => un || a != b, _ => true,
                };
                set!(*d, Val::C(r as u64))
            }
            I::FNeg { w, d, a } => {
                let a = get(st.frames.last().unwrap(), *a).clone();
                let a = self.addr(st, &a)?;
                set!(*d, Val::C(if *w == 32 { a ^ (1 << 31) } else { a ^ (1 << 63) }))
            }
            I::Unreachable => Err(Stop::Violation("reached an unreachable instruction (undefined behaviour)".into())),
            I::Bad(s) => Err(Stop::Err(s.clone())),
        }
    }

    fn bin(&mut self, st: &State, op: B, w: u16, x: &Val, y: &Val) -> Rs<Val> {
        if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
            let z = to_ex(y, w);
            let z = cmp(P::Eq, &st.resolve(&z), &k(0, w));
            match z.as_const() {
                Some(0) => {}
                Some(_) => return Err(Stop::Violation("division by zero".into())),
                None => return Err(self.split(st, &z)),
            }
        }
        if let (Some(a), Some(b)) = (c128(x), c128(y)) {
            return Ok(mk(bin_c(op, a, b, w), w));
        }
        Ok(from_ex(bin(op, &to_ex(x, w), &to_ex(y, w))))
    }
    fn cast(&mut self, st: &State, kind: CastK, fw: u16, tw: u16, x: &Val) -> Rs<Val> {
        Ok(match kind {
            CastK::Trunc => match x {
                Val::C(c) => Val::C(c & m64(tw)),
                Val::W(_) => mk(c128(x).unwrap(), tw),
                _ => from_ex(ext(0, tw, &to_ex(x, fw))),
            },
            CastK::ZExt | CastK::Same => match c128(x) {
                Some(c) => mk(c, tw),
                None => from_ex(zext(&to_ex(x, fw), tw)),
            },
            CastK::SExt => match c128(x) {
                Some(c) => mk(sext(c, fw), tw),
                None => from_ex(sexte(&to_ex(x, fw), tw)),
            },
            _ => {
                let c = self.addr(st, x)?;
                let f = if fw == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let fo = |d: f64| if tw == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                match kind {
                    CastK::FpToUi => mk(f as u128, tw),
                    CastK::FpToSi => mk(f as i128 as u128, tw),
                    CastK::UiToFp => Val::C(if tw == 32 { (c as f32).to_bits() as u64 } else { (c as f64).to_bits() }),
                    CastK::SiToFp => {
                        let s = sext(c as u128, fw) as i128;
                        Val::C(if tw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() })
                    }
                    _ => Val::C(fo(f)),
                }
            }
        })
    }
    /// A concrete 64-bit value, forking over the feasible ones if symbolic.
    pub fn addr(&mut self, st: &State, v: &Val) -> Rs<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(c[0]),
            Val::E(e) => self.concretize(st, e),
            Val::A(_) => Err(Stop::Err("aggregate as address".into())),
        }
    }
    fn load(&mut self, st: &State, p: &Val, ty: &Ty) -> Rs<Val> {
        let a = match p {
            Val::C(c) => *c,
            Val::E(e) => {
                let e = st.resolve(e);
                match e.as_const() {
                    Some(c) => c as u64,
                    None => {
                        if let (Some(v), Ty::Int(w)) = (e.single(), ty) {
                            if *w <= 64 {
                                if let Some(x) = self.table_load(st, &e, v, *w) {
                                    return Ok(x);
                                }
                            }
                        }
                        self.concretize(st, &e)?
                    }
                }
            }
            _ => return Err(Stop::Err("load address".into())),
        };
        load_at(&st.mem, a, ty).ok_or_else(|| Stop::Violation(format!("load from unmapped address {:#x}", a)))
    }
    /// Load through an address that depends on one byte: becomes a table term.
    fn table_load(&mut self, st: &State, e: &Ex, v: u16, w: u16) -> Option<Val> {
        let t = e.tbl();
        let mut out = [0u64; 256];
        let n = (w as u64 + 7) / 8;
        for i in dom_iter(&st.dom[v as usize]) {
            if !st.mem.mapped(t[i], n) {
                return None;
            }
            match st.mem.read(t[i], n, w)? {
                Val::C(c) => out[i] = c,
                _ => return None,
            }
        }
        Some(from_ex(st.resolve(&tab(v, Rc::new(out), w))))
    }

    fn intrinsic(&mut self, st: &mut State, kind: &Intr, a: &[Val], ty: &Ty, aty: &Ty) -> Rs<Option<Val>> {
        let w = match aty { Ty::Int(w) => *w, Ty::Vec(_, w) => *w, _ => 64 };
        let lane = |me: &mut Self, st: &State, f: &dyn Fn(&mut Engine, &State, &[Val]) -> Rs<Val>| -> Rs<Option<Val>> {
            if let Ty::Vec(n, _) = aty {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let xs: Vec<Val> = a.iter().map(|x| match x { Val::A(v) => v[i].clone(), o => o.clone() }).collect();
                    o.push(f(me, st, &xs)?);
                }
                Ok(Some(Val::A(Rc::new(o))))
            } else {
                Ok(Some(f(me, st, a)?))
            }
        };
        match kind {
            Intr::Memcpy | Intr::Memmove => {
                let n = self.addr(st, &a[2])?;
                let (d, s) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                if n > 0 && (!st.mem.mapped(d, n) || !st.mem.mapped(s, n)) {
                    return Err(Stop::Violation(format!("memory copy of {} bytes outside mapped memory", n)));
                }
                st.mem.copy(d, s, n);
                Ok(None)
            }
            Intr::Memset => {
                let n = self.addr(st, &a[2])?;
                let d = self.addr(st, &a[0])?;
                if n > 0 && !st.mem.mapped(d, n) {
                    return Err(Stop::Violation("memset outside mapped memory".into()));
                }
                match &a[1] {
                    Val::C(c) => { st.mem.fill(d, n, *c as u8); }
                    v => for i in 0..n { st.mem.write(d + i, 1, v); },
                }
                Ok(None)
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => lane(self, st, &|_, _, x| {
                let (p, sw) = match kind { Intr::Umin => (P::Ult, false), Intr::Umax => (P::Ult, true), Intr::Smin => (P::Slt, false), _ => (P::Slt, true) };
                let c = if sw { cmpv(p, false, w, &x[1], &x[0]) } else { cmpv(p, false, w, &x[0], &x[1]) };
                Ok(match c {
                    Val::C(c) => if c != 0 { x[0].clone() } else { x[1].clone() },
                    Val::E(e) => from_ex(ite(&e, &to_ex(&x[0], w), &to_ex(&x[1], w))),
                    _ => unreachable!(),
                })
            }),
            Intr::Abs => lane(self, st, &|_, _, x| {
                if let Some(c) = c128(&x[0]) {
                    let s = sext(c, w) as i128;
                    return Ok(mk(s.unsigned_abs(), w));
                }
                let e = to_ex(&x[0], w);
                Ok(from_ex(ite(&cmp(P::Slt, &e, &k(0, w)), &bin(B::Sub, &k(0, w), &e), &e)))
            }),
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse => lane(self, st, &|me, st, x| {
                let conc = |c: u128| -> u128 {
                    match kind {
                        Intr::Cttz => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
                        Intr::Ctlz => (c.leading_zeros() as u128) - (128 - w as u128),
                        Intr::Ctpop => c.count_ones() as u128,
                        Intr::Bswap => c.swap_bytes() >> (128 - w as u32),
                        _ => c.reverse_bits() >> (128 - w as u32),
                    }
                };
                if let Some(c) = c128(&x[0]) {
                    return Ok(mk(conc(c), w));
                }
                let e = st.resolve(&to_ex(&x[0], w));
                if let Some(c) = e.as_const() {
                    return Ok(mk(conc(c), w));
                }
                if let Some(v) = e.single() {
                    let t = e.tbl();
                    let mut o = [0u64; 256];
                    for i in 0..256 { o[i] = conc(t[i] as u128) as u64; }
                    return Ok(from_ex(tab(v, Rc::new(o), w)));
                }
                if *kind == Intr::Bswap {
                    let mut acc = ext(0, 8, &e);
                    for i in 1..w / 8 { acc = cat(&acc, &ext(8 * i, 8, &e)); }
                    return Ok(from_ex(acc));
                }
                if e.bytevars && !matches!(kind, Intr::Ctpop) {
                    // decide bit by bit: find the first set bit by forking
                    let order: Vec<u16> = if *kind == Intr::Cttz { (0..w).collect() } else { (0..w).rev().collect() };
                    if matches!(kind, Intr::Cttz | Intr::Ctlz) {
                        for (n, b) in order.iter().enumerate() {
                            let bit = st.resolve(&ext(*b, 1, &e));
                            match bit.as_const() {
                                Some(0) => continue,
                                Some(_) => return Ok(mk(n as u128, w)),
                                None => return Err(me.split(st, &bit)),
                            }
                        }
                        return Ok(mk(w as u128, w));
                    }
                }
                // general encoding
                let r = match kind {
                    Intr::Cttz => { let mut r = k(w as u128, w); for b in (0..w).rev() { r = ite(&ext(b, 1, &e), &k(b as u128, w), &r); } r }
                    Intr::Ctlz => { let mut r = k(w as u128, w); for b in 0..w { r = ite(&ext(b, 1, &e), &k((w - 1 - b) as u128, w), &r); } r }
                    Intr::Ctpop => { let mut r = k(0, w); for b in 0..w { r = bin(B::Add, &r, &zext(&ext(b, 1, &e), w)); } r }
                    _ => { let mut acc = ext(0, 1, &e); for b in 1..w { acc = cat(&acc, &ext(b, 1, &e)); } acc }
                };
                Ok(from_ex(r))
            }),
            Intr::Fshl | Intr::Fshr => lane(self, st, &|me, st, x| {
                let s = me.addr(st, &x[2])? % w as u64;
                let s = if *kind == Intr::Fshl { s as u16 } else { (w - s as u16) % w };
                if s == 0 {
                    return Ok(if *kind == Intr::Fshl { x[0].clone() } else { x[1].clone() });
                }
                if let (Some(a), Some(b)) = (c128(&x[0]), c128(&x[1])) {
                    return Ok(mk((a << s) | (b >> (w - s)), w));
                }
                let (h, l) = (to_ex(&x[0], w), to_ex(&x[1], w));
                Ok(from_ex(cat(&ext(0, w - s, &h), &ext(w - s, s, &l))))
            }),
            Intr::AddO(s) | Intr::SubO(s) | Intr::MulO(s) => {
                if matches!(aty, Ty::Vec(..)) { return Err(Stop::Err("vector overflow op".into())); }
                let op = match kind { Intr::AddO(_) => B::Add, Intr::SubO(_) => B::Sub, _ => B::Mul };
                if let (Some(x), Some(y)) = (c128(&a[0]), c128(&a[1])) {
                    let r = bin_c(op, x, y, w);
                    let o = if *s {
                        let (x, y) = (sext(x, w) as i128, sext(y, w) as i128);
                        let f = match op { B::Add => x.checked_add(y), B::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                        f.map_or(true, |f| f != sext(r, w) as i128)
                    } else {
                        match op {
                            B::Add => x.checked_add(y).map_or(true, |f| f > mask(w)),
                            B::Sub => x < y,
                            _ => x.checked_mul(y).map_or(true, |f| f > mask(w)),
                        }
                    };
                    return Ok(Some(Val::A(Rc::new(vec![mk(r, w), Val::C(o as u64)]))));
                }
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                let r = bin(op, &x, &y);
                let o = match (op, s) {
                    (B::Add, false) => cmp(P::Ult, &r, &x),
                    (B::Sub, false) => cmp(P::Ult, &x, &y),
                    (B::Mul, false) if x.as_const().or(y.as_const()).is_some() => {
                        let (c, v) = if let Some(c) = x.as_const() { (c, &y) } else { (y.as_const().unwrap(), &x) };
                        if c == 0 { k(0, 1) } else { cmp(P::Ult, &k(mask(w) / c, w), v) }
                    }
                    _ => {
                        let w2 = match op { B::Mul => w * 2, _ => w + 1 };
                        if w2 > 128 { return Err(Stop::Err("wide overflow multiplication".into())); }
                        let e = |q: &Ex| if *s { sexte(q, w2) } else { zext(q, w2) };
                        let full = bin(op, &e(&x), &e(&y));
                        not(&cmp(P::Eq, &full, &e(&r)))
                    }
                };
                Ok(Some(Val::A(Rc::new(vec![from_ex(r), from_ex(o)]))))
            }
            Intr::AddCarry(sub) => {
                let (c, x, y) = (to_ex(&a[0], 8), to_ex(&a[1], 64), to_ex(&a[2], 64));
                let c = ite(&cmp(P::Eq, &c, &k(0, 8)), &k(0, 65), &k(1, 65));
                let op = if *sub { B::Sub } else { B::Add };
                let r = bin(op, &bin(op, &zext(&x, 65), &zext(&y, 65)), &c);
                Ok(Some(Val::A(Rc::new(vec![from_ex(zext(&ext(64, 1, &r), 8)), from_ex(ext(0, 64, &r))]))))
            }
            Intr::UaddSat | Intr::UsubSat => lane(self, st, &|_, _, x| {
                if let (Some(p), Some(q)) = (c128(&x[0]), c128(&x[1])) {
                    return Ok(mk(if *kind == Intr::UaddSat { p.saturating_add(q).min(mask(w)) } else { p.saturating_sub(q) }, w));
                }
                let (p, q) = (to_ex(&x[0], w), to_ex(&x[1], w));
                Ok(from_ex(if *kind == Intr::UaddSat {
                    let r = bin(B::Add, &p, &q);
                    ite(&cmp(P::Ult, &r, &p), &k(mask(w), w), &r)
                } else {
                    ite(&cmp(P::Ult, &p, &q), &k(0, w), &bin(B::Sub, &p, &q))
                }))
            }),
            Intr::SaddSat | Intr::SsubSat => lane(self, st, &|_, _, x| {
                match (c128(&x[0]), c128(&x[1])) {
                    (Some(p), Some(q)) => {
                        let (p, q) = (sext(p, w) as i128, sext(q, w) as i128);
                        let r = if *kind == Intr::SaddSat { p + q } else { p - q };
                        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        Ok(mk(r.clamp(lo, hi) as u128, w))
                    }
                    _ => Err(Stop::Err("symbolic signed saturation".into())),
                }
            }),
            Intr::Scmp | Intr::Ucmp => {
                let rw = match ty { Ty::Int(w) => *w, _ => return Err(Stop::Err("vector cmp".into())) };
                let p = if *kind == Intr::Scmp { P::Slt } else { P::Ult };
                if let (Some(x), Some(y)) = (c128(&a[0]), c128(&a[1])) {
                    return Ok(Some(mk(if x == y { 0 } else if cmp_c(p, x, y, w) { u128::MAX } else { 1 }, rw)));
                }
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                Ok(Some(from_ex(ite(&cmp(p, &x, &y), &k(u128::MAX, rw), &ite(&cmp(P::Eq, &x, &y), &k(0, rw), &k(1, rw))))))
            }
            Intr::Trap => Err(Stop::Violation("trap".into())),
            Intr::Tls | Intr::Expect => Ok(Some(a[0].clone())),
            Intr::IsConst => Ok(Some(Val::C(0))),
            Intr::PtrMask => Ok(Some(self.bin(st, B::And, 64, &a[0], &a[1])?)),
            Intr::Pmovmskb => {
                let v = agg(&a[0]);
                if v.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u64;
                    for (i, x) in v.iter().enumerate() {
                        if let Val::C(c) = x { r |= (c >> 7 & 1) << i; }
                    }
                    return Ok(Some(Val::C(r)));
                }
                let mut acc: Option<Ex> = None;
                for x in v.iter().rev() {
                    let b = ext(7, 1, &to_ex(x, 8));
                    acc = Some(match acc { None => b, Some(h) => cat(&h, &b) });
                }
                Ok(Some(from_ex(zext(&acc.unwrap(), 32))))
            }
            Intr::Pshufb => {
                let (v, m) = (agg(&a[0]).to_vec(), agg(&a[1]).to_vec());
                let mut o = vec![];
                for x in m {
                    let i = self.addr(st, &x)?;
                    o.push(if i & 128 != 0 { Val::C(0) } else { v[(i & 15) as usize].clone() });
                }
                Ok(Some(Val::A(Rc::new(o))))
            }
            Intr::VReduceAdd | Intr::VReduceOr | Intr::VReduceAnd | Intr::VReduceXor => {
                let op = match kind { Intr::VReduceAdd => B::Add, Intr::VReduceOr => B::Or, Intr::VReduceAnd => B::And, _ => B::Xor };
                let v = agg(&a[0]).to_vec();
                let mut acc = v[0].clone();
                for x in &v[1..] { acc = self.bin(st, op, w, &acc, x)?; }
                Ok(Some(acc))
            }
            Intr::VReduceUmax | Intr::VReduceUmin => {
                let v = agg(&a[0]).to_vec();
                let mut acc = to_ex(&v[0], w);
                for x in &v[1..] {
                    let x = to_ex(x, w);
                    let c = cmp(P::Ult, &acc, &x);
                    acc = if *kind == Intr::VReduceUmax { ite(&c, &x, &acc) } else { ite(&c, &acc, &x) };
                }
                Ok(Some(from_ex(acc)))
            }
            Intr::FAbs | Intr::FFloor | Intr::FCeil | Intr::FTrunc | Intr::FRound | Intr::FLog2 => {
                let c = self.addr(st, &a[0])?;
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let r = match kind { Intr::FAbs => f.abs(), Intr::FFloor => f.floor(), Intr::FCeil => f.ceil(), Intr::FTrunc => f.trunc(), Intr::FLog2 => f.log2(), _ => f.round() };
                Ok(Some(Val::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })))
            }
            Intr::FpToSat(s) => {
                let c = self.addr(st, &a[0])?;
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let tw = match ty { Ty::Int(w) => *w, _ => return Err(Stop::Err("vector fp".into())) };
                let r = if *s {
                    let (lo, hi) = (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1);
                    (f as i128).clamp(lo, hi) as u128
                } else {
                    (f as u128).min(mask(tw))
                };
                Ok(Some(mk(r, tw)))
            }
            Intr::LoadRel => {
                let b = self.addr(st, &a[0])?;
                let o = self.addr(st, &a[1])?;
                match self.load(st, &Val::C(b.wrapping_add(o)), &Ty::Int(32))? {
                    Val::C(x) => Ok(Some(Val::C(b.wrapping_add(sext(x as u128, 32) as u64)))),
                    _ => Err(Stop::Err("load.relative".into())),
                }
            }
            k => Err(Stop::Err(format!("intrinsic {:?}", k))),
        }
    }

    fn new_sym(&mut self, st: &mut State, w: u16, set: [u64; 4]) -> Val {
        let v = st.dom.len();
        if let Some(f) = &self.fixed {
            let x = f.get(v).copied().unwrap_or(0);
            st.dom.push([u64::MAX; 4]);
            st.dom0.push([u64::MAX; 4]);
            st.wide.push(w);
            st.model.push(x);
            Rc::make_mut(&mut st.multi).push(false);
            return Val::C(x);
        }
        let e = ensure_var(v, w);
        st.dom.push(set);
        st.dom0.push(set);
        st.wide.push(w);
        Rc::make_mut(&mut st.multi).push(w != 8);
        st.model.push(if w == 8 { dom_iter(&set).next().unwrap() as u64 } else { 0 });
        from_ex(st.resolve(&e))
    }

    fn cmp_bytes(&mut self, st: &State, a: u64, b: u64, n: u64, ordered: bool) -> Rs<Val> {
        let bad = || Stop::Violation("memory comparison outside mapped memory".to_string());
        for i in 0..n {
            let x = st.mem.byte(a + i).ok_or_else(bad)?;
            let y = st.mem.byte(b + i).ok_or_else(bad)?;
            if let (By::C(x), By::C(y)) = (&x, &y) {
                if x != y {
                    return Ok(Val::C(if x < y { 0xffff_ffff } else { 1 }));
                }
                continue;
            }
            let t = |b: By| match b { By::C(c) => k(c as u128, 8), By::S(e) => e };
            let (x, y) = (st.resolve(&t(x)), st.resolve(&t(y)));
            let eq = st.resolve(&cmp(P::Eq, &x, &y));
            match eq.as_const() {
                Some(1) => continue,
                Some(_) => {
                    if !ordered {
                        return Ok(Val::C(1));
                    }
                    let lt = st.resolve(&cmp(P::Ult, &x, &y));
                    match lt.as_const() {
                        Some(c) => return Ok(Val::C(if c != 0 { 0xffff_ffff } else { 1 })),
                        None => return Err(self.split(st, &lt)),
                    }
                }
                None => return Err(self.split(st, &eq)),
            }
        }
        Ok(Val::C(0))
    }

    fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, a: &[Val]) -> Rs<Option<Val>> {
        use Bi::*;
        Ok(match b {
            Malloc => {
                let n = self.addr(st, &a[0])?;
                if n > 1 << 30 { return Err(Stop::Violation(format!("allocation of {} bytes", n))); }
                Some(Val::C(st.mem.malloc(n, 16)))
            }
            Calloc => {
                let n = self.addr(st, &a[0])?.wrapping_mul(self.addr(st, &a[1])?);
                if n > 1 << 30 { return Err(Stop::Violation(format!("allocation of {} bytes", n))); }
                let p = st.mem.malloc(n, 16);
                st.mem.fill(p, n, 0);
                Some(Val::C(p))
            }
            Realloc => {
                let p = self.addr(st, &a[0])?;
                let n = self.addr(st, &a[1])?;
                if n > 1 << 30 { return Err(Stop::Violation(format!("allocation of {} bytes", n))); }
                if p == 0 { return Ok(Some(Val::C(st.mem.malloc(n, 16)))); }
                let old = st.mem.size_of(p).ok_or_else(|| Stop::Err("realloc".into()))?;
                let q = st.mem.malloc(n, 16);
                st.mem.copy(q, p, old.min(n));
                st.mem.free(p);
                Some(Val::C(q))
            }
            Free => {
                let p = self.addr(st, &a[0])?;
                if p != 0 { st.mem.free(p); }
                None
            }
            PosixMemalign => {
                let (o, al, n) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?, self.addr(st, &a[2])?);
                let p = st.mem.malloc(n, al);
                st.mem.write(o, 8, &Val::C(p));
                Some(Val::C(0))
            }
            AlignedAlloc => {
                let (al, n) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                Some(Val::C(st.mem.malloc(n, al)))
            }
            Memcmp | Bcmp => {
                let n = self.addr(st, &a[2])?;
                let (x, y) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                Some(self.cmp_bytes(st, x, y, n, b == Memcmp)?)
            }
            Strlen => {
                let p = self.addr(st, &a[0])?;
                let mut n = 0;
                loop {
                    match st.mem.byte(p + n) {
                        Some(By::C(0)) => break,
                        Some(By::C(_)) => n += 1,
                        _ => return Err(Stop::Err("strlen".into())),
                    }
                }
                Some(Val::C(n))
            }
            Memchr | Memrchr => {
                let (p, c, n) = (self.addr(st, &a[0])?, self.addr(st, &a[1])? as u8, self.addr(st, &a[2])?);
                let idx: Vec<u64> = if b == Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    match st.mem.byte(p + i) {
                        Some(By::C(x)) => if x == c { return Ok(Some(Val::C(p + i))); },
                        Some(By::S(e)) => {
                            let q = st.resolve(&cmp(P::Eq, &e, &k(c as u128, 8)));
                            match q.as_const() {
                                Some(0) => {}
                                Some(_) => return Ok(Some(Val::C(p + i))),
                                None => return Err(self.split(st, &q)),
                            }
                        }
                        _ => return Err(Stop::Violation("memchr outside mapped memory".into())),
                    }
                }
                Some(Val::C(0))
            }
            Memcpy | Memmove => {
                self.intrinsic(st, &Intr::Memcpy, a, &Ty::Void, &Ty::Int(64))?;
                Some(a[0].clone())
            }
            Memset => {
                let x = [a[0].clone(), self.cast(st, CastK::Trunc, 32, 8, &a[1])?, a[2].clone()];
                self.intrinsic(st, &Intr::Memset, &x, &Ty::Void, &Ty::Int(64))?;
                Some(a[0].clone())
            }
            Abort => return Err(Stop::Violation("abort".into())),
            Panic => {
                if st.allow_panic { return Err(Stop::Done); }
                let mut where_ = String::new();
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let Some(s) = location(&st.mem, *p) {
                            where_ = s;
                            break;
                        }
                    }
                }
                return Err(Stop::Violation(format!("panic at {}", where_)));
            }
            Write => Some(a[2].clone()),
            Writev => {
                let (p, n) = (self.addr(st, &a[1])?, self.addr(st, &a[2])?);
                let mut t = 0;
                for i in 0..n {
                    if let Some(Val::C(x)) = st.mem.read(p + 16 * i + 8, 8, 64) { t += x; }
                }
                Some(Val::C(t))
            }
            Zero => Some(Val::C(0)),
            One => Some(Val::C(1)),
            MinusOne => {
                if st.errno == 0 { st.errno = st.mem.malloc(16, 16); }
                st.mem.write(st.errno, 4, &Val::C(38));
                Some(Val::C(u64::MAX))
            }
            Sysconf => Some(Val::C(4096)),
            Getenv => {
                let p = self.addr(st, &a[0])?;
                let name = c_str(st, p)?;
                Some(Val::C(st.env.iter().rev().find(|e| e.0 == name).map_or(0, |e| e.1)))
            }
            Setenv => {
                let (n, v) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let (n, v) = (c_str(st, n)?, c_str(st, v)?);
                let p = st.mem.malloc(v.len() as u64 + 1, 1);
                st.mem.write_bytes(p, &v);
                st.mem.fill(p + v.len() as u64, 1, 0);
                Rc::make_mut(&mut st.env).push((n, p));
                Some(Val::C(0))
            }
            Clock => {
                let p = self.addr(st, &a[1])?;
                st.mem.write(p, 8, &Val::C(1_700_000_000));
                st.mem.write(p + 8, 8, &Val::C(0));
                Some(Val::C(0))
            }
            Getrandom => {
                let (p, n) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                st.mem.fill(p, n, 0x5a);
                Some(Val::C(n))
            }
            Errno => {
                if st.errno == 0 { st.errno = st.mem.malloc(16, 16); }
                Some(Val::C(st.errno))
            }
            SymU8 => Some(self.new_sym(st, 8, [u64::MAX; 4])),
            SymU16 => Some(self.new_sym(st, 16, [u64::MAX; 4])),
            SymU32 => Some(self.new_sym(st, 32, [u64::MAX; 4])),
            SymU64 => Some(self.new_sym(st, 64, [u64::MAX; 4])),
            SymRange => {
                let (lo, hi) = (self.addr(st, &a[0])? & 255, self.addr(st, &a[1])? & 255);
                let mut s = [0u64; 4];
                for i in lo..=hi { s[i as usize / 64] |= 1 << (i % 64); }
                Some(self.new_sym(st, 8, s))
            }
            SymIn => {
                let (p, n) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let mut s = [0u64; 4];
                for i in 0..n {
                    match st.mem.byte(p + i) {
                        Some(By::C(c)) => s[c as usize / 64] |= 1 << (c % 64),
                        _ => return Err(Stop::Err("zsym_in: alphabet".into())),
                    }
                }
                Some(self.new_sym(st, 8, s))
            }
            Assume => match self.truth(st, &a[0])? {
                true => None,
                false => return Err(Stop::Pruned),
            },
            Assert => {
                st.asserts += 1;
                let c = match &a[0] {
                    Val::C(x) => { self.cnt.asserts_concrete += 1; x & 1 != 0 }
                    Val::E(e) => {
                        let e = st.resolve(&ext(0, 1, e));
                        // the solver decides: path condition and not assertion
                        self.cnt.asserts_symbolic += 1;
                        let neg = not(&e);
                        let vs: Vec<u16> = e.vars.to_vec();
                        let (mut cs, mut vars) = component(st, &vs);
                        cs.push(neg.clone());
                        vars.extend(vs);
                        vars.sort();
                        vars.dedup();
                        match self.solver.check(&cs, &vars, &st.dom) {
                            Res::Unsat => true,
                            Res::Unknown => return Err(Stop::Err("solver gave no answer".into())),
                            Res::Sat(m) => {
                                for (v, x) in m { st.model[v as usize] = x; }
                                false
                            }
                        }
                    }
                    _ => false,
                };
                if !c {
                    let (p, n) = (self.addr(st, &a[1])?, self.addr(st, &a[2])?);
                    let mut s = vec![];
                    for i in 0..n { if let Some(By::C(c)) = st.mem.byte(p + i) { s.push(c); } }
                    return Err(Stop::Violation(format!("assertion: {}", String::from_utf8_lossy(&s))));
                }
                None
            }
            Out => {
                st.trace = Some(Rc::new(Trace { v: a[0].clone(), prev: st.trace.take() }));
                None
            }
            Cover => {
                let i = self.addr(st, &a[0])? as u32;
                if !st.covers.contains(&i) { Rc::make_mut(&mut st.covers).push(i); }
                None
            }
            Param => {
                let i = self.addr(st, &a[0])? as usize;
                Some(Val::C(self.params.get(i).copied().unwrap_or(0)))
            }
            AllowPanic => {
                st.allow_panic = self.addr(st, &a[0])? & 1 != 0;
                None
            }
            Conc => Some(Val::C(self.addr(st, &a[0])?)),
            Begin => { st.steps = 0; None }
            Symbolic => Some(Val::C(self.fixed.is_none() as u64)),
            No | Unknown => return Err(Stop::Err(format!("unmodelled external function {}", self.m.funcs[fid as usize].name))),
        })
    }
    fn truth(&mut self, st: &State, v: &Val) -> Rs<bool> {
        match v {
            Val::C(x) => Ok(x & 1 != 0),
            Val::E(e) => {
                let r = st.resolve(&ext(0, 1, e));
                match r.as_const() {
                    Some(x) => Ok(x != 0),
                    None => Err(self.split(st, &r)),
                }
            }
            _ => Err(Stop::Err("truth".into())),
        }
    }
}

fn location(m: &Mem, p: u64) -> Option<String> {
    if !m.mapped(p, 24) { return None; }
    let r = |a: u64, n: u64| match m.read(a, n, (n * 8) as u16) { Some(Val::C(c)) => Some(c), _ => None };
    let (f, n, l, c) = (r(p, 8)?, r(p + 8, 8)?, r(p + 16, 4)?, r(p + 20, 4)?);
    if n == 0 || n > 400 || !m.mapped(f, n) || l == 0 || l > 100_000 { return None; }
    let mut s = vec![];
    for i in 0..n { s.push(r(f + i, 1)? as u8); }
    let s = String::from_utf8(s).ok()?;
    if !s.contains(".rs") { return None; }
    Some(format!("{}:{}:{}", s.trim_end_matches('\0'), l, c))
}

pub fn all_vars(cs: &[Ex], extra: &[u16]) -> Vec<u16> {
    let mut v: Vec<u16> = extra.to_vec();
    for c in cs { v.extend(c.vars.iter()); }
    v.sort();
    v.dedup();
    v
}
pub fn component(st: &State, seed: &[u16]) -> (Vec<Ex>, Vec<u16>) {
    let mut vars: Vec<u16> = seed.to_vec();
    let mut taken = vec![false; st.pc.len()];
    let mut cs = vec![];
    loop {
        let mut ch = false;
        for (i, c) in st.pc.iter().enumerate() {
            if !taken[i] && c.vars.iter().any(|v| vars.contains(v)) {
                taken[i] = true;
                ch = true;
                cs.push(c.clone());
                for v in c.vars.iter() { if !vars.contains(v) { vars.push(*v); } }
            }
        }
        if !ch { break; }
    }
    vars.sort();
    vars.dedup();
    (cs, vars)
}

#[inline]
fn get(fr: &Frame, o: O) -> &Val {
    if o.0 & KBIT != 0 { &fr.f.consts[(o.0 & !KBIT) as usize] } else { &fr.regs[o.0 as usize] }
}
fn agg(v: &Val) -> &[Val] {
    match v {
        Val::A(x) => x,
        _ => panic!("not an aggregate: {:?}", v),
    }
}
fn insert(base: Val, idx: &[u32], v: Val) -> Val {
    if idx.is_empty() { return v; }
    match base {
        Val::A(mut x) => {
            let i = idx[0] as usize;
            let old = x[i].clone();
            let n = insert(old, &idx[1..], v);
            Rc::make_mut(&mut x)[i] = n;
            Val::A(x)
        }
        _ => panic!("insertvalue"),
    }
}
fn cmpv(p: P, neg: bool, w: u16, x: &Val, y: &Val) -> Val {
    if let (Some(a), Some(b)) = (c128(x), c128(y)) {
        return Val::C((cmp_c(p, a, b, w) ^ neg) as u64);
    }
    let e = cmp(p, &to_ex(x, w), &to_ex(y, w));
    from_ex(if neg { not(&e) } else { e })
}
pub fn ty_bytes(t: &Ty) -> u64 {
    match t {
        Ty::Void => 0,
        Ty::Int(w) => (*w as u64 + 7) / 8,
        Ty::Vec(n, w) => (*n as u64 * *w as u64 + 7) / 8,
        Ty::Agg(f) => f.last().map_or(0, |(o, t)| o + ty_bytes(t)),
    }
}
fn load_at(m: &Mem, a: u64, ty: &Ty) -> Option<Val> {
    if a < 65536 { return None; }
    match ty {
        Ty::Int(w) if *w <= 128 => m.read(a, (*w as u64 + 7) / 8, *w),
        Ty::Vec(n, w) => {
            if *w % 8 != 0 {
                let tot = *n * *w;
                let x = m.read(a, (tot as u64 + 7) / 8, tot)?;
                return bitcast(&x, &Ty::Int(tot), ty);
            }
            let b = (*w / 8) as u64;
            let mut o = vec![];
            for i in 0..*n as u64 { o.push(m.read(a + i * b, b, *w)?); }
            Some(Val::A(Rc::new(o)))
        }
        Ty::Agg(f) => {
            let mut o = vec![];
            for (off, t) in f.iter() { o.push(load_at(m, a + off, t)?); }
            Some(Val::A(Rc::new(o)))
        }
        _ => panic!("load of {:?}", ty),
    }
}
fn store(m: &mut Mem, a: u64, ty: &Ty, v: &Val) {
    match ty {
        Ty::Int(w) => { m.write(a, (*w as u64 + 7) / 8, v); }
        Ty::Vec(n, w) => {
            if *w % 8 != 0 {
                let tot = *n * *w;
                let x = bitcast(v, ty, &Ty::Int(tot)).unwrap();
                m.write(a, (tot as u64 + 7) / 8, &x);
                return;
            }
            let b = (*w / 8) as u64;
            for (i, x) in agg(v).iter().enumerate() { m.write(a + i as u64 * b, b, x); }
        }
        Ty::Agg(f) => for ((off, t), x) in f.iter().zip(agg(v)) { store(m, a + off, t, x); },
        Ty::Void => {}
    }
}
fn bitcast(v: &Val, f: &Ty, t: &Ty) -> Option<Val> {
    if f == t { return Some(v.clone()); }
    let bits = |t: &Ty| match t { Ty::Int(w) => Some(*w), Ty::Vec(n, w) => Some(n * w), _ => None };
    let (fb, tb) = (bits(f)?, bits(t)?);
    if fb != tb { return None; }
    match (f, t) {
        (Ty::Int(_), Ty::Int(_)) => Some(v.clone()),
        (Ty::Vec(_, fw), Ty::Int(tw)) => {
            if *tw > 128 { return None; }
            let l = agg(v);
            if l.iter().all(|x| c128(x).is_some()) {
                let mut acc = 0u128;
                for (i, x) in l.iter().enumerate() { acc |= (c128(x)? & mask(*fw)) << (i as u32 * *fw as u32); }
                return Some(mk(acc, *tw));
            }
            let mut acc: Option<Ex> = None;
            for x in l.iter().rev() {
                let e = to_ex(x, *fw);
                acc = Some(match acc { None => e, Some(h) => cat(&h, &e) });
            }
            Some(from_ex(acc?))
        }
        (Ty::Int(fw), Ty::Vec(n, w)) => {
            let mut o = vec![];
            for i in 0..*n {
                o.push(match c128(v) {
                    Some(c) => mk(c >> (i as u32 * *w as u32), *w),
                    None => from_ex(ext(i * *w, *w, &to_ex(v, *fw))),
                });
            }
            Some(Val::A(Rc::new(o)))
        }
        (Ty::Vec(n1, w1), Ty::Vec(n2, w2)) => {
            let l = agg(v);
            if w1 > w2 {
                let r = w1 / w2;
                let mut o = vec![];
                for x in l.iter().take(*n1 as usize) {
                    if let Val::A(p) = bitcast(x, &Ty::Int(*w1), &Ty::Vec(r, *w2))? { o.extend(p.iter().cloned()); }
                }
                Some(Val::A(Rc::new(o)))
            } else {
                let r = (w2 / w1) as usize;
                let mut o = vec![];
                for i in 0..*n2 as usize {
                    let part = Val::A(Rc::new(l[i * r..(i + 1) * r].to_vec()));
                    o.push(bitcast(&part, &Ty::Vec(r as u16, *w1), &Ty::Int(*w2))?);
                }
                Some(Val::A(Rc::new(o)))
            }
        }
        _ => None,
    }
}

/// a concrete C string
fn c_str(st: &State, p: u64) -> Rs<Vec<u8>> {
    let mut v = vec![];
    loop {
        match st.mem.byte(p + v.len() as u64) {
            Some(By::C(0)) => return Ok(v),
            Some(By::C(b)) => v.push(b),
            _ => return Err(Stop::Err("symbolic C string".into())),
        }
    }
}
