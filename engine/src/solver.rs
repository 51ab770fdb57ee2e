//! z3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::{Duration, Instant};

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, a: Z, completion: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, ty: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, ty: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_get_error_msg(c: Z, e: c_int) -> *const c_char;
    fn Z3_set_error_handler(c: Z, h: *const c_void);
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_time: Duration,
    pub dom_queries: u64,
    pub model_hits: u64,
}

pub struct Solver {
    ctx: Z,
    s: Z,
    cache: HashMap<u32, (Ex, Z), FxB>,
    pub stats: Stats,
    pid: u32,
    timeout_ms: u32,
    pub verify: bool,
}

pub enum Res {
    Sat(Vec<(u16, u64)>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Solver {
        Solver { ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), cache: HashMap::default(), stats: Stats::default(), pid: 0, timeout_ms: 60_000, verify: false }
    }
    fn init(&mut self) {
        let pid = std::process::id();
        if !self.ctx.is_null() && self.pid == pid && self.cache.len() < 400_000 {
            return;
        }
        unsafe {
            if !self.ctx.is_null() && self.pid == pid {
                self.cache.clear();
                Z3_del_context(self.ctx);
            }
            self.cache.clear();
            self.pid = pid;
            self.ctx = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(self.ctx, std::ptr::null());
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let n = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, n.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
    }
    fn num(&self, v: u128, w: u16) -> Z {
        unsafe {
            let c = self.ctx;
            if w <= 64 {
                Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w as u32))
            } else {
                let lo = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
                let hi = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w as u32 - 64));
                Z3_mk_concat(c, hi, lo)
            }
        }
    }
    fn tr(&mut self, e: &Ex) -> Z {
        if let Some((_, z)) = self.cache.get(&e.id) {
            return *z;
        }
        let c = self.ctx;
        let z = unsafe {
            let b2bv = |b: Z| Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
            match &e.op {
                Op::Const(v) => self.num(*v, e.w),
                Op::Var(v) => {
                    let n = CString::new(format!("v{}", v)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, e.w as u32))
                }
                Op::Bin(b, x, y) => {
                    let (x, y) = (self.tr(x), self.tr(y));
                    (match b {
                        B::Add => Z3_mk_bvadd,
                        B::Sub => Z3_mk_bvsub,
                        B::Mul => Z3_mk_bvmul,
                        B::UDiv => Z3_mk_bvudiv,
                        B::SDiv => Z3_mk_bvsdiv,
                        B::URem => Z3_mk_bvurem,
                        B::SRem => Z3_mk_bvsrem,
                        B::Shl => Z3_mk_bvshl,
                        B::LShr => Z3_mk_bvlshr,
                        B::AShr => Z3_mk_bvashr,
                        B::And => Z3_mk_bvand,
                        B::Or => Z3_mk_bvor,
                        B::Xor => Z3_mk_bvxor,
                    })(c, x, y)
                }
                Op::Cmp(p, x, y) => {
                    let (x, y) = (self.tr(x), self.tr(y));
                    b2bv((match p {
                        P::Eq => Z3_mk_eq,
                        P::Ult => Z3_mk_bvult,
                        P::Ule => Z3_mk_bvule,
                        P::Slt => Z3_mk_bvslt,
                        P::Sle => Z3_mk_bvsle,
                    })(c, x, y))
                }
                Op::Ite(q, x, y) => {
                    let q = self.tr_bool(q);
                    let (x, y) = (self.tr(x), self.tr(y));
                    Z3_mk_ite(c, q, x, y)
                }
                Op::Cat(x, y) => {
                    let (x, y) = (self.tr(x), self.tr(y));
                    Z3_mk_concat(c, x, y)
                }
                Op::Ext(l, x) => {
                    let x = self.tr(x);
                    Z3_mk_extract(c, (*l + e.w - 1) as u32, *l as u32, x)
                }
                Op::ZExt(x) => {
                    let n = e.w - x.w;
                    let x = self.tr(x);
                    Z3_mk_zero_ext(c, n as u32, x)
                }
                Op::SExt(x) => {
                    let n = e.w - x.w;
                    let x = self.tr(x);
                    Z3_mk_sign_ext(c, n as u32, x)
                }
                Op::Tab(v, t) => {
                    // nested ite over runs of values with a constant stride
                    let x = self.tr(&var(*v));
                    let bs = Z3_mk_bv_sort(c, 8);
                    let m = mask(e.w) as u64;
                    let mut runs = vec![]; // (first, stride)
                    let mut i = 0usize;
                    while i < 256 {
                        let mut j = i + 1;
                        let stride = if j < 256 { t[j].wrapping_sub(t[i]) & m } else { 0 };
                        while j < 256 && t[j].wrapping_sub(t[j - 1]) & m == stride {
                            j += 1;
                        }
                        if stride != 0 && j - i < 3 {
                            runs.push((i, 0));
                            i += 1;
                        } else {
                            runs.push((i, stride));
                            i = j;
                        }
                    }
                    let mut acc: Z = std::ptr::null_mut();
                    let mut prev = 256usize;
                    for &(i, stride) in runs.iter().rev() {
                        let val = if stride == 0 {
                            self.num(t[i] as u128, e.w)
                        } else {
                            // t[i] + (x - i) * stride
                            let z = if e.w > 8 { Z3_mk_zero_ext(c, e.w as u32 - 8, x) } else if e.w < 8 { Z3_mk_extract(c, e.w as u32 - 1, 0, x) } else { x };
                            let p = if stride == 1 { z } else { Z3_mk_bvmul(c, z, self.num(stride as u128, e.w)) };
                            let base = t[i].wrapping_sub((i as u64).wrapping_mul(stride)) & m;
                            if base == 0 { p } else { Z3_mk_bvadd(c, p, self.num(base as u128, e.w)) }
                        };
                        acc = if acc.is_null() { val } else {
                            Z3_mk_ite(c, Z3_mk_bvult(c, x, Z3_mk_unsigned_int64(c, prev as u64, bs)), val, acc)
                        };
                        prev = i;
                    }
                    acc
                }
            }
        };
        unsafe {
            let ec = Z3_get_error_code(c);
            if ec != 0 {
                panic!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, ec)).to_string_lossy());
            }
        }
        self.cache.insert(e.id, (e.clone(), z));
        z
    }
    fn tr_bool(&mut self, e: &Ex) -> Z {
        unsafe {
            match &e.op {
                Op::Cmp(p, x, y) => {
                    let (x, y) = (self.tr(x), self.tr(y));
                    (match p {
                        P::Eq => Z3_mk_eq,
                        P::Ult => Z3_mk_bvult,
                        P::Ule => Z3_mk_bvule,
                        P::Slt => Z3_mk_bvslt,
                        P::Sle => Z3_mk_bvsle,
                    })(self.ctx, x, y)
                }
                Op::Bin(B::Xor, x, m) if e.w == 1 && m.as_const() == Some(1) => {
                    let b = self.tr_bool(x);
                    Z3_mk_not(self.ctx, b)
                }
                Op::Bin(B::And, x, y) if e.w == 1 => {
                    let a = [self.tr_bool(x), self.tr_bool(y)];
                    Z3_mk_and(self.ctx, 2, a.as_ptr())
                }
                Op::Bin(B::Or, x, y) if e.w == 1 => {
                    let a = [self.tr_bool(x), self.tr_bool(y)];
                    Z3_mk_or(self.ctx, 2, a.as_ptr())
                }
                _ => {
                    let z = self.tr(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(self.ctx, z, one)
                }
            }
        }
    }
    fn dom_c(&mut self, v: u16, d: &[u64; 4]) -> Option<Z> {
        if *d == [u64::MAX; 4] {
            return None;
        }
        let x = self.tr(&var(v));
        unsafe {
            let c = self.ctx;
            let bs = Z3_mk_bv_sort(c, 8);
            let mut parts = vec![];
            let mut i = 0usize;
            let has = |i: usize| d[i / 64] >> (i % 64) & 1 != 0;
            while i < 256 {
                if has(i) {
                    let lo = i;
                    while i + 1 < 256 && has(i + 1) {
                        i += 1;
                    }
                    let a = [
                        Z3_mk_bvule(c, Z3_mk_unsigned_int64(c, lo as u64, bs), x),
                        Z3_mk_bvule(c, x, Z3_mk_unsigned_int64(c, i as u64, bs)),
                    ];
                    parts.push(Z3_mk_and(c, 2, a.as_ptr()));
                }
                i += 1;
            }
            Some(Z3_mk_or(c, parts.len() as u32, parts.as_ptr()))
        }
    }
    /// Satisfiability of domains of `vars` and all of `cs`.
    pub fn check(&mut self, cs: &[Ex], vars: &[u16], dom: &[[u64; 4]]) -> Res {
        // few assignments left: decide exactly by evaluating every one of them
        let small = |v: &u16| (POOL.with(|p| p.borrow().var_w[*v as usize]) == 8).then(|| dom_count(&dom[*v as usize]) as u64);
        let n = vars.iter().try_fold(1u64, |a, v| small(v).map(|n| a.saturating_mul(n)));
        if n.map_or(false, |n| n <= 256) && !vars.is_empty() {
            self.stats.dom_queries += 1;
            let r = self.enumerate(cs, vars, dom);
            if self.verify {
                let z = self.check_z3(cs, vars, dom);
                if matches!(z, Res::Sat(_)) != matches!(r, Res::Sat(_)) {
                    panic!("exhaustive evaluation disagrees with z3");
                }
            }
            return r;
        }
        self.check_z3(cs, vars, dom)
    }
    fn enumerate(&mut self, cs: &[Ex], vars: &[u16], dom: &[[u64; 4]]) -> Res {
        let vals: Vec<Vec<usize>> = vars.iter().map(|v| dom_iter(&dom[*v as usize]).collect()).collect();
        let mut idx = vec![0usize; vars.len()];
        let top = vars.iter().map(|v| *v as usize + 1).max().unwrap();
        let mut m = vec![0u64; top];
        if vals.iter().any(|v| v.is_empty()) {
            return Res::Unsat;
        }
        loop {
            for (k, v) in vars.iter().enumerate() {
                m[*v as usize] = vals[k][idx[k]] as u64;
            }
            let mut memo = HashMap::default();
            if cs.iter().all(|e| eval(e, &m, &mut memo) != 0) {
                return Res::Sat(vars.iter().map(|v| (*v, m[*v as usize])).collect());
            }
            let mut k = 0;
            loop {
                if k == vars.len() {
                    return Res::Unsat;
                }
                idx[k] += 1;
                if idx[k] < vals[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
    fn check_z3(&mut self, cs: &[Ex], vars: &[u16], dom: &[[u64; 4]]) -> Res {
        self.init();
        let t0 = Instant::now();
        self.stats.z3_queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for v in vars {
                if POOL.with(|p| p.borrow().var_w[*v as usize]) == 8 {
                    if let Some(z) = self.dom_c(*v, &dom[*v as usize]) {
                        Z3_solver_assert(self.ctx, self.s, z);
                    }
                }
            }
            for e in cs {
                let z = self.tr_bool(e);
                Z3_solver_assert(self.ctx, self.s, z);
            }
            let t1 = Instant::now();
            let r = Z3_solver_check(self.ctx, self.s);
            if t1.elapsed().as_millis() > 200 && std::env::var("ZSYM_SLOW").is_ok() {
                eprintln!("SLOW {:?}\n{}", t1.elapsed(), CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy());
            }
            let res = match r {
                1 => {
                    self.stats.z3_sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vars {
                        let zv = self.tr(&var(*v));
                        let mut o: Z = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, zv, true, &mut o) {
                            panic!("z3 model eval");
                        }
                        let mut n = 0u64;
                        if !Z3_get_numeral_uint64(self.ctx, o, &mut n) {
                            panic!("z3 numeral");
                        }
                        out.push((*v, n));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => {
                    self.stats.z3_unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.stats.z3_unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            res
        };
        self.stats.z3_time += t0.elapsed();
        r
    }
}
