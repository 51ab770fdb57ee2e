//! Loads a whole-program LLVM module (as emitted by rustc after fat LTO) with
//! the LLVM-C API of the very toolchain that produced it, and lowers functions
//! on demand to a compact register form.
use crate::expr::{B, P};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

pub type V = *mut c_void;
type T = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn LLVMContextCreate() -> V;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut V, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(c: V, buf: V, out: *mut V, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetFirstFunction(m: V) -> V;
    fn LLVMGetNextFunction(f: V) -> V;
    fn LLVMGetFirstGlobal(m: V) -> V;
    fn LLVMGetNextGlobal(f: V) -> V;
    fn LLVMGetFirstGlobalAlias(m: V) -> V;
    fn LLVMGetNextGlobalAlias(f: V) -> V;
    fn LLVMAliasGetAliasee(a: V) -> V;
    fn LLVMGetInitializer(g: V) -> V;
    fn LLVMGlobalGetValueType(g: V) -> T;
    fn LLVMIsDeclaration(f: V) -> c_int;
    fn LLVMGetValueName2(v: V, len: *mut usize) -> *const c_char;
    fn LLVMGetFirstBasicBlock(f: V) -> V;
    fn LLVMGetNextBasicBlock(f: V) -> V;
    fn LLVMGetFirstInstruction(b: V) -> V;
    fn LLVMGetNextInstruction(i: V) -> V;
    fn LLVMGetInstructionOpcode(i: V) -> c_int;
    fn LLVMGetNumOperands(i: V) -> c_int;
    fn LLVMGetOperand(i: V, n: c_uint) -> V;
    fn LLVMTypeOf(v: V) -> T;
    fn LLVMGetTypeKind(t: T) -> c_int;
    fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    fn LLVMGetVectorSize(t: T) -> c_uint;
    fn LLVMGetArrayLength2(t: T) -> u64;
    fn LLVMGetElementType(t: T) -> T;
    fn LLVMCountStructElementTypes(t: T) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    fn LLVMGetModuleDataLayout(m: V) -> V;
    fn LLVMABISizeOfType(td: V, t: T) -> u64;
    fn LLVMStoreSizeOfType(td: V, t: T) -> u64;
    fn LLVMABIAlignmentOfType(td: V, t: T) -> c_uint;
    fn LLVMOffsetOfElement(td: V, t: T, i: c_uint) -> u64;
    fn LLVMGetAlignment(v: V) -> c_uint;
    fn LLVMGetValueKind(v: V) -> c_int;
    fn LLVMConstIntGetZExtValue(v: V) -> u64;
    fn LLVMConstRealGetDouble(v: V, loses: *mut c_int) -> f64;
    fn LLVMGetConstOpcode(v: V) -> c_int;
    fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    fn LLVMIsConstantString(v: V) -> c_int;
    fn LLVMGetAsString(v: V, len: *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(v: V) -> *mut c_char;
    fn LLVMGetGEPSourceElementType(v: V) -> T;
    fn LLVMGetICmpPredicate(v: V) -> c_int;
    fn LLVMGetFCmpPredicate(v: V) -> c_int;
    fn LLVMIsConditional(v: V) -> c_int;
    fn LLVMGetNumSuccessors(v: V) -> c_uint;
    fn LLVMGetSuccessor(v: V, i: c_uint) -> V;
    fn LLVMGetCondition(v: V) -> V;
    fn LLVMGetSwitchCaseValue(v: V, i: c_uint) -> V;
    fn LLVMCountIncoming(v: V) -> c_uint;
    fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    fn LLVMGetIncomingBlock(v: V, i: c_uint) -> V;
    fn LLVMGetNumIndices(v: V) -> c_uint;
    fn LLVMGetIndices(v: V) -> *const c_uint;
    fn LLVMGetCalledValue(v: V) -> V;
    fn LLVMGetNumArgOperands(v: V) -> c_uint;
    fn LLVMGetAllocatedType(v: V) -> T;
    fn LLVMGetAtomicRMWBinOp(v: V) -> c_int;
    fn LLVMGetNumMaskElements(v: V) -> c_uint;
    fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    fn LLVMCountParams(f: V) -> c_uint;
    fn LLVMGetParam(f: V, i: c_uint) -> V;
    fn LLVMIsABasicBlock(v: V) -> V;
    fn LLVMIsAInlineAsm(v: V) -> V;
    fn LLVMIsAFunction(v: V) -> V;
    fn LLVMIsThreadLocal(v: V) -> c_int;
    fn LLVMGetNormalDest(v: V) -> V;
    fn LLVMDisposeMessage(m: *mut c_char);
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W([u64; 2]),
    E(crate::expr::Ex),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Vec(u16, u16),
    Agg(Rc<Vec<(u64, Ty)>>),
}

pub type R = u32;
/// operand: register, or (with the top bit) index in the constant pool
#[derive(Clone, Copy, Debug)]
pub struct O(pub u32);
pub const KBIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fop { Add, Sub, Mul, Div, Rem }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, Same }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { P(P, bool /*swap*/, bool /*negate*/) }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(O), Asm(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Nop, Memcpy, Memmove, Memset, Cttz, Ctlz, Ctpop, Bswap, Bitreverse, Fshl, Fshr, Umin, Umax, Smin, Smax, Abs,
    AddO(bool), SubO(bool), MulO(bool), UaddSat, UsubSat, SaddSat, SsubSat, Trap, Tls, Scmp, Ucmp, IsConst, Expect,
    Pmovmskb, PtrMask, Objsize, FAbs, FFloor, FCeil, FTrunc, FCopysign, FRound, FLog2, AddCarry(bool), VReduceAdd, VReduceOr, VReduceAnd, VReduceXor, VReduceUmax, VReduceUmin, LoadRel, Assume, FpToSat(bool), Pshufb, Pause, Other(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: B, w: u16, d: R, a: O, b: O },
    VBin { op: B, w: u16, d: R, a: O, b: O },
    FBin { op: Fop, w: u16, d: R, a: O, b: O },
    FCmp { pred: u8, w: u16, d: R, a: O, b: O },
    FNeg { w: u16, d: R, a: O },
    Cmp { p: Pred, w: u16, d: R, a: O, b: O },
    VCmp { p: Pred, w: u16, d: R, a: O, b: O },
    Cast { k: CastK, fw: u16, tw: u16, d: R, a: O },
    VCast { k: CastK, fw: u16, tw: u16, d: R, a: O },
    BitCast { f: Ty, t: Ty, d: R, a: O },
    Gep { d: R, base: O, off: u64, terms: Box<[(O, u16, u64)]> },
    Load { d: R, p: O, ty: Ty },
    Store { v: O, p: O, ty: Ty },
    Alloca { d: R, size: u64, align: u64, n: O },
    Select { d: R, c: O, a: O, b: O, ty: Ty, cv: bool },
    ExtractValue { d: R, a: O, idx: Box<[u32]> },
    InsertValue { d: R, a: O, v: O, idx: Box<[u32]> },
    ExtractElem { d: R, a: O, i: O },
    InsertElem { d: R, a: O, v: O, i: O },
    Shuffle { d: R, a: O, b: O, mask: Box<[i32]>, n: u32 },
    Call { d: Option<R>, f: Callee, args: Box<[O]>, normal: Option<u32>, rty: Ty },
    Intr { d: Option<R>, k: Intr, args: Box<[O]>, ty: Ty, normal: Option<u32>, aty: Ty },
    Rmw { d: R, op: u8, p: O, v: O, w: u16 },
    CmpXchg { d: R, p: O, c: O, n: O, w: u16 },
    Copy { d: R, a: O },
    Br { t: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u16, cases: Rc<HashMap<u128, u32>>, list: Rc<Vec<(u128, u32)>>, def: u32 },
    Ret { v: Option<O> },
    Unreachable,
    Bad(String),
}

pub struct Block {
    pub start: u32,
    pub phis: Vec<(R, Vec<(u32, O)>)>,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub consts: Vec<Val>,
    pub code: Vec<I>,
    pub blocks: Vec<Block>,
}

pub struct FuncInfo {
    pub name: String,
    pub v: V,
    pub decl: bool,
}

pub struct GlobalInfo {
    pub name: String,
    pub v: V,
    pub addr: u64,
    pub size: u64,
    pub has_init: bool,
}

pub struct Module {
    m: V,
    td: V,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<usize, u32>,
    pub gaddr: HashMap<usize, u64>,
    pub globals: Vec<GlobalInfo>,
    aliases: HashMap<usize, usize>,
}

pub const FUNC_BASE: u64 = 0x1_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

fn name_of(v: V) -> String {
    unsafe {
        let mut l = 0;
        let p = LLVMGetValueName2(v, &mut l);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned()
    }
}
fn pr(v: V) -> String {
    unsafe {
        let s = LLVMPrintValueToString(v);
        let r = CStr::from_ptr(s).to_string_lossy().into_owned();
        LLVMDisposeMessage(s);
        r
    }
}
fn m64(w: u16) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        unsafe {
            let ctx = LLVMContextCreate();
            let mut buf = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            let cp = CString::new(path).unwrap();
            if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
                return Err(format!("cannot read {}: {}", path, CStr::from_ptr(msg).to_string_lossy()));
            }
            let mut m = std::ptr::null_mut();
            if LLVMParseIRInContext(ctx, buf, &mut m, &mut msg) != 0 {
                return Err(format!("cannot parse {}: {}", path, CStr::from_ptr(msg).to_string_lossy()));
            }
            let td = LLVMGetModuleDataLayout(m);
            let mut me = Module { m, td, funcs: vec![], fmap: HashMap::new(), gaddr: HashMap::new(), globals: vec![], aliases: HashMap::new() };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                me.fmap.insert(f as usize, me.funcs.len() as u32);
                me.funcs.push(FuncInfo { name: name_of(f), v: f, decl: LLVMIsDeclaration(f) != 0 });
                f = LLVMGetNextFunction(f);
            }
            let mut addr = GLOBAL_BASE;
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let ty = LLVMGlobalGetValueType(g);
                let has_init = LLVMIsDeclaration(g) == 0;
                let size = LLVMABISizeOfType(td, ty);
                let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(td, ty) as u64).max(16);
                addr = (addr + al - 1) / al * al;
                me.gaddr.insert(g as usize, addr);
                me.globals.push(GlobalInfo { name: name_of(g), v: g, addr, size, has_init });
                addr += size.max(1) + 16;
                g = LLVMGetNextGlobal(g);
            }
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() {
                me.aliases.insert(a as usize, LLVMAliasGetAliasee(a) as usize);
                a = LLVMGetNextGlobalAlias(a);
            }
            let _ = me.m;
            Ok(me)
        }
    }
    pub fn find(&self, name: &str) -> Option<u32> {
        self.funcs.iter().position(|f| f.name == name).map(|x| x as u32)
    }

    pub fn ty(&self, t: T) -> Ty {
        unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                1 => Ty::Int(16),
                2 => Ty::Int(32),
                3 => Ty::Int(64),
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    Ty::Agg(Rc::new((0..n).map(|i| (LLVMOffsetOfElement(self.td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i)))).collect()))
                }
                11 => {
                    let n = LLVMGetArrayLength2(t);
                    let e = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, e);
                    let et = self.ty(e);
                    Ty::Agg(Rc::new((0..n).map(|i| (i * s, et.clone())).collect()))
                }
                12 => Ty::Int(64),
                13 => {
                    let n = LLVMGetVectorSize(t) as u16;
                    match self.ty(LLVMGetElementType(t)) {
                        Ty::Int(w) => Ty::Vec(n, w),
                        _ => Ty::Void,
                    }
                }
                _ => Ty::Void,
            }
        }
    }

    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W([0, 0]),
            Ty::Int(_) | Ty::Void => Val::C(0),
            Ty::Vec(n, w) => Val::A(Rc::new(vec![self.zero(&Ty::Int(*w)); *n as usize])),
            Ty::Agg(f) => Val::A(Rc::new(f.iter().map(|(_, t)| self.zero(t)).collect())),
        }
    }

    /// Evaluate an LLVM constant.
    pub fn cval(&self, v: V) -> Result<Val, String> {
        unsafe {
            let kind = LLVMGetValueKind(v);
            let t = LLVMTypeOf(v);
            Ok(match kind {
                5 => Val::C(FUNC_BASE + 16 * self.fmap[&(v as usize)] as u64),
                6 => return self.cval(self.aliases[&(v as usize)] as V),
                8 => Val::C(self.gaddr[&(v as usize)]),
                10 => {
                    let op = LLVMGetConstOpcode(v);
                    match op {
                        29 => {
                            let (base, mut off) = (self.c64(LLVMGetOperand(v, 0))?, 0u64);
                            let mut cur = LLVMGetGEPSourceElementType(v);
                            for i in 1..LLVMGetNumOperands(v) {
                                let iv = LLVMGetOperand(v, i as u32);
                                let w = LLVMGetIntTypeWidth(LLVMTypeOf(iv)) as u16;
                                let idx = crate::expr::sext(self.c64(iv)? as u128, w) as u64;
                                self.gep_step(&mut cur, i == 1, idx, &mut off);
                            }
                            Val::C(base.wrapping_add(off))
                        }
                        39 | 40 | 41 | 69 => {
                            let x = self.c64(LLVMGetOperand(v, 0))?;
                            match self.ty(t) {
                                Ty::Int(w) if w <= 64 => Val::C(x & m64(w)),
                                _ => return Err(format!("const cast {}", pr(v))),
                            }
                        }
                        30 => {
                            let x = self.c64(LLVMGetOperand(v, 0))?;
                            match self.ty(t) {
                                Ty::Int(w) if w <= 64 => Val::C(x & m64(w)),
                                _ => return Err(format!("const trunc {}", pr(v))),
                            }
                        }
                        8 | 10 | 25 => {
                            let (a, b) = (self.c64(LLVMGetOperand(v, 0))?, self.c64(LLVMGetOperand(v, 1))?);
                            let w = LLVMGetIntTypeWidth(t) as u16;
                            Val::C(match op { 8 => a.wrapping_add(b), 10 => a.wrapping_sub(b), _ => a ^ b } & m64(w))
                        }
                        _ => return Err(format!("constant expression {}", pr(v))),
                    }
                }
                11 | 12 | 13 | 16 | 17 => {
                    let n = match self.ty(t) {
                        Ty::Agg(f) => f.len(),
                        Ty::Vec(n, _) => n as usize,
                        _ => unreachable!(),
                    };
                    let mut o = vec![];
                    for i in 0..n {
                        o.push(self.cval(LLVMGetAggregateElement(v, i as u32))?);
                    }
                    Val::A(Rc::new(o))
                }
                14 | 15 | 20 | 21 | 25 | 26 => self.zero(&self.ty(t)),
                18 => match self.ty(t) {
                    Ty::Vec(n, _) => {
                        // splat constant
                        let s = LLVMGetAggregateElement(v, 0);
                        Val::A(Rc::new(vec![self.cval(s)?; n as usize]))
                    }
                    Ty::Int(w) if w <= 64 => Val::C(LLVMConstIntGetZExtValue(v) & m64(w)),
                    Ty::Int(w) => {
                        let s = pr(v);
                        let s = s.split_whitespace().last().unwrap().to_string();
                        let x = if let Some(n) = s.strip_prefix('-') { (n.parse::<u128>().map_err(|_| s.clone())?).wrapping_neg() } else { s.parse::<u128>().map_err(|_| s.clone())? };
                        let x = x & crate::expr::mask(w);
                        Val::W([x as u64, (x >> 64) as u64])
                    }
                    _ => return Err(format!("const int {}", pr(v))),
                },
                19 => {
                    let mut l = 0;
                    let d = LLVMConstRealGetDouble(v, &mut l);
                    match LLVMGetTypeKind(t) {
                        2 => Val::C((d as f32).to_bits() as u64),
                        3 => Val::C(d.to_bits()),
                        _ => return Err(format!("const fp {}", pr(v))),
                    }
                }
                _ => return Err(format!("constant kind {} {}", kind, pr(v))),
            })
        }
    }
    fn c64(&self, v: V) -> Result<u64, String> {
        match self.cval(v)? {
            Val::C(x) => Ok(x),
            Val::W(x) => Ok(x[0]),
            o => Err(format!("constant operand {:?}", o)),
        }
    }
    unsafe fn gep_step(&self, cur: &mut T, first: bool, idx: u64, off: &mut u64) {
        if first {
            *off = off.wrapping_add(idx.wrapping_mul(LLVMABISizeOfType(self.td, *cur)));
            return;
        }
        match LLVMGetTypeKind(*cur) {
            10 => {
                *off = off.wrapping_add(LLVMOffsetOfElement(self.td, *cur, idx as u32));
                *cur = LLVMStructGetTypeAtIndex(*cur, idx as u32);
            }
            _ => {
                let e = LLVMGetElementType(*cur);
                *off = off.wrapping_add(idx.wrapping_mul(LLVMABISizeOfType(self.td, e)));
                *cur = e;
            }
        }
    }

    /// Bytes of a global's initializer.
    pub fn init_bytes(&self, g: &GlobalInfo) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; g.size as usize];
        if g.has_init {
            unsafe {
                let i = LLVMGetInitializer(g.v);
                self.put(i, LLVMGlobalGetValueType(g.v), &mut out, 0)?;
            }
        }
        Ok(out)
    }
    unsafe fn put(&self, v: V, t: T, out: &mut [u8], off: u64) -> Result<(), String> {
        let kind = LLVMGetValueKind(v);
        if matches!(kind, 14 | 15 | 20 | 25 | 26) {
            return Ok(());
        }
        match LLVMGetTypeKind(t) {
            10 => {
                for i in 0..LLVMCountStructElementTypes(t) {
                    self.put(LLVMGetAggregateElement(v, i), LLVMStructGetTypeAtIndex(t, i), out, off + LLVMOffsetOfElement(self.td, t, i))?;
                }
            }
            11 => {
                if LLVMIsConstantString(v) != 0 {
                    let mut l = 0;
                    let p = LLVMGetAsString(v, &mut l);
                    out[off as usize..off as usize + l].copy_from_slice(std::slice::from_raw_parts(p as *const u8, l));
                    return Ok(());
                }
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e);
                for i in 0..LLVMGetArrayLength2(t) {
                    self.put(LLVMGetAggregateElement(v, i as u32), e, out, off + i * s)?;
                }
            }
            13 => {
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e);
                for i in 0..LLVMGetVectorSize(t) as u64 {
                    self.put(LLVMGetAggregateElement(v, i as u32), e, out, off + i * s)?;
                }
            }
            _ => {
                let n = LLVMStoreSizeOfType(self.td, t) as usize;
                let b: u128 = match self.cval(v)? {
                    Val::C(x) => x as u128,
                    Val::W(x) => x[0] as u128 | (x[1] as u128) << 64,
                    _ => return Err("initializer".into()),
                };
                out[off as usize..off as usize + n].copy_from_slice(&b.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }

    pub fn lower(&self, fid: u32) -> Func {
        let fi = &self.funcs[fid as usize];
        unsafe { Lower { m: self, regs: HashMap::new(), consts: vec![], cmap: HashMap::new(), blk: HashMap::new() }.run(fid, fi) }
    }
}

struct Lower<'a> {
    m: &'a Module,
    regs: HashMap<usize, u32>,
    consts: Vec<Val>,
    cmap: HashMap<usize, u32>,
    blk: HashMap<usize, u32>,
}

impl<'a> Lower<'a> {
    unsafe fn run(mut self, fid: u32, fi: &FuncInfo) -> Func {
        let np = LLVMCountParams(fi.v);
        for i in 0..np {
            self.regs.insert(LLVMGetParam(fi.v, i) as usize, i);
        }
        let mut n = np;
        let mut b = LLVMGetFirstBasicBlock(fi.v);
        let mut nb = 0;
        while !b.is_null() {
            self.blk.insert(b as usize, nb);
            nb += 1;
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                self.regs.insert(i as usize, n);
                n += 1;
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut code = vec![];
        let mut blocks = vec![];
        let mut b = LLVMGetFirstBasicBlock(fi.v);
        while !b.is_null() {
            let mut blk = Block { start: code.len() as u32, phis: vec![] };
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetInstructionOpcode(i) == 44 {
                    let mut inc = vec![];
                    let mut bad = None;
                    for j in 0..LLVMCountIncoming(i) {
                        match self.op(LLVMGetIncomingValue(i, j)) {
                            Ok(o) => inc.push((self.blk[&(LLVMGetIncomingBlock(i, j) as usize)], o)),
                            Err(e) => bad = Some(e),
                        }
                    }
                    if let Some(e) = bad {
                        code.push(I::Bad(e));
                    }
                    blk.phis.push((self.regs[&(i as usize)], inc));
                } else {
                    match self.inst(i) {
                        Ok(Some(x)) => code.push(x),
                        Ok(None) => {}
                        Err(e) => code.push(I::Bad(format!("{} in {}", e, pr(i)))),
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            blocks.push(blk);
            b = LLVMGetNextBasicBlock(b);
        }
        Func { id: fid, name: fi.name.clone(), nparams: np, nregs: n, consts: self.consts, code, blocks }
    }
    unsafe fn op(&mut self, v: V) -> Result<O, String> {
        if let Some(r) = self.regs.get(&(v as usize)) {
            return Ok(O(*r));
        }
        if let Some(c) = self.cmap.get(&(v as usize)) {
            return Ok(O(*c | KBIT));
        }
        if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 {
            return Err("metadata operand".into());
        }
        let val = self.m.cval(v)?;
        let i = self.consts.len() as u32;
        self.consts.push(val);
        self.cmap.insert(v as usize, i);
        Ok(O(i | KBIT))
    }
    fn kst(&mut self, v: Val) -> O {
        self.consts.push(v);
        O((self.consts.len() as u32 - 1) | KBIT)
    }
    unsafe fn o(&mut self, i: V, n: u32) -> Result<O, String> {
        self.op(LLVMGetOperand(i, n))
    }
    unsafe fn inst(&mut self, i: V) -> Result<Option<I>, String> {
        let d = self.regs[&(i as usize)];
        let opc = LLVMGetInstructionOpcode(i);
        let ty = self.m.ty(LLVMTypeOf(i));
        let oty = |me: &Self, n: u32| me.m.ty(LLVMTypeOf(LLVMGetOperand(i, n)));
        let b = |v: V, me: &Self| me.blk[&(v as usize)];
        Ok(Some(match opc {
            1 => I::Ret { v: if LLVMGetNumOperands(i) > 0 { Some(self.o(i, 0)?) } else { None } },
            3 => {
                let n = LLVMGetNumSuccessors(i);
                let v = self.o(i, 0)?;
                let w = match oty(self, 0) { Ty::Int(w) => w, _ => return Err("switch type".into()) };
                let mut cases = HashMap::new();
                let mut list = vec![];
                for j in 1..n {
                    let c = match self.m.cval(LLVMGetSwitchCaseValue(i, j))? {
                        Val::C(c) => c as u128,
                        Val::W(c) => c[0] as u128 | (c[1] as u128) << 64,
                        _ => return Err("case".into()),
                    };
                    let t = b(LLVMGetSuccessor(i, j), self);
                    cases.insert(c, t);
                    list.push((c, t));
                }
                I::Switch { v, w, cases: Rc::new(cases), list: Rc::new(list), def: b(LLVMGetSuccessor(i, 0), self) }
            }
            7 => I::Unreachable,
            8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                let op = match opc {
                    8 => B::Add, 10 => B::Sub, 12 => B::Mul, 14 => B::UDiv, 15 => B::SDiv, 17 => B::URem, 18 => B::SRem,
                    20 => B::Shl, 21 => B::LShr, 22 => B::AShr, 23 => B::And, 24 => B::Or, _ => B::Xor,
                };
                let (a, bb) = (self.o(i, 0)?, self.o(i, 1)?);
                match ty {
                    Ty::Int(w) => I::Bin { op, w, d, a, b: bb },
                    Ty::Vec(_, w) => I::VBin { op, w, d, a, b: bb },
                    _ => return Err("bin type".into()),
                }
            }
            9 | 11 | 13 | 16 | 19 => {
                let op = match opc { 9 => Fop::Add, 11 => Fop::Sub, 13 => Fop::Mul, 16 => Fop::Div, _ => Fop::Rem };
                let (a, bb) = (self.o(i, 0)?, self.o(i, 1)?);
                match ty { Ty::Int(w) => I::FBin { op, w, d, a, b: bb }, _ => return Err("fp vector".into()) }
            }
            66 => match ty { Ty::Int(w) => I::FNeg { w, d, a: self.o(i, 0)? }, _ => return Err("fp vector".into()) },
            26 => {
                let t = LLVMGetAllocatedType(i);
                let size = LLVMABISizeOfType(self.m.td, t);
                let align = (LLVMGetAlignment(i) as u64).max(8);
                I::Alloca { d, size, align, n: self.o(i, 0)? }
            }
            27 => I::Load { d, p: self.o(i, 0)?, ty },
            28 => I::Store { v: self.o(i, 0)?, p: self.o(i, 1)?, ty: oty(self, 0) },
            29 => {
                if let Ty::Vec(..) = ty { return Err("vector gep".into()); }
                let base = self.o(i, 0)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = LLVMGetGEPSourceElementType(i);
                for j in 1..LLVMGetNumOperands(i) as u32 {
                    let iv = LLVMGetOperand(i, j);
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(iv)) as u16;
                    if LLVMGetValueKind(iv) == 18 {
                        let idx = crate::expr::sext(LLVMConstIntGetZExtValue(iv) as u128, w) as u64;
                        self.m.gep_step(&mut cur, j == 1, idx, &mut off);
                    } else {
                        let s = if j == 1 {
                            LLVMABISizeOfType(self.m.td, cur)
                        } else {
                            cur = LLVMGetElementType(cur);
                            LLVMABISizeOfType(self.m.td, cur)
                        };
                        terms.push((self.op(iv)?, w, s));
                    }
                }
                I::Gep { d, base, off, terms: terms.into() }
            }
            30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 69 => {
                let k = match opc {
                    30 => CastK::Trunc, 31 => CastK::ZExt, 32 => CastK::SExt, 33 => CastK::FpToUi, 34 => CastK::FpToSi, 35 => CastK::UiToFp,
                    36 => CastK::SiToFp, 37 => CastK::FpTrunc, 38 => CastK::FpExt, _ => CastK::Same,
                };
                let a = self.o(i, 0)?;
                match (oty(self, 0), ty) {
                    (Ty::Int(fw), Ty::Int(tw)) => {
                        let k = if k == CastK::Same { if tw < fw { CastK::Trunc } else { CastK::ZExt } } else { k };
                        I::Cast { k, fw, tw, d, a }
                    }
                    (Ty::Vec(_, fw), Ty::Vec(_, tw)) => I::VCast { k, fw, tw, d, a },
                    _ => return Err("cast".into()),
                }
            }
            41 => I::BitCast { f: oty(self, 0), t: ty, d, a: self.o(i, 0)? },
            42 => {
                let p = match LLVMGetICmpPredicate(i) {
                    32 => Pred::P(P::Eq, false, false),
                    33 => Pred::P(P::Eq, false, true),
                    34 => Pred::P(P::Ult, true, false),
                    35 => Pred::P(P::Ule, true, false),
                    36 => Pred::P(P::Ult, false, false),
                    37 => Pred::P(P::Ule, false, false),
                    38 => Pred::P(P::Slt, true, false),
                    39 => Pred::P(P::Sle, true, false),
                    40 => Pred::P(P::Slt, false, false),
                    _ => Pred::P(P::Sle, false, false),
                };
                let (a, bb) = (self.o(i, 0)?, self.o(i, 1)?);
                match oty(self, 0) {
                    Ty::Int(w) => I::Cmp { p, w, d, a, b: bb },
                    Ty::Vec(_, w) => I::VCmp { p, w, d, a, b: bb },
                    _ => return Err("icmp".into()),
                }
            }
            43 => match oty(self, 0) {
                Ty::Int(w) => I::FCmp { pred: LLVMGetFCmpPredicate(i) as u8, w, d, a: self.o(i, 0)?, b: self.o(i, 1)? },
                _ => return Err("fcmp vector".into()),
            },
            45 | 5 => return self.call(i, d, ty, opc == 5),
            46 => {
                let cv = matches!(oty(self, 0), Ty::Vec(..));
                I::Select { d, c: self.o(i, 0)?, a: self.o(i, 1)?, b: self.o(i, 2)?, ty, cv }
            }
            50 => I::ExtractElem { d, a: self.o(i, 0)?, i: self.o(i, 1)? },
            51 => I::InsertElem { d, a: self.o(i, 0)?, v: self.o(i, 1)?, i: self.o(i, 2)? },
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let mask: Vec<i32> = (0..n).map(|j| LLVMGetMaskValue(i, j)).collect();
                let n = match oty(self, 0) { Ty::Vec(n, _) => n as u32, _ => return Err("shuffle".into()) };
                I::Shuffle { d, a: self.o(i, 0)?, b: self.o(i, 1)?, mask: mask.into(), n }
            }
            53 | 54 => {
                let n = LLVMGetNumIndices(i) as usize;
                let idx: Box<[u32]> = std::slice::from_raw_parts(LLVMGetIndices(i), n).into();
                if opc == 53 { I::ExtractValue { d, a: self.o(i, 0)?, idx } } else { I::InsertValue { d, a: self.o(i, 0)?, v: self.o(i, 1)?, idx } }
            }
            55 => return Ok(None),
            56 => {
                let w = match oty(self, 1) { Ty::Int(w) => w, _ => return Err("cmpxchg".into()) };
                I::CmpXchg { d, p: self.o(i, 0)?, c: self.o(i, 1)?, n: self.o(i, 2)?, w }
            }
            57 => {
                let w = match ty { Ty::Int(w) => w, _ => return Err("rmw".into()) };
                I::Rmw { d, op: LLVMGetAtomicRMWBinOp(i) as u8, p: self.o(i, 0)?, v: self.o(i, 1)?, w }
            }
            68 => I::Copy { d, a: self.o(i, 0)? },
            2 | 70 | 71 | 72 => {
                let n = LLVMGetNumSuccessors(i);
                if n == 1 {
                    I::Br { t: b(LLVMGetSuccessor(i, 0), self) }
                } else {
                    let (t, f) = (b(LLVMGetSuccessor(i, 0), self), b(LLVMGetSuccessor(i, 1), self));
                    I::CondBr { c: self.o(i, 0)?, t, f }
                }
            }
            58 | 59 => I::Bad("unwinding reached".into()),
            _ => return Err(format!("opcode {}", opc)),
        }))
    }
    unsafe fn call(&mut self, i: V, d: R, ty: Ty, invoke: bool) -> Result<Option<I>, String> {
        let callee = LLVMGetCalledValue(i);
        let n = LLVMGetNumArgOperands(i);
        let normal = if invoke { Some(self.blk[&(LLVMGetNormalDest(i) as usize)]) } else { None };
        let dst = if ty == Ty::Void { None } else { Some(d) };
        if !LLVMIsAInlineAsm(callee).is_null() {
            let mut args = vec![];
            for j in 0..n { args.push(self.o(i, j)?); }
            return Ok(Some(I::Call { d: dst, f: Callee::Asm(pr(callee)), args: args.into(), normal, rty: ty }));
        }
        let mut callee = callee;
        if let Some(a) = self.m.aliases.get(&(callee as usize)) { callee = *a as V; }
        if !LLVMIsAFunction(callee).is_null() {
            let name = name_of(callee);
            if let Some(s) = name.strip_prefix("llvm.") {
                let k = intr(s);
                if k == Intr::Nop {
                    return Ok(normal.map(|t| I::Br { t }));
                }
                let mut args = vec![];
                for j in 0..n {
                    let av = LLVMGetOperand(i, j);
                    if k == Intr::Assume && j > 0 { break; }
                    args.push(self.op(av)?);
                }
                if k == Intr::Assume { return Ok(normal.map(|t| I::Br { t })); }
                let aty = if n > 0 { self.m.ty(LLVMTypeOf(LLVMGetOperand(i, 0))) } else { Ty::Void };
                return Ok(Some(I::Intr { d: dst, k, args: args.into(), ty, normal, aty }));
            }
            let mut args = vec![];
            for j in 0..n { args.push(self.o(i, j)?); }
            let f = self.m.fmap[&(callee as usize)];
            return Ok(Some(I::Call { d: dst, f: Callee::F(f), args: args.into(), normal, rty: ty }));
        }
        let mut args = vec![];
        for j in 0..n { args.push(self.o(i, j)?); }
        let f = Callee::Ind(self.op(callee)?);
        let _ = self.kst(Val::C(0));
        Ok(Some(I::Call { d: dst, f, args: args.into(), normal, rty: ty }))
    }
}

fn intr(s: &str) -> Intr {
    let p = |x: &str| s.starts_with(x);
    if p("lifetime.") || p("experimental.noalias") || p("dbg.") || p("prefetch") || p("invariant.") || p("var.annotation") || p("donothing") || p("x86.sse2.pause") || p("fake.use") {
        return Intr::Nop;
    }
    if p("assume") { return Intr::Assume; }
    if p("memcpy.") { return Intr::Memcpy; }
    if p("memmove.") { return Intr::Memmove; }
    if p("memset.") { return Intr::Memset; }
    if p("cttz") { return Intr::Cttz; }
    if p("ctlz") { return Intr::Ctlz; }
    if p("ctpop") { return Intr::Ctpop; }
    if p("bswap") { return Intr::Bswap; }
    if p("bitreverse") { return Intr::Bitreverse; }
    if p("fshl") { return Intr::Fshl; }
    if p("fshr") { return Intr::Fshr; }
    if p("umin") { return Intr::Umin; }
    if p("umax") { return Intr::Umax; }
    if p("smin") { return Intr::Smin; }
    if p("smax") { return Intr::Smax; }
    if p("abs.") { return Intr::Abs; }
    if p("uadd.with") { return Intr::AddO(false); }
    if p("sadd.with") { return Intr::AddO(true); }
    if p("usub.with") { return Intr::SubO(false); }
    if p("ssub.with") { return Intr::SubO(true); }
    if p("umul.with") { return Intr::MulO(false); }
    if p("smul.with") { return Intr::MulO(true); }
    if p("uadd.sat") { return Intr::UaddSat; }
    if p("usub.sat") { return Intr::UsubSat; }
    if p("sadd.sat") { return Intr::SaddSat; }
    if p("ssub.sat") { return Intr::SsubSat; }
    if p("trap") || p("ubsantrap") || p("debugtrap") { return Intr::Trap; }
    if p("threadlocal.address") { return Intr::Tls; }
    if p("scmp") { return Intr::Scmp; }
    if p("ucmp") { return Intr::Ucmp; }
    if p("is.constant") { return Intr::IsConst; }
    if p("expect") { return Intr::Expect; }
    if p("x86.sse2.pmovmskb.128") { return Intr::Pmovmskb; }
    if p("ptrmask") { return Intr::PtrMask; }
    if p("objectsize") { return Intr::Objsize; }
    if p("fabs.") { return Intr::FAbs; }
    if p("floor.") { return Intr::FFloor; }
    if p("ceil.") { return Intr::FCeil; }
    if p("trunc.") { return Intr::FTrunc; }
    if p("copysign.") { return Intr::FCopysign; }
    if p("x86.addcarry.64") { return Intr::AddCarry(false); }
    if p("x86.subborrow.64") { return Intr::AddCarry(true); }
    if p("log2.") { return Intr::FLog2; }
    if p("round.") { return Intr::FRound; }
    if p("vector.reduce.add") { return Intr::VReduceAdd; }
    if p("vector.reduce.or") { return Intr::VReduceOr; }
    if p("vector.reduce.and") { return Intr::VReduceAnd; }
    if p("vector.reduce.xor") { return Intr::VReduceXor; }
    if p("vector.reduce.umax") { return Intr::VReduceUmax; }
    if p("vector.reduce.umin") { return Intr::VReduceUmin; }
    if p("load.relative") { return Intr::LoadRel; }
    if p("fptoui.sat") { return Intr::FpToSat(false); }
    if p("fptosi.sat") { return Intr::FpToSat(true); }
    if p("x86.ssse3.pshuf.b.128") { return Intr::Pshufb; }
    Intr::Other(s.to_string())
}
