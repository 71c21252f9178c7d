//! Loads LLVM bitcode through the LLVM-C API and lowers it to the flat IR that
//! the symbolic executor runs.
#![allow(non_snake_case, dead_code)]
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type P = *mut c_void;
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext2(c: P, buf: P, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(g: P) -> P;
    fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetInitializer(g: P) -> P;
    fn LLVMIsGlobalConstant(g: P) -> c_int;
    fn LLVMGlobalGetValueType(g: P) -> P;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetReturnType(t: P) -> P;
    fn LLVMIsFunctionVarArg(t: P) -> c_int;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMConstIntGetZExtValue(v: P) -> u64;
    fn LLVMConstRealGetDouble(v: P, l: *mut c_int) -> f64;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMGetRawDataValues(v: P, sz: *mut usize) -> *const u8;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMABISizeOfType(td: P, t: P) -> u64;
    fn LLVMStoreSizeOfType(td: P, t: P) -> u64;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> u64;
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMGetFCmpPredicate(v: P) -> c_int;
    fn LLVMGetNumIndices(v: P) -> c_uint;
    fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetCalledValue(v: P) -> P;
    fn LLVMGetCalledFunctionType(v: P) -> P;
    fn LLVMGetNumArgOperands(v: P) -> c_uint;
    fn LLVMGetNumSuccessors(v: P) -> c_uint;
    fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint;
    fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetAllocatedType(v: P) -> P;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(p: *mut c_char);
    fn LLVMGetBasicBlockTerminator(b: P) -> P;
    fn LLVMIsAArgument(v: P) -> P;
    fn LLVMIsAInstruction(v: P) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAPoisonValue(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantDataArray(v: P) -> P;
    fn LLVMIsAConstantDataVector(v: P) -> P;
    fn LLVMIsAConstantArray(v: P) -> P;
    fn LLVMIsAConstantStruct(v: P) -> P;
    fn LLVMIsAConstantVector(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMGetDebugLocLine(v: P) -> c_uint;
    fn LLVMGetDebugLocFilename(v: P, len: *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(v: P, len: *mut c_uint) -> *const c_char;
}

/// value kind, independent of the enum numbering of the LLVM release
unsafe fn LLVMGetValueKind(v: P) -> c_int {
    if !LLVMIsAArgument(v).is_null() { return 0; }
    if !LLVMIsAInstruction(v).is_null() { return 24; }
    if !LLVMIsAFunction(v).is_null() { return 5; }
    if !LLVMIsAGlobalVariable(v).is_null() { return 8; }
    if !LLVMIsAGlobalAlias(v).is_null() { return 6; }
    if !LLVMIsAConstantInt(v).is_null() { return 18; }
    if !LLVMIsAConstantFP(v).is_null() { return 19; }
    if !LLVMIsAConstantPointerNull(v).is_null() { return 20; }
    if !LLVMIsAPoisonValue(v).is_null() { return 25; }
    if !LLVMIsAUndefValue(v).is_null() { return 14; }
    if !LLVMIsAConstantAggregateZero(v).is_null() { return 15; }
    if !LLVMIsAConstantDataArray(v).is_null() { return 16; }
    if !LLVMIsAConstantDataVector(v).is_null() { return 17; }
    if !LLVMIsAConstantArray(v).is_null() { return 11; }
    if !LLVMIsAConstantStruct(v).is_null() { return 12; }
    if !LLVMIsAConstantVector(v).is_null() { return 13; }
    if !LLVMIsAConstantExpr(v).is_null() { return 10; }
    if !LLVMIsAInlineAsm(v).is_null() { return 23; }
    22
}

/// Operand: register (reg != NONE) or constant.
#[derive(Clone, Copy, Debug)]
pub struct O {
    pub r: u32,
    pub c: u64,
}
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, O)]>,
    pub par: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    UMin, UMax, SMin, SMax, UAddSat, USubSat, SAddSat, SSubSat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FB { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { ZExt, SExt, Trunc, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum In {
    Assume, Nop, Memcpy, Memset, AddOv(bool), SubOv(bool), MulOv(bool), Ctlz, Cttz, Ctpop, Bswap, Bitreverse,
    Fshl, Fshr, Abs, Fabs, Trap, IsConstant, Ucmp, Scmp, Fmath(u8), TlsAddr, Copysign, Fma, FminFmax(bool), FptosiSat(bool), FpClass, Expect,
}

#[derive(Clone, Debug)]
pub enum I {
    Mov { d: u32, a: O },
    Bin { op: B, w: u8, d: u32, a: O, b: O },
    ICmp { p: Pred, w: u8, d: u32, a: O, b: O },
    FBin { op: FB, w: u8, d: u32, a: O, b: O },
    FCmp { p: u8, w: u8, d: u32, a: O, b: O },
    FNeg { w: u8, d: u32, a: O },
    Cast { op: CastOp, from: u8, to: u8, d: u32, a: O },
    Select { w: u8, d: u32, c: O, a: O, b: O },
    Gep { d: u32, base: O, off: i64, idx: Box<[(O, i64, u8)]> },
    Load { d: u32, p: O, w: u8, off: u32 },
    Store { v: O, p: O, w: u8, off: u32 },
    Alloca { d: u32, off: u32 },
    Call { f: u32, args: Box<[O]>, d: u32, nd: u32 },
    CallInd { f: O, args: Box<[O]>, d: u32, nd: u32 },
    Intr { id: In, args: Box<[O]>, w: u8, d: u32 },
    Br { e: Box<Edge> },
    CondBr { c: O, t: Box<Edge>, f: Box<Edge> },
    Switch { v: O, w: u8, cases: Box<[(u64, u32)]>, edges: Box<[Edge]>, table: Box<SwitchTab> },
    Ret { v: Box<[O]> },
    Unreachable,
    /// concatenates sources (each `sw` bits) into dsts (each `dw` bits)
    Repack { d: u32, nd: u32, dw: u8, src: Box<[O]>, sw: u8 },
    Wide { op: B, d: u32, a: [O; 2], b: [O; 2] },
    WideCmp { p: Pred, d: u32, a: [O; 2], b: [O; 2] },
    WideExt { signed: bool, from: u8, d: u32, a: O },
    WideIntr { id: In, d: u32, a: [O; 2], b: [O; 2] },
    WideFp { op: CastOp, d: u32, a: [O; 2] },
    Extract { d: u32, src: Box<[O]>, i: O },
    Insert { d: u32, src: Box<[O]>, v: O, i: O },
    Rmw { op: u8, w: u8, d: u32, p: O, v: O },
    CmpXchg { w: u8, d: u32, p: O, c: O, n: O },
    Unsupported { what: Box<str> },
}

#[derive(Clone, Debug, Default)]
pub struct SwitchTab {
    pub map: HashMap<u64, u32>,
    pub default: u32,
}

pub struct Func {
    pub name: String,
    pub decl: bool,
    pub nargs: u32,
    pub argws: Vec<u8>,
    pub nregs: u32,
    pub frame: u32,
    pub code: Vec<I>,
    /// source line id per instruction (0 = none), only for /repo files
    pub lines: Vec<u32>,
    pub rets: Vec<u8>,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub data: Vec<u8>,
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub lines: Vec<(String, u32)>,
}

pub const FUNC_BASE: u64 = 1 << 61;
pub const GLOB_BASE: u64 = 1 << 60;
pub fn func_addr(i: u32) -> u64 { FUNC_BASE | ((i as u64) << 4) }
pub fn glob_addr(i: u32) -> u64 { GLOB_BASE | ((i as u64) << 32) }

struct Ld {
    td: P,
    fmap: HashMap<P, u32>,
    gmap: HashMap<P, u32>,
    amap: HashMap<P, P>,
    tcache: HashMap<P, std::rc::Rc<Vec<(u8, u64)>>>,
}

unsafe fn vname(v: P) -> String {
    let mut n = 0usize;
    let p = LLVMGetValueName2(v, &mut n);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}
unsafe fn print(v: P) -> String {
    let p = LLVMPrintValueToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}

impl Ld {
    /// Flatten a type into scalar slots: (bit width, byte offset). i128 is two 64-bit slots.
    unsafe fn flat(&mut self, t: P) -> std::rc::Rc<Vec<(u8, u64)>> {
        if let Some(r) = self.tcache.get(&t) { return r.clone(); }
        let mut v = Vec::new();
        match LLVMGetTypeKind(t) {
            0 | 7 | 14 => {}
            1 => v.push((16, 0)),
            2 => v.push((32, 0)),
            3 => v.push((64, 0)),
            8 => {
                let w = LLVMGetIntTypeWidth(t);
                if w <= 64 { v.push((w as u8, 0)) }
                else if w == 128 { v.push((64, 0)); v.push((64, 8)); }
                else { let n = w.div_ceil(64); for i in 0..n { v.push((64, 8 * i as u64)); } }
            }
            12 => v.push((64, 0)),
            10 => {
                for i in 0..LLVMCountStructElementTypes(t) {
                    let o = LLVMOffsetOfElement(self.td, t, i);
                    let e = LLVMStructGetTypeAtIndex(t, i);
                    for &(w, eo) in self.flat(e).iter() { v.push((w, o + eo)); }
                }
            }
            11 | 13 => {
                let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                let e = LLVMGetElementType(t);
                let es = LLVMABISizeOfType(self.td, e);
                let f = self.flat(e);
                for i in 0..n { for &(w, eo) in f.iter() { v.push((w, i * es + eo)); } }
            }
            k => panic!("type kind {k}"),
        }
        let r = std::rc::Rc::new(v);
        self.tcache.insert(t, r.clone());
        r
    }
    unsafe fn is_vec(&self, t: P) -> bool { LLVMGetTypeKind(t) == 13 }
    unsafe fn is_wide(&self, t: P) -> bool { LLVMGetTypeKind(t) == 8 && LLVMGetIntTypeWidth(t) == 128 }

    /// Constant -> flattened values
    unsafe fn cst(&mut self, v: P, out: &mut Vec<u64>) {
        let t = LLVMTypeOf(v);
        match LLVMGetValueKind(v) {
            14 | 25 | 15 | 20 => { let n = self.flat(t).len(); for _ in 0..n { out.push(0) } }
            5 => out.push(func_addr(*self.fmap.get(&v).expect("func"))),
            8 => out.push(glob_addr(*self.gmap.get(&v).expect("glob"))),
            6 => { let a = LLVMAliasGetAliasee(v); self.cst(a, out) }
            18 => {
                let w = LLVMGetIntTypeWidth(t);
                if w <= 64 { out.push(LLVMConstIntGetZExtValue(v)) }
                else {
                    let s = print(v);
                    let num = s.split(' ').nth(1).unwrap().to_string();
                    let x: u128 = if let Some(n) = num.strip_prefix('-') { (n.parse::<u128>().unwrap()).wrapping_neg() } else { num.parse::<u128>().unwrap() };
                    out.push(x as u64); out.push((x >> 64) as u64);
                    for _ in 2..w.div_ceil(64) { out.push(0) }
                }
            }
            19 => {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                match LLVMGetTypeKind(t) { 3 => out.push(d.to_bits()), 2 => out.push((d as f32).to_bits() as u64), _ => out.push(0) }
            }
            11 | 12 | 13 => { for i in 0..LLVMGetNumOperands(v) { let e = LLVMGetOperand(v, i as u32); self.cst(e, out) } }
            16 | 17 => {
                let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                for i in 0..n { let e = LLVMGetAggregateElement(v, i as u32); self.cst(e, out) }
            }
            10 => {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => {
                        let mut b = vec![]; self.cst(LLVMGetOperand(v, 0), &mut b);
                        let mut a = b[0];
                        let mut ty = LLVMGetGEPSourceElementType(v);
                        for i in 1..LLVMGetNumOperands(v) {
                            let mut x = vec![]; self.cst(LLVMGetOperand(v, i as u32), &mut x);
                            let x = x[0];
                            if i == 1 { a = a.wrapping_add(x.wrapping_mul(LLVMABISizeOfType(self.td, ty))); }
                            else if LLVMGetTypeKind(ty) == 10 {
                                a = a.wrapping_add(LLVMOffsetOfElement(self.td, ty, x as u32)); ty = LLVMStructGetTypeAtIndex(ty, x as u32);
                            } else { ty = LLVMGetElementType(ty); a = a.wrapping_add(x.wrapping_mul(LLVMABISizeOfType(self.td, ty))); }
                        }
                        out.push(a)
                    }
                    39 | 40 | 41 | 60 | 69 => { let e = LLVMGetOperand(v, 0); self.cst(e, out) }
                    8 | 10 | 28 => {
                        let mut a = vec![]; self.cst(LLVMGetOperand(v, 0), &mut a);
                        let mut b = vec![]; self.cst(LLVMGetOperand(v, 1), &mut b);
                        out.push(match op { 8 => a[0].wrapping_add(b[0]), 10 => a[0].wrapping_sub(b[0]), _ => a[0] ^ b[0] })
                    }
                    30 => { let mut a = vec![]; self.cst(LLVMGetOperand(v, 0), &mut a); let w = LLVMGetIntTypeWidth(t); out.push(a[0] & mask(w as u8)) }
                    _ => panic!("constexpr op {op}: {}", print(v)),
                }
            }
            k => panic!("const kind {k}: {}", print(v)),
        }
    }

    unsafe fn init_bytes(&mut self, v: P, t: P, out: &mut [u8], off: usize) {
        match LLVMGetValueKind(v) {
            14 | 25 | 15 | 20 => {}
            16 => {
                let mut n = 0usize;
                let p = LLVMGetRawDataValues(v, &mut n);
                out[off..off + n].copy_from_slice(std::slice::from_raw_parts(p, n));
            }
            11 | 13 => {
                let e = LLVMGetElementType(t);
                let es = LLVMABISizeOfType(self.td, e) as usize;
                for i in 0..LLVMGetNumOperands(v) { let x = LLVMGetOperand(v, i as u32); self.init_bytes(x, e, out, off + i as usize * es) }
            }
            12 => {
                for i in 0..LLVMGetNumOperands(v) {
                    let x = LLVMGetOperand(v, i as u32);
                    let o = LLVMOffsetOfElement(self.td, t, i as u32) as usize;
                    let e = LLVMStructGetTypeAtIndex(t, i as u32);
                    self.init_bytes(x, e, out, off + o)
                }
            }
            _ => {
                let mut vals = vec![]; self.cst(v, &mut vals);
                let f = self.flat(t);
                for (i, &(w, o)) in f.iter().enumerate() {
                    let n = (w as usize).div_ceil(8);
                    out[off + o as usize..off + o as usize + n].copy_from_slice(&vals[i].to_le_bytes()[..n]);
                }
            }
        }
    }
}

pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

struct FnLd<'a> {
    ld: &'a mut Ld,
    regs: HashMap<P, (u32, u32)>, // value -> (first slot, nslots)
    nregs: u32,
    frame: u32,
    code: Vec<I>,
    lines: Vec<u32>,
    curline: u32,
    linemap: &'a mut HashMap<(String, u32), u32>,
    linevec: &'a mut Vec<(String, u32)>,
}

impl<'a> FnLd<'a> {
    unsafe fn reg(&mut self, v: P) -> (u32, u32) {
        if let Some(&r) = self.regs.get(&v) { return r; }
        let n = self.ld.flat(LLVMTypeOf(v)).len() as u32;
        let r = (self.nregs, n);
        self.nregs += n;
        self.regs.insert(v, r);
        r
    }
    fn tmp(&mut self, n: u32) -> u32 { let r = self.nregs; self.nregs += n; r }
    unsafe fn ops(&mut self, v: P) -> Vec<O> {
        match LLVMGetValueKind(v) {
            0 | 24 => { let (r, n) = self.reg(v); (0..n).map(|i| O { r: r + i, c: 0 }).collect() }
            22 | 23 | 21 => vec![],
            _ => { let mut o = vec![]; self.ld.cst(v, &mut o); o.into_iter().map(|c| O { r: NONE, c }).collect() }
        }
    }
    unsafe fn op(&mut self, v: P) -> O { let o = self.ops(v); assert!(o.len() == 1, "scalar operand: {}", print(v)); o[0] }
    fn emit(&mut self, i: I) { self.code.push(i); self.lines.push(self.curline); }
}

unsafe fn scalar_w(ld: &mut Ld, t: P) -> u8 {
    let f = ld.flat(t);
    if f.is_empty() { 0 } else { f[0].0 }
}

unsafe fn int_pred(p: c_int) -> Pred {
    match p { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, 41 => Pred::Sle, _ => panic!() }
}

fn intrinsic(name: &str) -> Option<In> {
    let n = name.strip_prefix("llvm.")?;
    let st = |p: &str| n.starts_with(p);
    Some(if st("assume") { In::Assume }
    else if st("lifetime") || st("experimental.noalias") || st("dbg") || st("invariant") || st("donothing") || st("sideeffect") || st("x86.sse2.pause") || st("prefetch") || st("instrprof") || st("fake.use") { In::Nop }
    else if st("memcpy") || st("memmove") { In::Memcpy }
    else if st("memset") { In::Memset }
    else if st("uadd.with") { In::AddOv(false) } else if st("sadd.with") { In::AddOv(true) }
    else if st("usub.with") { In::SubOv(false) } else if st("ssub.with") { In::SubOv(true) }
    else if st("umul.with") { In::MulOv(false) } else if st("smul.with") { In::MulOv(true) }
    else if st("ctlz") { In::Ctlz } else if st("cttz") { In::Cttz } else if st("ctpop") { In::Ctpop }
    else if st("bswap") { In::Bswap } else if st("bitreverse") { In::Bitreverse }
    else if st("fshl") { In::Fshl } else if st("fshr") { In::Fshr }
    else if st("abs") { In::Abs } else if st("fabs") { In::Fabs }
    else if st("trap") || st("ubsantrap") { In::Trap }
    else if st("is.constant") { In::IsConstant }
    else if st("ucmp") { In::Ucmp } else if st("scmp") { In::Scmp }
    else if st("threadlocal.address") { In::TlsAddr }
    else if st("floor") { In::Fmath(0) } else if st("ceil") { In::Fmath(1) } else if st("trunc") { In::Fmath(2) }
    else if st("round.") { In::Fmath(3) } else if st("rint") || st("roundeven") || st("nearbyint") { In::Fmath(4) } else if st("sqrt") { In::Fmath(5) }
    else if st("is.fpclass") { In::FpClass }
    else if st("copysign") { In::Copysign } else if st("fma.") || st("fmuladd") { In::Fma }
    else if st("minnum") || st("minimum") { In::FminFmax(false) } else if st("maxnum") || st("maximum") { In::FminFmax(true) }
    else if st("fptosi.sat") { In::FptosiSat(true) } else if st("fptoui.sat") { In::FptosiSat(false) }
    else if st("expect") { In::Expect }
    else { return None })
}
fn intr_bin(name: &str) -> Option<B> {
    let n = name.strip_prefix("llvm.")?;
    Some(if n.starts_with("umin.") { B::UMin } else if n.starts_with("umax.") { B::UMax } else if n.starts_with("smin.") { B::SMin } else if n.starts_with("smax.") { B::SMax }
    else if n.starts_with("uadd.sat") { B::UAddSat } else if n.starts_with("usub.sat") { B::USubSat } else if n.starts_with("sadd.sat") { B::SAddSat } else if n.starts_with("ssub.sat") { B::SSubSat } else { return None })
}

pub fn load(path: &str) -> Module {
    unsafe {
        let cx = LLVMContextCreate();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let cp = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {path}: {:?}", CStr::from_ptr(msg)); }
        let mut m: P = std::ptr::null_mut();
        if LLVMParseIRInContext2(cx, buf, &mut m, &mut msg) != 0 { panic!("cannot parse {path}: {:?}", CStr::from_ptr(msg)); }
        let td = LLVMGetModuleDataLayout(m);
        let mut ld = Ld { td, fmap: HashMap::new(), gmap: HashMap::new(), amap: HashMap::new(), tcache: HashMap::new() };
        let mut out = Module::default();
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            ld.fmap.insert(f, fs.len() as u32);
            out.fidx.insert(vname(f), fs.len() as u32);
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() { ld.gmap.insert(g, gs.len() as u32); gs.push(g); g = LLVMGetNextGlobal(g); }
        let mut a = LLVMGetFirstGlobalAlias(m);
        while !a.is_null() { let t = LLVMAliasGetAliasee(a); ld.amap.insert(a, t); if let Some(&i) = ld.fmap.get(&t) { out.fidx.insert(vname(a), i); } a = LLVMGetNextGlobalAlias(a); }
        for &g in &gs {
            let t = LLVMGlobalGetValueType(g);
            let sz = LLVMABISizeOfType(td, t) as usize;
            let mut data = vec![0u8; sz];
            let init = LLVMGetInitializer(g);
            if !init.is_null() { ld.init_bytes(init, t, &mut data, 0); }
            out.globals.push(Global { name: vname(g), constant: LLVMIsGlobalConstant(g) != 0, data });
        }
        let mut linemap = HashMap::new();
        let mut linevec = vec![(String::new(), 0)];
        for &f in &fs { let x = load_fn(&mut ld, f, &mut linemap, &mut linevec); out.funcs.push(x); }
        out.lines = linevec;
        out
    }
}

unsafe fn load_fn(ld: &mut Ld, f: P, linemap: &mut HashMap<(String, u32), u32>, linevec: &mut Vec<(String, u32)>) -> Func {
    let name = vname(f);
    let fty = LLVMGlobalGetValueType(f);
    let rets: Vec<u8> = ld.flat(LLVMGetReturnType(fty)).iter().map(|x| x.0).collect();
    let vararg = LLVMIsFunctionVarArg(fty) != 0;
    let decl = LLVMIsDeclaration(f) != 0;
    let mut cx = FnLd { ld, regs: HashMap::new(), nregs: 0, frame: 0, code: vec![], lines: vec![], curline: 0, linemap, linevec };
    let mut argws = vec![];
    for i in 0..LLVMCountParams(f) {
        let p = LLVMGetParam(f, i);
        cx.reg(p);
        for x in cx.ld.flat(LLVMTypeOf(p)).iter() { argws.push(x.0) }
    }
    let nargs = cx.nregs;
    if decl { return Func { name, decl, nargs, argws, nregs: nargs, frame: 0, code: vec![], lines: vec![], rets, vararg }; }
    let mut bbs = vec![];
    let mut bbpc: HashMap<P, u32> = HashMap::new();
    let mut b = LLVMGetFirstBasicBlock(f);
    while !b.is_null() { bbs.push(b); b = LLVMGetNextBasicBlock(b); }
    let bbi: HashMap<P, u32> = bbs.iter().enumerate().map(|(i, &b)| (b, i as u32)).collect();
    for &b in &bbs {
        bbpc.insert(b, cx.code.len() as u32);
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() {
            let mut n = 0;
            let fp = LLVMGetDebugLocFilename(i, &mut n);
            cx.curline = 0;
            if !fp.is_null() && n > 0 {
                let s = String::from_utf8_lossy(std::slice::from_raw_parts(fp as *const u8, n as usize)).into_owned();
                let s = if s.starts_with('/') { s } else { let mut dn = 0; let dp = LLVMGetDebugLocDirectory(i, &mut dn); let d = String::from_utf8_lossy(std::slice::from_raw_parts(dp as *const u8, dn as usize)).into_owned(); format!("{d}/{s}") };
                if s.starts_with("/repo/src/") {
                    let key = (s, LLVMGetDebugLocLine(i));
                    let nv = cx.linevec.len() as u32;
                    cx.curline = *cx.linemap.entry(key.clone()).or_insert(nv);
                    if cx.curline == nv { cx.linevec.push(key); }
                }
            }
            lower(&mut cx, i, b, &bbi);
            i = LLVMGetNextInstruction(i);
        }
    }
    // patch edges: pc currently holds block index
    let pcs: Vec<u32> = bbs.iter().map(|b| bbpc[b]).collect();
    for i in cx.code.iter_mut() {
        match i {
            I::Br { e } => e.pc = pcs[e.pc as usize],
            I::CondBr { t, f, .. } => { t.pc = pcs[t.pc as usize]; f.pc = pcs[f.pc as usize]; }
            I::Switch { edges, .. } => for e in edges.iter_mut() { e.pc = pcs[e.pc as usize]; },
            _ => {}
        }
    }
    Func { name, decl, nargs, argws, nregs: cx.nregs, frame: cx.frame, code: cx.code, lines: cx.lines, rets, vararg }
}

unsafe fn edge(cx: &mut FnLd, from: P, to: P, bbi: &HashMap<P, u32>) -> Edge {
    let mut moves = vec![];
    let mut i = LLVMGetFirstInstruction(to);
    while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
        let (d, n) = cx.reg(i);
        for k in 0..LLVMCountIncoming(i) {
            if LLVMGetIncomingBlock(i, k) == from {
                let v = LLVMGetIncomingValue(i, k);
                let undef = matches!(LLVMGetValueKind(v), 14 | 25);
                if !undef {
                    let o = cx.ops(v);
                    for s in 0..n { if o[s as usize].r != d + s { moves.push((d + s, o[s as usize])); } }
                }
                break;
            }
        }
        i = LLVMGetNextInstruction(i);
    }
    let mut par = false;
    for (j, m) in moves.iter().enumerate() { for e in &moves[j + 1..] { if e.1.r == m.0 { par = true; } } }
    Edge { pc: bbi[&to], moves: moves.into(), par }
}

unsafe fn lower(cx: &mut FnLd, i: P, bb: P, bbi: &HashMap<P, u32>) {
    let opc = LLVMGetInstructionOpcode(i);
    let ty = LLVMTypeOf(i);
    let opnd = |k: u32| LLVMGetOperand(i, k);
    macro_rules! unsup { () => {{ let s = print(i); cx.reg(i); cx.emit(I::Unsupported { what: s.into() }); return; }} }
    let odd = |t: P| LLVMGetTypeKind(t) == 8 && { let w = LLVMGetIntTypeWidth(t); w > 64 && w != 128 };
    if opc != 44 && (odd(ty) || (opc != 2 && (0..LLVMGetNumOperands(i)).any(|k| odd(LLVMTypeOf(opnd(k as u32)))))) { unsup!() }
    match opc {
        44 => { cx.reg(i); }
        1 => {
            let v = if LLVMGetNumOperands(i) > 0 { cx.ops(opnd(0)) } else { vec![] };
            cx.emit(I::Ret { v: v.into() });
        }
        7 => cx.emit(I::Unreachable),
        3 => {
            let n = LLVMGetNumOperands(i);
            let v = cx.op(opnd(0));
            let w = scalar_w(cx.ld, LLVMTypeOf(opnd(0)));
            let nsucc = LLVMGetNumSuccessors(i);
            let mut edges = vec![];
            let mut dest: Vec<P> = vec![];
            let mut cases = vec![];
            let mut tab = SwitchTab::default();
            for s in 0..nsucc {
                let to = LLVMGetSuccessor(i, s);
                let ei = match dest.iter().position(|&d| d == to) { Some(p) => p, None => { dest.push(to); edges.push(edge(cx, bb, to, bbi)); dest.len() - 1 } } as u32;
                if s == 0 { tab.default = ei } else {
                    // case values come through the raw operand list or a dedicated accessor
                    let cv = case_value(i, s, n);
                    tab.map.entry(cv).or_insert(ei);
                    cases.push((cv, ei));
                }
            }
            cx.emit(I::Switch { v, w, cases: cases.into(), edges: edges.into(), table: Box::new(tab) });
        }
        _ if LLVMGetNumSuccessors_safe(i, opc) == 1 && opc != 5 => {
            let e = edge(cx, bb, LLVMGetSuccessor(i, 0), bbi);
            cx.emit(I::Br { e: Box::new(e) });
        }
        _ if LLVMGetNumSuccessors_safe(i, opc) == 2 && opc != 5 => {
            let c = cx.op(opnd(0));
            let t = edge(cx, bb, LLVMGetSuccessor(i, 0), bbi);
            let f = edge(cx, bb, LLVMGetSuccessor(i, 1), bbi);
            cx.emit(I::CondBr { c, t: Box::new(t), f: Box::new(f) });
        }
        _ => {}
    }
    match opc {
        8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let b = cx.ops(opnd(1));
            let op = match opc { 8 => B::Add, 10 => B::Sub, 12 => B::Mul, 14 => B::UDiv, 15 => B::SDiv, 17 => B::URem, 18 => B::SRem, 20 => B::Shl, 21 => B::LShr, 22 => B::AShr, 23 => B::And, 24 => B::Or, _ => B::Xor };
            if cx.ld.is_wide(ty) { cx.emit(I::Wide { op, d, a: [a[0], a[1]], b: [b[0], b[1]] }); return; }
            if !cx.ld.is_vec(ty) && LLVMGetIntTypeWidth(ty) > 64 { unsup!() }
            let w = scalar_w(cx.ld, ty);
            for k in 0..n as usize { cx.emit(I::Bin { op, w, d: d + k as u32, a: a[k], b: b[k] }); }
        }
        9 | 11 | 13 | 16 | 19 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let b = cx.ops(opnd(1));
            let op = match opc { 9 => FB::Add, 11 => FB::Sub, 13 => FB::Mul, 16 => FB::Div, _ => FB::Rem };
            let w = scalar_w(cx.ld, ty);
            for k in 0..n as usize { cx.emit(I::FBin { op, w, d: d + k as u32, a: a[k], b: b[k] }); }
        }
        66 => { let (d, _) = cx.reg(i); let a = cx.op(opnd(0)); let w = scalar_w(cx.ld, ty); cx.emit(I::FNeg { w, d, a }); }
        42 => {
            let (d, n) = cx.reg(i);
            let p = int_pred(LLVMGetICmpPredicate(i));
            let ot = LLVMTypeOf(opnd(0));
            let a = cx.ops(opnd(0));
            let b = cx.ops(opnd(1));
            if cx.ld.is_wide(ot) { cx.emit(I::WideCmp { p, d, a: [a[0], a[1]], b: [b[0], b[1]] }); return; }
            let w = scalar_w(cx.ld, ot);
            for k in 0..n as usize { cx.emit(I::ICmp { p, w, d: d + k as u32, a: a[k], b: b[k] }); }
        }
        43 => {
            let (d, _) = cx.reg(i);
            let p = LLVMGetFCmpPredicate(i) as u8;
            let w = scalar_w(cx.ld, LLVMTypeOf(opnd(0)));
            let a = cx.op(opnd(0)); let b = cx.op(opnd(1));
            cx.emit(I::FCmp { p, w, d, a, b });
        }
        26 => {
            let (d, _) = cx.reg(i);
            let t = LLVMGetAllocatedType(i);
            let n = LLVMConstIntGetZExtValue(opnd(0)).max(1);
            let sz = LLVMABISizeOfType(cx.ld.td, t) * n;
            let al = (LLVMGetAlignment(i).max(1)) as u64;
            let off = (cx.frame as u64).next_multiple_of(al);
            cx.frame = (off + sz) as u32;
            cx.emit(I::Alloca { d, off: off as u32 });
        }
        27 => {
            let (d, n) = cx.reg(i);
            let p = cx.op(opnd(0));
            let f = cx.ld.flat(ty);
            if cx.ld.is_vec(ty) && f[0].0 < 8 { unsup!() }
            for k in 0..n as usize { cx.emit(I::Load { d: d + k as u32, p, w: f[k].0, off: f[k].1 as u32 }); }
        }
        28 => {
            let v = cx.ops(opnd(0));
            let t = LLVMTypeOf(opnd(0));
            let p = cx.op(opnd(1));
            let f = cx.ld.flat(t);
            if cx.ld.is_vec(t) && f[0].0 < 8 { unsup!() }
            let undef = matches!(LLVMGetValueKind(opnd(0)), 14 | 25);
            if !undef { for k in 0..v.len() { cx.emit(I::Store { v: v[k], p, w: f[k].0, off: f[k].1 as u32 }); } }
        }
        29 => {
            let (d, n) = cx.reg(i);
            if n != 1 { unsup!() }
            let base = cx.op(opnd(0));
            let mut ty = LLVMGetGEPSourceElementType(i);
            let mut off = 0i64;
            let mut idx = vec![];
            for k in 1..LLVMGetNumOperands(i) as u32 {
                let o = cx.op(opnd(k));
                let iw = scalar_w(cx.ld, LLVMTypeOf(opnd(k)));
                let sc;
                if k == 1 { sc = LLVMABISizeOfType(cx.ld.td, ty) as i64; }
                else if LLVMGetTypeKind(ty) == 10 {
                    off += LLVMOffsetOfElement(cx.ld.td, ty, o.c as u32) as i64;
                    ty = LLVMStructGetTypeAtIndex(ty, o.c as u32);
                    continue;
                } else { ty = LLVMGetElementType(ty); sc = LLVMABISizeOfType(cx.ld.td, ty) as i64; }
                if o.r == NONE { let v = sext(o.c, iw) as i64; off = off.wrapping_add(v.wrapping_mul(sc)); }
                else if sc != 0 { idx.push((o, sc, iw)); }
            }
            cx.emit(I::Gep { d, base, off, idx: idx.into() });
        }
        30..=38 => {
            let (d, n) = cx.reg(i);
            let ft = LLVMTypeOf(opnd(0));
            let a = cx.ops(opnd(0));
            let op = match opc { 30 => CastOp::Trunc, 31 => CastOp::ZExt, 32 => CastOp::SExt, 33 => CastOp::FPToUI, 34 => CastOp::FPToSI, 35 => CastOp::UIToFP, 36 => CastOp::SIToFP, 37 => CastOp::FPTrunc, _ => CastOp::FPExt };
            if cx.ld.is_wide(ty) {
                match op { CastOp::ZExt | CastOp::SExt => { let from = scalar_w(cx.ld, ft); cx.emit(I::WideExt { signed: op == CastOp::SExt, from, d, a: a[0] }); } _ => unsup!() }
                return;
            }
            if cx.ld.is_wide(ft) {
                match op {
                    CastOp::Trunc => { let to = scalar_w(cx.ld, ty); if to == 64 { cx.emit(I::Mov { d, a: a[0] }) } else { cx.emit(I::Cast { op, from: 64, to, d, a: a[0] }) } }
                    CastOp::UIToFP | CastOp::SIToFP => cx.emit(I::WideFp { op, d, a: [a[0], a[1]] }),
                    _ => unsup!(),
                }
                return;
            }
            if LLVMGetTypeKind(ft) == 8 && LLVMGetIntTypeWidth(ft) > 128 || LLVMGetTypeKind(ty) == 8 && LLVMGetIntTypeWidth(ty) > 128 { unsup!() }
            let from = scalar_w(cx.ld, ft);
            let to = scalar_w(cx.ld, ty);
            for k in 0..n as usize { cx.emit(I::Cast { op, from, to, d: d + k as u32, a: a[k] }); }
        }
        39 | 40 | 41 | 60 | 69 | 68 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let sw = scalar_w(cx.ld, LLVMTypeOf(opnd(0)));
            let dw = scalar_w(cx.ld, ty);
            if opc == 39 || opc == 40 || opc == 69 {
                if dw == sw { cx.emit(I::Mov { d, a: a[0] }) } else { cx.emit(I::Cast { op: if dw < sw { CastOp::Trunc } else { CastOp::ZExt }, from: sw, to: dw, d, a: a[0] }) }
            } else if a.len() == n as usize && sw == dw {
                for k in 0..n as usize { cx.emit(I::Mov { d: d + k as u32, a: a[k] }); }
            } else { cx.emit(I::Repack { d, nd: n, dw, src: a.into(), sw }); }
        }
        46 => {
            let (d, n) = cx.reg(i);
            let c = cx.ops(opnd(0));
            let a = cx.ops(opnd(1));
            let b = cx.ops(opnd(2));
            let f = cx.ld.flat(ty);
            for k in 0..n as usize {
                let cc = if c.len() == 1 { c[0] } else { c[k] };
                cx.emit(I::Select { w: f[k].0, d: d + k as u32, c: cc, a: a[k], b: b[k] });
            }
        }
        53 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let s = agg_slot(cx, i, LLVMTypeOf(opnd(0)));
            for k in 0..n { cx.emit(I::Mov { d: d + k, a: a[(s + k) as usize] }); }
        }
        54 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let v = cx.ops(opnd(1));
            let s = agg_slot(cx, i, LLVMTypeOf(opnd(0)));
            for k in 0..n {
                let src = if k >= s && k < s + v.len() as u32 { v[(k - s) as usize] } else { a[k as usize] };
                cx.emit(I::Mov { d: d + k, a: src });
            }
        }
        50 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let ix = cx.op(opnd(1));
            if n != 1 { unsup!() }
            if ix.r == NONE { cx.emit(I::Mov { d, a: a[ix.c as usize] }) } else { cx.emit(I::Extract { d, src: a.into(), i: ix }) }
        }
        51 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let v = cx.op(opnd(1));
            let ix = cx.op(opnd(2));
            if ix.r == NONE { for k in 0..n { let s = if k as u64 == ix.c { v } else { a[k as usize] }; cx.emit(I::Mov { d: d + k, a: s }); } }
            else { cx.emit(I::Insert { d, src: a.into(), v, i: ix }) }
        }
        52 => {
            let (d, n) = cx.reg(i);
            let a = cx.ops(opnd(0));
            let b = cx.ops(opnd(1));
            for k in 0..n {
                let m = LLVMGetMaskValue(i, k);
                let s = if m < 0 { O { r: NONE, c: 0 } } else if (m as usize) < a.len() { a[m as usize] } else { b[m as usize - a.len()] };
                cx.emit(I::Mov { d: d + k, a: s });
            }
        }
        55 => {}
        57 => {
            let (d, _) = cx.reg(i);
            let p = cx.op(opnd(0)); let v = cx.op(opnd(1));
            let w = scalar_w(cx.ld, ty);
            let op = LLVMGetAtomicRMWBinOp(i) as u8;
            cx.emit(I::Rmw { op, w, d, p, v });
        }
        56 => {
            let (d, _) = cx.reg(i);
            let p = cx.op(opnd(0)); let c = cx.op(opnd(1)); let n = cx.op(opnd(2));
            let w = scalar_w(cx.ld, LLVMTypeOf(opnd(1)));
            cx.emit(I::CmpXchg { w, d, p, c, n });
        }
        45 | 5 => {
            let (d, nd) = cx.reg(i);
            let callee = LLVMGetCalledValue(i);
            let na = LLVMGetNumArgOperands(i);
            if LLVMGetValueKind(callee) == 23 {
                // inline asm: only the empty barrier form is a no-op
                let t = print(i);
                if nd == 0 { cx.emit(I::Intr { id: In::Nop, args: vec![].into(), w: 0, d }); } else { cx.emit(I::Unsupported { what: t.into() }); }
                return;
            }
            let mut args = vec![];
            let mut cal = callee;
            if LLVMGetValueKind(cal) == 6 { cal = cx.ld.amap[&cal]; }
            let is_f = LLVMGetValueKind(cal) == 5;
            let nm = if is_f { vname(cal) } else { String::new() };
            if is_f && nm.starts_with("llvm.") {
                if let Some(op) = intr_bin(&nm) {
                    let a = cx.ops(opnd(0)); let b = cx.ops(opnd(1));
                    let w = scalar_w(cx.ld, ty);
                    if cx.ld.is_wide(ty) { cx.emit(I::Wide { op, d, a: [a[0], a[1]], b: [b[0], b[1]] }); return; }
                    for k in 0..nd as usize { cx.emit(I::Bin { op, w, d: d + k as u32, a: a[k], b: b[k] }); }
                    return;
                }
                let Some(id) = intrinsic(&nm) else { unsup!() };
                if matches!(id, In::Nop | In::Assume) { return; }
                let t0 = if na > 0 { LLVMTypeOf(opnd(0)) } else { ty };
                if cx.ld.is_wide(t0) {
                    let a = cx.ops(opnd(0));
                    let b = if na > 1 { cx.ops(opnd(1)) } else { vec![] };
                    let b = if b.len() == 2 { [b[0], b[1]] } else { [O { r: NONE, c: 0 }; 2] };
                    cx.emit(I::WideIntr { id, d, a: [a[0], a[1]], b });
                    return;
                }
                for k in 0..na { args.extend(cx.ops(opnd(k))); }
                let w = match id { In::Ucmp | In::Scmp | In::AddOv(_) | In::SubOv(_) | In::MulOv(_) | In::FptosiSat(_) | In::FpClass => scalar_w(cx.ld, t0), _ => { if nd > 0 { scalar_w(cx.ld, ty) } else { 0 } } };
                if cx.ld.is_vec(ty) { unsup!() }
                cx.emit(I::Intr { id, args: args.into(), w, d });
                return;
            }
            for k in 0..na { args.extend(cx.ops(opnd(k))); }
            if is_f { let f = cx.ld.fmap[&cal]; cx.emit(I::Call { f, args: args.into(), d, nd }); }
            else { let f = cx.op(cal); cx.emit(I::CallInd { f, args: args.into(), d, nd }); }
            if opc == 5 { let e = edge(cx, bb, LLVMGetNormalDest(i), bbi); cx.emit(I::Br { e: Box::new(e) }); }
        }
        59 | 58 | 4 | 49 | 61..=65 => unsup!(),
        _ => {}
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessors_safe(i: P, opc: c_int) -> u32 {
    extern "C" { fn LLVMIsATerminatorInst(i: P) -> P; }
    if opc == 1 || opc == 7 || opc == 3 || LLVMIsATerminatorInst(i).is_null() { return 0; }
    LLVMGetNumSuccessors(i)
}

unsafe fn case_value(i: P, s: u32, _n: c_int) -> u64 {
    extern "C" { fn LLVMGetSwitchCaseValue(i: P, s: c_uint) -> P; }
    LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(i, s))
}

pub fn sext(v: u64, w: u8) -> u64 {
    if w == 0 || w >= 64 { return v; }
    let s = 64 - w as u32;
    (((v << s) as i64) >> s) as u64
}

unsafe fn agg_slot(cx: &mut FnLd, i: P, mut t: P) -> u32 {
    let n = LLVMGetNumIndices(i);
    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize).to_vec();
    let mut s = 0u32;
    for x in ix {
        if LLVMGetTypeKind(t) == 10 {
            for k in 0..x { let e = LLVMStructGetTypeAtIndex(t, k); s += cx.ld.flat(e).len() as u32; }
            t = LLVMStructGetTypeAtIndex(t, x);
        } else { t = LLVMGetElementType(t); s += cx.ld.flat(t).len() as u32 * x; }
    }
    s
}
