//! Z3 back end (C API): translates arena expressions to QF_BV terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Z3 {
    c: P,
    s: P,
    sorts: Vec<P>,
    terms: HashMap<E, P, Fx>,
    doms: HashMap<(u32, Set), P>,
}

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, sorts: vec![std::ptr::null_mut(); 65], terms: HashMap::default(), doms: HashMap::new() }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if self.sorts[w as usize].is_null() { self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }; }
        self.sorts[w as usize]
    }
    fn num(&mut self, v: u64, w: u8) -> P { let s = self.sort(w); unsafe { Z3_mk_unsigned_int64(self.c, v, s) } }
    fn var(&mut self, id: u64, w: u8) -> P {
        let n = CString::new(format!("v{id}_{w}")).unwrap();
        let s = self.sort(w);
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) }
    }
    /// every term is a bit-vector (booleans are 1-bit vectors)
    pub fn term(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&t) = self.terms.get(&e) { return t; }
        let n = ar.nodes[e as usize];
        let c = self.c;
        let t = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => self.var(n.k, n.w),
                Op::ZExt => { let a = self.term(ar, n.a); Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, a) }
                Op::SExt => { let a = self.term(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, a) }
                Op::Extract => { let a = self.term(ar, n.a); Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a) }
                Op::Concat => { let a = self.term(ar, n.a); let b = self.term(ar, n.b); Z3_mk_concat(c, a, b) }
                Op::Ite => { let a = self.boolean(ar, n.a); let b = self.term(ar, n.b); let d = self.term(ar, n.c); Z3_mk_ite(c, a, b, d) }
                Op::Eq | Op::Ult | Op::Slt => {
                    let a = self.term(ar, n.a); let b = self.term(ar, n.b);
                    let r = match n.op { Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), _ => Z3_mk_bvslt(c, a, b) };
                    let one = self.num(1, 1); let zero = self.num(0, 1);
                    Z3_mk_ite(c, r, one, zero)
                }
                Op::Lookup => {
                    let idx = self.term(ar, n.a);
                    let iw = ar.w(n.a);
                    let l = ar.lut[n.k as usize].clone();
                    // runs of equal values, from the top down; out of range = 0
                    let mut runs: Vec<(u64, u64)> = vec![]; // (start, value)
                    for (i, &v) in l.iter().enumerate() { if runs.last().map(|r| r.1) != Some(v) { runs.push((i as u64, v)); } }
                    runs.push((l.len() as u64, 0));
                    let mut t = self.num(runs[0].1, n.w);
                    for w in 1..runs.len() {
                        let (s, v) = runs[w];
                        if iw < 64 && s >> iw != 0 { break; }
                        let sn = self.num(s, iw); let vn = self.num(v, n.w);
                        let ge = Z3_mk_bvule(c, sn, idx);
                        t = Z3_mk_ite(c, ge, vn, t);
                    }
                    t
                }
                _ => {
                    let a = self.term(ar, n.a); let b = self.term(ar, n.b);
                    let f = match n.op {
                        Op::Add => Z3_mk_bvadd, Op::Sub => Z3_mk_bvsub, Op::Mul => Z3_mk_bvmul, Op::UDiv => Z3_mk_bvudiv, Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem, Op::SRem => Z3_mk_bvsrem, Op::Shl => Z3_mk_bvshl, Op::LShr => Z3_mk_bvlshr, Op::AShr => Z3_mk_bvashr,
                        Op::And => Z3_mk_bvand, Op::Or => Z3_mk_bvor, Op::Xor => Z3_mk_bvxor, _ => unreachable!(),
                    };
                    f(c, a, b)
                }
            }
        };
        self.terms.insert(e, t);
        t
    }
    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        let t = self.term(ar, e);
        let one = self.num(1, 1);
        unsafe { Z3_mk_eq(self.c, t, one) }
    }
    fn dom(&mut self, v: u32, w: u8, d: &Set) -> P {
        if let Some(&t) = self.doms.get(&(v, *d)) { return t; }
        let x = self.var(v as u64, w);
        let mut parts = vec![];
        let mut i = 0u32;
        let lim = 1u32 << w;
        while i < lim {
            if set_has(d, i as u8) {
                let s = i;
                while i + 1 < lim && set_has(d, (i + 1) as u8) { i += 1; }
                let a = self.num(s as u64, w); let b = self.num(i as u64, w);
                unsafe {
                    if s == i { parts.push(Z3_mk_eq(self.c, x, a)); }
                    else { let p = [Z3_mk_bvule(self.c, a, x), Z3_mk_bvule(self.c, x, b)]; parts.push(Z3_mk_and(self.c, 2, p.as_ptr())); }
                }
            }
            i += 1;
        }
        let t = unsafe { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) };
        self.doms.insert((v, *d), t);
        t
    }
    /// conj: (expr, polarity); doms: (var, width, set). Ok(Some(values of vars)) when sat, Ok(None) when unsat.
    pub fn check(&mut self, ar: &Arena, conj: &[(E, bool)], doms: &[(u32, u8, Set)], want: &[(u32, u8)]) -> Result<Option<Vec<u64>>, String> {
        unsafe {
            let (c, s) = (self.c, self.s);
            Z3_solver_push(c, s);
            for (v, w, d) in doms { let t = self.dom(*v, *w, d); Z3_solver_assert(c, s, t); }
            for &(e, pol) in conj { let t = self.boolean(ar, e); let t = if pol { t } else { Z3_mk_not(c, t) }; Z3_solver_assert(c, s, t); }
            let r = Z3_solver_check(c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(v, w) in want {
                        let t = self.var(v as u64, w);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(c, m, t, true, &mut o) { Z3_get_numeral_uint64(c, o, &mut x); }
                        out.push(x);
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Some(out))
                }
                -1 => Ok(None),
                _ => Err("unknown".to_string()),
            };
            Z3_solver_pop(c, s, 1);
            res
        }
    }
}
