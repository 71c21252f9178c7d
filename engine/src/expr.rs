//! Hash-consed bit-vector expressions (width 1..=64) with simplification, and
//! exact value tables for expressions over one byte-wide variable.
use crate::llvm::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Slt, Ite, ZExt, SExt, Extract, Concat, Lookup,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u64 }

/// 256-bit set of byte values
pub type Set = [u64; 4];
pub const FULL: Set = [!0; 4];
pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn set_count(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn set_has(a: &Set, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn set_first(a: &Set) -> u8 { for i in 0..4 { if a[i] != 0 { return (i as u8) * 64 + a[i].trailing_zeros() as u8; } } 0 }
pub fn set_iter(a: &Set) -> impl Iterator<Item = u8> + '_ { (0..=255u8).filter(move |&v| set_has(a, v)) }

/// set of variables (up to 128)
pub type VS = u128;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VS>,
    /// variable widths
    pub varw: Vec<u8>,
    map: HashMap<Node, E, Fx>,
    tabs: HashMap<E, Rc<[u64; 256]>, Fx>,
    sets: HashMap<E, Set, Fx>,
    bmemo: HashMap<E, (u64, u64), Fx>,
    canon: HashMap<(u32, Set), E, Fx>,
    pub lut: Vec<Rc<Vec<u64>>>,
    lutmap: HashMap<Rc<Vec<u64>>, u32>,
    memo: Vec<(u32, u64)>,
    gen: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}

pub fn bin_eval(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let r = match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { !0 } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => if b == 0 { 0 } else { (sext(a, w) as i64).wrapping_div(sext(b, w) as i64) as u64 },
        SRem => if b == 0 { a } else { (sext(a, w) as i64).wrapping_rem(sext(b, w) as i64) as u64 },
        Shl => if b >= w as u64 { 0 } else { a << b },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => { let s = sext(a, w) as i64; (s >> b.min(63)) as u64 }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u64,
        Ult => (a < b) as u64,
        Slt => ((sext(a, w) as i64) < (sext(b, w) as i64)) as u64,
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![], vars: vec![], varw: vec![], map: HashMap::default(), tabs: HashMap::default(), sets: HashMap::default(), bmemo: HashMap::default(),
            canon: HashMap::default(), lut: vec![], lutmap: HashMap::new(), memo: vec![], gen: 0,
        };
        // id 0 is reserved ("concrete")
        a.nodes.push(Node { op: Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.vars.push(0);
        a
    }
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn is_const(&self, e: E) -> Option<u64> { let n = &self.nodes[e as usize]; if n.op == Const { Some(n.k) } else { None } }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let mut vs: VS = 0;
        if n.op == Var { vs = 1 << n.k } else { for x in [n.a, n.b, n.c] { vs |= self.vars[x as usize]; } }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(vs);
        self.map.insert(n, e);
        if n.w == 1 && n.op != Const && n.op != Var && vs.count_ones() == 1 && self.varw[vs.trailing_zeros() as usize] <= 8 {
            let v = vs.trailing_zeros();
            let s = self.set_of(e);
            let full = self.full(v);
            let r = if set_empty(&s) { self.cst(0, 1) } else if s == full { self.cst(1, 1) } else { *self.canon.entry((v, s)).or_insert(e) };
            if r != e { self.map.insert(n, r); return r; }
        }
        e
    }
    pub fn full(&self, v: u32) -> Set {
        let w = self.varw[v as usize];
        if w >= 8 { FULL } else { let n = 1u32 << w; let mut s = [0; 4]; for i in 0..n { s[(i >> 6) as usize] |= 1 << (i & 63); } s }
    }
    pub fn cst(&mut self, v: u64, w: u8) -> E { self.intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, id: u32, w: u8) -> E {
        while self.varw.len() <= id as usize { self.varw.push(8) }
        self.varw[id as usize] = w;
        self.intern(Node { op: Var, w, a: 0, b: 0, c: 0, k: id as u64 })
    }
    pub fn lut_id(&mut self, t: Vec<u64>) -> u32 {
        let t = Rc::new(t);
        if let Some(&i) = self.lutmap.get(&t) { return i; }
        let i = self.lut.len() as u32;
        self.lut.push(t.clone());
        self.lutmap.insert(t, i);
        i
    }
    pub fn lookup(&mut self, idx: E, t: u32, w: u8) -> E {
        if let Some(k) = self.is_const(idx) { let v = self.lut[t as usize].get(k as usize).copied().unwrap_or(0); return self.cst(v, w); }
        self.intern(Node { op: Lookup, w, a: idx, b: 0, c: 0, k: t as u64 })
    }

    /// values of `e` for each value of its single byte variable
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) { return t.clone(); }
        let n = self.nodes[e as usize];
        let mut t = [0u64; 256];
        match n.op {
            Const => t = [n.k; 256],
            Var => for i in 0..256 { t[i] = i as u64 & mask(n.w) },
            Ite => {
                let (c, a, b) = (self.table(n.a), self.table(n.b), self.table(n.c));
                for i in 0..256 { t[i] = if c[i] != 0 { a[i] } else { b[i] } }
            }
            ZExt => { let a = self.table(n.a); t = *a }
            SExt => { let a = self.table(n.a); let aw = self.w(n.a); for i in 0..256 { t[i] = sext(a[i], aw) & mask(n.w) } }
            Extract => { let a = self.table(n.a); for i in 0..256 { t[i] = (a[i] >> n.k) & mask(n.w) } }
            Concat => { let (a, b) = (self.table(n.a), self.table(n.b)); let bw = self.w(n.b); for i in 0..256 { t[i] = (a[i] << bw) | b[i] } }
            Lookup => { let a = self.table(n.a); let l = self.lut[n.k as usize].clone(); for i in 0..256 { t[i] = l.get(a[i] as usize).copied().unwrap_or(0) } }
            _ => {
                let (a, b) = (self.table(n.a), self.table(n.b));
                let w = if matches!(n.op, Eq | Ult | Slt) { self.w(n.a) } else { n.w };
                for i in 0..256 { t[i] = bin_eval(n.op, w, a[i], b[i]) }
            }
        }
        let r = Rc::new(t);
        self.tabs.insert(e, r.clone());
        r
    }
    pub fn set_of(&mut self, e: E) -> Set {
        if let Some(s) = self.sets.get(&e) { return *s; }
        let n = self.nodes[e as usize];
        let v = self.vars[e as usize].trailing_zeros();
        let s = match n.op {
            And if n.w == 1 => set_and(&self.set_or_const(n.a, v), &self.set_or_const(n.b, v)),
            _ => {
                let t = self.table(e);
                let mut s = [0u64; 4];
                for i in 0..256 { if t[i] != 0 { s[i >> 6] |= 1 << (i & 63); } }
                set_and(&s, &self.full(v))
            }
        };
        self.sets.insert(e, s);
        s
    }
    fn set_or_const(&mut self, e: E, v: u32) -> Set {
        match self.is_const(e) { Some(0) => [0; 4], Some(_) => self.full(v), None => self.set_of(e) }
    }

    pub fn not(&mut self, a: E) -> E { let o = self.cst(1, 1); self.bin(Xor, a, o) }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bin(Or, a, b) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = bin_eval(op, w, x, y); return self.cst(v, rw); }
        let comm = matches!(op, Add | Mul | And | Or | Xor | Eq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { let n = self.nodes[a as usize]; if n.op == Add { if let Some(x) = self.is_const(n.b) { let k = self.cst(x.wrapping_add(y), w); return self.bin(Add, n.a, k); } } }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(y) = cb { let k = self.cst(y.wrapping_neg(), w); return self.bin(Add, a, k); }
            }
            Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; } }
            And => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    let n = self.nodes[a as usize];
                    match n.op {
                        And => if let Some(x) = self.is_const(n.b) { let k = self.cst(x & y, w); return self.bin(And, n.a, k); },
                        ZExt => { let iw = self.w(n.a); let k = self.cst(y, iw); let r = self.bin(And, n.a, k); return self.zext(r, w); }
                        Concat => {
                            let bw = self.w(n.b);
                            let kh = self.cst(y >> bw, w - bw); let kl = self.cst(y, bw);
                            let h = self.bin(And, n.a, kh); let l = self.bin(And, n.b, kl);
                            return self.concat(h, l);
                        }
                        _ => {}
                    }
                    // contiguous low mask
                    if (y + 1).is_power_of_two() { let lw = (y + 1).trailing_zeros() as u8; let x = self.extract(a, 0, lw); return self.zext(x, w); }
                }
                if w == 1 { let na = self.not(a); if na == b { return self.cst(0, 1); } }
            }
            Or => {
                if a == b || cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Concat {
                        let bw = self.w(n.b);
                        let kh = self.cst(y >> bw, w - bw); let kl = self.cst(y, bw);
                        let h = self.bin(Or, n.a, kh); let l = self.bin(Or, n.b, kl);
                        return self.concat(h, l);
                    }
                }
                if w > 1 { if let Some(r) = self.or_parts(a, b, w) { return r; } }
                if w == 1 { let na = self.not(a); if na == b { return self.cst(1, 1); } }
            }
            Xor => {
                if a == b { return self.cst(0, w); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Xor { if let Some(x) = self.is_const(n.b) { let k = self.cst(x ^ y, w); return self.bin(Xor, n.a, k); } }
                    if n.op == Concat {
                        let bw = self.w(n.b);
                        let kh = self.cst(y >> bw, w - bw); let kl = self.cst(y, bw);
                        let h = self.bin(Xor, n.a, kh); let l = self.bin(Xor, n.b, kl);
                        return self.concat(h, l);
                    }
                }
            }
            Shl | LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u64 { return self.cst(0, w); }
                    let y = y as u8;
                    if op == LShr { let x = self.extract(a, y, w - y); return self.zext(x, w); }
                    let x = self.extract(a, 0, w - y); let z = self.cst(0, y); return self.concat(x, z);
                }
            }
            AShr => if cb == Some(0) { return a; },
            UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u64, w); return self.bin(LShr, a, k); } } }
            URem => if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y - 1, w); return self.bin(And, a, k); } },
            Eq => {
                if a == b { return self.cst(1, 1); }
                let n = self.nodes[a as usize];
                let n2 = self.nodes[b as usize];
                if n.op == Concat && n2.op == Concat && self.w(n.b) == self.w(n2.b) {
                    let h = self.bin(Eq, n.a, n2.a); let l = self.bin(Eq, n.b, n2.b); return self.bin(And, h, l);
                }
                if n.op == ZExt && n2.op == ZExt && self.w(n.a) == self.w(n2.a) { return self.bin(Eq, n.a, n2.a); }
                if let Some(y) = cb {
                    if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                    match n.op {
                        ZExt => { let iw = self.w(n.a); if y >> iw != 0 { return self.cst(0, 1); } let k = self.cst(y, iw); return self.bin(Eq, n.a, k); }
                        Concat => {
                            let bw = self.w(n.b);
                            let kh = self.cst(y >> bw, w - bw); let kl = self.cst(y, bw);
                            let h = self.bin(Eq, n.a, kh);
                            if self.is_const(h) == Some(0) { return h; }
                            let l = self.bin(Eq, n.b, kl);
                            return self.bin(And, h, l);
                        }
                        Ite => {
                            let (x1, x2) = (self.is_const(n.b), self.is_const(n.c));
                            if x1.is_some() || x2.is_some() {
                                let t = self.bin(Eq, n.b, b); let f = self.bin(Eq, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                        }
                        Add => if let Some(x) = self.is_const(n.b) { let k = self.cst(y.wrapping_sub(x), w); return self.bin(Eq, n.a, k); },
                        Xor => if let Some(x) = self.is_const(n.b) { let k = self.cst(y ^ x, w); return self.bin(Eq, n.a, k); },
                        _ => {}
                    }
                }
            }
            Ult => {
                if a == b { return self.cst(0, 1); }
                if cb == Some(0) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Eq, a, z); }
                if ca == Some(m) { return self.cst(0, 1); }
                if ca == Some(0) { let e = self.bin(Eq, b, a); return self.not(e); }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == ZExt { let iw = self.w(n.a); if y > mask(iw) { return self.cst(1, 1); } let k = self.cst(y, iw); return self.bin(Ult, n.a, k); }
                    if n.op == Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
                        let t = self.bin(Ult, n.b, b); let f = self.bin(Ult, n.c, b); return self.ite(n.a, t, f);
                    }
                }
                if let Some(x) = ca {
                    let n = self.nodes[b as usize];
                    if n.op == ZExt { let iw = self.w(n.a); if x >= mask(iw) { return self.cst(0, 1); } let k = self.cst(x, iw); return self.bin(Ult, k, n.a); }
                    if n.op == Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
                        let t = self.bin(Ult, a, n.b); let f = self.bin(Ult, a, n.c); return self.ite(n.a, t, f);
                    }
                }
            }
            Slt => {
                if a == b { return self.cst(0, 1); }
                let n = self.nodes[a as usize]; let n2 = self.nodes[b as usize];
                // both non-negative: unsigned compare
                let nonneg = |s: &Self, n: &Node| (n.op == ZExt && n.w > s.w(n.a)) || (n.op == Const && sext(n.k, n.w) as i64 >= 0);
                if nonneg(self, &n) && nonneg(self, &n2) { return self.bin(Ult, a, b); }
            }
            _ => {}
        }
        // push a binary operation with a constant into an ite over constants
        if matches!(op, Add | And | Or | Xor | Mul | Shl | LShr) && cb.is_some() {
            let n = self.nodes[a as usize];
            if n.op == Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                let t = self.bin(op, n.b, b); let f = self.bin(op, n.c, b); return self.ite(n.a, t, f);
            }
        }
        let r = self.intern(Node { op, w: rw, a, b, c: 0, k: 0 });
        r
    }
    /// or of values occupying disjoint bit ranges -> concat
    fn or_parts(&mut self, a: E, b: E, w: u8) -> Option<E> {
        // low part zero?
        let tz = |s: &Self, e: E| -> u8 { let n = s.nodes[e as usize]; if n.op == Concat { if let Some(0) = s.is_const(n.b) { return s.w(n.b); } } 0 };
        let hz = |s: &Self, e: E| -> u8 { // highest possibly set bit + 1
            let n = s.nodes[e as usize];
            match n.op { ZExt => s.w(n.a), Const => 64 - n.k.leading_zeros() as u8, Concat => { let x = s.nodes[n.a as usize]; match x.op { Const if x.k == 0 => s.w(n.b), ZExt => s.w(x.a) + s.w(n.b), _ => n.w } } _ => n.w }
        };
        for (x, y) in [(a, b), (b, a)] {
            let t = tz(self, x);
            if t > 0 && hz(self, y) <= t {
                let h = self.extract(x, t, w - t); let l = self.extract(y, 0, t);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        match self.is_const(c) { Some(1) => return a, Some(_) => return b, None => {} }
        if a == b { return a; }
        let w = self.w(a);
        let n = self.nodes[c as usize];
        if n.op == Xor && self.is_const(n.b) == Some(1) { return self.ite(n.a, b, a); }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(And, nc, b); }
                (None, Some(0)) => return self.bin(And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Or, nc, a); }
                _ => {}
            }
        }
        self.intern(Node { op: Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.is_const(a) { return self.cst(k, w); }
        let n = self.nodes[a as usize];
        if n.op == ZExt { return self.zext(n.a, w); }
        if n.op == Concat && self.is_const(n.a) == Some(0) { return self.zext(n.b, w); }
        if n.op == Ite { if let (Some(x), Some(y)) = (self.is_const(n.b), self.is_const(n.c)) { let x = self.cst(x, w); let y = self.cst(y, w); return self.ite(n.a, x, y); } }
        self.intern(Node { op: ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.is_const(a) { return self.cst(sext(k, aw), w); }
        let n = self.nodes[a as usize];
        if n.op == ZExt { return self.zext(n.a, w); }
        if n.op == SExt { return self.sext(n.a, w); }
        if aw == 1 { let x = self.cst(!0, w); let y = self.cst(0, w); return self.ite(a, x, y); }
        self.intern(Node { op: SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(k) = self.is_const(a) { return self.cst(k >> lo, w); }
        let n = self.nodes[a as usize];
        match n.op {
            Extract => return self.extract(n.a, n.k as u8 + lo, w),
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo); return self.zext(x, w);
            }
            SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, bw - lo); let h = self.extract(n.a, 0, lo + w - bw); return self.concat(h, l);
            }
            And | Or | Xor if self.is_const(n.b).is_some() => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            Add | Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            Ite if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() => { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); }
            Lookup => { let t: Vec<u64> = self.lut[n.k as usize].iter().map(|v| (v >> lo) & mask(w)).collect(); let id = self.lut_id(t); return self.lookup(n.a, id, w); }
            _ => {}
        }
        self.intern(Node { op: Extract, w, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        debug_assert!(w <= 64);
        if let (Some(a), Some(b)) = (self.is_const(h), self.is_const(l)) { return self.cst((a << lw) | b, w); }
        if self.is_const(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.k == nl.k + lw as u64 { return self.extract(nh.a, nl.k as u8, w); }
        if nh.op == Extract && nh.a == l && nh.k == lw as u64 { return self.extract(l, 0, w); }
        // keep concats right-nested on the high side: concat(h, concat(x,y)) with h,x mergeable
        if nl.op == Concat {
            let x = self.nodes[nl.a as usize];
            if nh.op == Extract && x.op == Extract && nh.a == x.a && nh.k == x.k + self.w(nl.a) as u64 {
                let m = self.extract(nh.a, x.k as u8, hw + self.w(nl.a)); return self.concat(m, nl.b);
            }
        }
        if nh.op == ZExt { // zext(x)++l = zext(x++l)
            let r = self.concat(nh.a, l); return self.zext(r, w);
        }
        self.intern(Node { op: Concat, w, a: h, b: l, c: 0, k: 0 })
    }

    /// Evaluate under an assignment of variables.
    /// unsigned bounds of e when every byte variable lies in its domain (sound, not exact)
    pub fn bounds(&mut self, e: E, dom: &[Set]) -> (u64, u64) {
        self.bmemo.clear();
        self.bd(e, dom, 0)
    }
    fn bd(&mut self, e: E, dom: &[Set], depth: u32) -> (u64, u64) {
        let n = self.nodes[e as usize];
        let m = mask(n.w);
        if n.op == Const { return (n.k & m, n.k & m); }
        if depth > 200 { return (0, m); }
        let vs = self.vars[e as usize];
        if vs.count_ones() == 1 && (vs.trailing_zeros() as usize) < dom.len() {
            let v = vs.trailing_zeros() as usize;
            let d = dom[v];
            let t = self.table(e);
            let (mut lo, mut hi) = (u64::MAX, 0);
            for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { let x = t[i] & m; lo = lo.min(x); hi = hi.max(x); } }
            return if lo > hi { (0, m) } else { (lo, hi) };
        }
        if let Some(r) = self.bmemo.get(&e) { return *r; }
        let full = (0, m);
        let d = depth + 1;
        let r = match n.op {
            ZExt => self.bd(n.a, dom, d),
            Add => { let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => full } }
            Sub => { let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Mul => { let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full } }
            UDiv => { let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            URem => { let b = self.bd(n.b, dom, d); if b.0 > 0 { (0, b.1 - 1) } else { full } }
            And => { let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); (0, a.1.min(b.1)) }
            Or | Xor => {
                let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d));
                let bits = 64 - (a.1 | b.1).leading_zeros();
                (if n.op == Or { a.0.max(b.0) } else { 0 }, if bits >= 64 { m } else { ((1u64 << bits) - 1) & m })
            }
            LShr => { let a = self.bd(n.a, dom, d); match self.is_const(n.b) { Some(k) if k < 64 => (a.0 >> k, a.1 >> k), _ => (0, a.1) } }
            Shl => { let a = self.bd(n.a, dom, d); match self.is_const(n.b) { Some(k) if k < 64 && a.1 <= m >> k => (a.0 << k, a.1 << k), _ => full } }
            Ite => { let (a, b) = (self.bd(n.b, dom, d), self.bd(n.c, dom, d)); (a.0.min(b.0), a.1.max(b.1)) }
            Concat => { let wb = self.w(n.b); let (a, b) = (self.bd(n.a, dom, d), self.bd(n.b, dom, d)); if wb >= 64 { full } else { (a.0 << wb | b.0, a.1 << wb | b.1) } }
            Extract if n.k == 0 => { let a = self.bd(n.a, dom, d); if a.1 <= m { a } else { full } }
            _ => full,
        };
        self.bmemo.insert(e, r);
        r
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.gen = self.gen.wrapping_add(1);
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len() + 1024, (0, 0)); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u64 {
        let n = self.nodes[e as usize];
        match n.op { Const => return n.k, Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w), _ => {} }
        if n.w == 1 { if let Some(s) = self.sets.get(&e) { let v = self.vars[e as usize].trailing_zeros() as usize; return set_has(s, model.get(v).copied().unwrap_or(0) as u8) as u64; } }
        if self.memo[e as usize].0 == self.gen { return self.memo[e as usize].1; }
        let r = match n.op {
            Ite => if self.ev(n.a, model) != 0 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            ZExt => self.ev(n.a, model),
            SExt => { let aw = self.w(n.a); sext(self.ev(n.a, model), aw) & mask(n.w) }
            Extract => (self.ev(n.a, model) >> n.k) & mask(n.w),
            Concat => { let bw = self.w(n.b); (self.ev(n.a, model) << bw) | self.ev(n.b, model) }
            Lookup => { let i = self.ev(n.a, model); self.lut[n.k as usize].get(i as usize).copied().unwrap_or(0) }
            _ => { let w = if matches!(n.op, Eq | Ult | Slt) { self.w(n.a) } else { n.w }; let a = self.ev(n.a, model); let b = self.ev(n.b, model); bin_eval(n.op, w, a, b) }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.nodes[e as usize];
        if d == 0 { return "..".into(); }
        match n.op {
            Const => format!("{:#x}:{}", n.k, n.w),
            Var => format!("v{}", n.k),
            Ite => format!("ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            ZExt | SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Extract => format!("{}[{}+:{}]", self.show(n.a, d - 1), n.k, n.w),
            Lookup => format!("lut{}[{}]", n.k, self.show(n.a, d - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
