//! Path-exploring symbolic executor over the lowered IR.
use crate::expr::*;
use crate::llvm::*;
use crate::mem::*;
use crate::z3::Z3;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, Default)]
pub struct V { pub c: u64, pub e: E }
pub fn cv(c: u64) -> V { V { c, e: 0 } }

#[derive(Clone)]
pub struct Frame { pub f: u32, pub pc: u32, pub base: u32, pub obj: u32, pub dst: u32, pub nd: u32 }

pub const MAXBYTE: u32 = 96;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    pub mem: Mem,
    pub dom: Vec<Set>,
    pub nwide: u32,
    pub wides: Vec<(E, E, bool, u32)>,
    pub complex: Vec<(E, bool)>,
    pub ent: VS,
    pub model: Vec<u64>,
    pub steps: u64,
    pub forks: u32,
    pub panic_ok: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    None, Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Memcmp, Memcpy, Memset, Strlen, Panic, Abort, Nop0, Unsup,
    VfByte, VfRange, VfChoice, VfAssume, VfFail, VfReach, VfAssert, VfNote, NumToF64, Getrandom, VfConc, VfUf, VfDone, VfPanicOk, Uni(u8),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub instrs: u64, pub forks: u64, pub br_sym: u64, pub dom_queries: u64, pub model_hits: u64,
    pub z3_queries: u64, pub z3_sat: u64, pub z3_unsat: u64, pub z3_us: u64, pub cache_hits: u64, pub asserts: u64, pub concs: u64,
    pub assumed: u64, pub cert: u64, pub xchecks: u64, pub maxsteps: u64, pub opaque: u64, pub err: u64, pub infeasible: u64,
}

pub struct Violation { pub kind: String, pub code: u64, pub inputs: Vec<u64>, pub wheres: String }

pub enum End { Done, Fork, Violation(Violation), Assumed, Error(String) }
type R<T> = Result<T, End>;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub hooks: Vec<Hook>,
    pub ar: Arena,
    pub z3: Option<Z3>,
    pub z3_timeout: u32,
    pub st: State,
    pub stack: Vec<State>,
    pub stats: Stats,
    pub gredir: Vec<u32>,
    pub gobj: Vec<Option<Obj>>,
    pub visited: Vec<Vec<bool>>,
    pub reach: HashMap<u64, u64>,
    pub reach_path: Vec<u64>,
    pub notes: Vec<String>,
    cache: HashMap<(u64, u64), Option<Vec<u64>>>,
    pub max_steps: u64,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub prof: bool,
    pub xcheck: u64,
    xc: u64,
    lutcache: HashMap<(u64, u8), u32>,
    pub witnesses: Vec<Vec<u64>>,
    pub trace: bool,
    pub opaque_num: bool,
}

fn hook_of(name: &str, decl: bool) -> Hook {
    match name {
        "malloc" => Hook::Malloc, "calloc" => Hook::Calloc, "realloc" => Hook::Realloc, "free" => Hook::Free, "posix_memalign" => Hook::Memalign,
        "bcmp" => Hook::Bcmp, "memcmp" => Hook::Memcmp, "memcpy" | "memmove" => Hook::Memcpy, "memset" => Hook::Memset, "strlen" => Hook::Strlen,
        "abort" => Hook::Abort, "getrandom" => Hook::Getrandom,
        "vf_byte" => Hook::VfByte, "vf_range" => Hook::VfRange, "vf_choice" => Hook::VfChoice, "vf_assume" => Hook::VfAssume, "vf_fail" => Hook::VfFail,
        "vf_reach" => Hook::VfReach, "vf_assert" => Hook::VfAssert, "vf_note" => Hook::VfNote, "vf_num_to_f64" => Hook::NumToF64, "vf_conc" => Hook::VfConc,
        "__cxa_thread_atexit_impl" | "vf_direct" => Hook::Nop0, "vf_done" => Hook::VfDone, "vf_expect_panic" => Hook::VfPanicOk,
        _ => {
            if name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("alloc18handle_alloc_error") { Hook::Panic }
            else if decl { Hook::Unsup }
            else if name.contains("12unicode_data") && name.contains("6lookup") || name.contains("11lookup_slow") {
                ["10alphabetic", "1n", "9lowercase", "9uppercase"].iter().position(|t| name.contains(&format!("unicode_data{t}"))).map_or(Hook::None, |k| Hook::Uni(k as u8))
            } else { Hook::None }
        }
    }
}

/// The characters of one of the standard library's Unicode tables, as ranges. The engine is built by the toolchain that
/// compiles the code under test, so its own `char` methods read the same tables.
fn uni_ranges(k: u8) -> &'static [(u32, u32)] {
    static T: [std::sync::OnceLock<Vec<(u32, u32)>>; 4] = [const { std::sync::OnceLock::new() }; 4];
    T[k as usize].get_or_init(|| {
        let f: fn(char) -> bool = [char::is_alphabetic, char::is_numeric, char::is_lowercase, char::is_uppercase][k as usize];
        let mut v: Vec<(u32, u32)> = vec![];
        for c in ('\u{80}'..=char::MAX).filter(|c| f(*c)) {
            let c = c as u32;
            match v.last_mut() { Some(l) if l.1 + 1 == c => l.1 = c, _ => v.push((c, c)) }
        }
        v
    })
}

pub fn demangle_short(n: &str) -> String {
    // v0 names: collect identifier pieces
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let mut s = j;
                if s < b.len() && b[s] == b'_' { s += 1; }
                if l > 0 && s + l <= b.len() && n.is_char_boundary(s + l) && n[s..s + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !b[s].is_ascii_digit() { out.push(n[s..s + l].to_string()); i = s + l; continue; }
            }
            i = j;
        } else { i += 1; }
    }
    out.join("::")
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, entry: u32) -> Self {
        let hooks = m.funcs.iter().map(|f| hook_of(&f.name, f.decl)).collect();
        let mut mem = Mem::new();
        let mut gredir = vec![];
        let mut gobj = vec![];
        for g in &m.globals {
            if g.constant { gredir.push(0); gobj.push(Some(Obj { data: g.data.clone(), sym: None })); }
            else { gredir.push(mem.alloc(Obj { data: g.data.clone(), sym: None })); gobj.push(None); }
        }
        let st = State { frames: vec![], regs: vec![], mem, dom: vec![], nwide: 0, wides: vec![], complex: vec![], ent: 0, model: vec![0; 128], steps: 0, forks: 0, panic_ok: false };
        let mut ar = Arena::new();
        ar.varw = vec![8; 128];
        for i in MAXBYTE..128 { ar.varw[i as usize] = 64; }
        let mut x = Exec {
            m, hooks, ar, z3: None, z3_timeout: 20000, st, stack: vec![], stats: Stats::default(), gredir, gobj,
            visited: m.funcs.iter().map(|f| vec![false; f.code.len()]).collect(), reach: HashMap::new(), reach_path: vec![], notes: vec![], cache: HashMap::new(),
            max_steps: 200_000_000, forkprof: HashMap::new(), prof: false, xcheck: 0, xc: 0, lutcache: HashMap::new(), witnesses: vec![], trace: false, opaque_num: true,
        };
        x.push_frame(entry, &[], 0, 0);
        x
    }

    fn push_frame(&mut self, f: u32, args: &[V], dst: u32, nd: u32) {
        let fu = &self.m.funcs[f as usize];
        let base = self.st.regs.len() as u32;
        self.st.regs.extend_from_slice(&args[..fu.nargs as usize]);
        self.st.regs.resize((base + fu.nregs) as usize, V::default());
        let obj = if fu.frame > 0 { self.st.mem.alloc(Obj::new(fu.frame as usize)) } else { 0 };
        self.st.frames.push(Frame { f, pc: 0, base, obj, dst, nd });
        if !fu.code.is_empty() { self.visited[f as usize][0] = true; }
    }

    // ---------- solver ----------
    fn split_add(&mut self, e: E, pol: bool) {
        if self.ar.is_const(e).is_some() { return; }
        let n = self.ar.nodes[e as usize];
        let vs = self.ar.vars[e as usize];
        if vs.count_ones() == 1 && vs.trailing_zeros() < MAXBYTE {
            let v = vs.trailing_zeros() as usize;
            let s = if n.op == Op::Var { unreachable!() } else { self.ar.set_of(e) };
            let s = if pol { s } else { set_not(&s) };
            self.st.dom[v] = set_and(&self.st.dom[v], &s);
            return;
        }
        match n.op {
            Op::And if pol => { self.split_add(n.a, true); self.split_add(n.b, true); return; }
            Op::Or if !pol => { self.split_add(n.a, false); self.split_add(n.b, false); return; }
            Op::Xor if self.ar.is_const(n.b) == Some(1) => { self.split_add(n.a, !pol); return; }
            _ => {}
        }
        // disjunction in which all but one arm is impossible under the domains
        if (n.op == Op::And && !pol) || (n.op == Op::Or && pol) {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if self.dom_impossible(x, pol) { self.split_add(y, pol); return; }
            }
        }
        self.st.complex.push((e, pol));
        self.st.ent |= vs;
    }
    /// true when `e == pol` is impossible by the single-variable domains alone
    fn dom_impossible(&mut self, e: E, pol: bool) -> bool {
        if let Some(k) = self.ar.is_const(e) { return (k != 0) != pol; }
        let vs = self.ar.vars[e as usize];
        if vs.count_ones() == 1 && vs.trailing_zeros() < MAXBYTE {
            let v = vs.trailing_zeros() as usize;
            let s = self.ar.set_of(e);
            let s = if pol { s } else { set_not(&s) };
            return set_empty(&set_and(&s, &self.st.dom[v]));
        }
        let n = self.ar.nodes[e as usize];
        match n.op {
            Op::And if pol => self.dom_impossible(n.a, true) || self.dom_impossible(n.b, true),
            Op::And => self.dom_impossible(n.a, false) && self.dom_impossible(n.b, false),
            Op::Or if pol => self.dom_impossible(n.a, true) && self.dom_impossible(n.b, true),
            Op::Or => self.dom_impossible(n.a, false) || self.dom_impossible(n.b, false),
            Op::Xor if self.ar.is_const(n.b) == Some(1) => self.dom_impossible(n.a, !pol),
            Op::Eq | Op::Ult | Op::Slt => {
                let nb = (self.st.dom.len()).min(MAXBYTE as usize);
                let a = self.ar.bounds(n.a, &self.st.dom[..nb]);
                let b = self.ar.bounds(n.b, &self.st.dom[..nb]);
                let top = 1u64 << (self.ar.w(n.a) - 1);
                if n.op == Op::Slt && (a.1 >= top || b.1 >= top) { return false; }
                match (n.op, pol) {
                    (Op::Eq, true) => a.1 < b.0 || b.1 < a.0,
                    (Op::Eq, false) => a.0 == a.1 && b.0 == b.1 && a.0 == b.0,
                    (_, true) => a.0 >= b.1,
                    (_, false) => a.1 < b.0,
                }
            }
            _ => false,
        }
    }

    fn add(&mut self, e: E, pol: bool) { self.split_add(e, pol); }

    /// model for PC /\ e == pol, or None when that is infeasible
    fn model_for(&mut self, e: E, pol: bool) -> R<Option<Vec<u64>>> {
        if self.dom_impossible(e, pol) {
            self.stats.dom_queries += 1;
            if self.xcheck > 0 { self.xc += 1; if self.xc % self.xcheck == 0 { self.stats.xchecks += 1; if self.z3_query(e, pol)?.is_some() { return Err(End::Error("domain solver disagrees with Z3".into())); } } }
            return Ok(None);
        }
        let vs = self.ar.vars[e as usize];
        if vs.count_ones() == 1 && vs.trailing_zeros() < MAXBYTE {
            let v = vs.trailing_zeros() as usize;
            let s = self.ar.set_of(e);
            let s = if pol { s } else { set_not(&s) };
            let t = set_and(&s, &self.st.dom[v]);
            let mut m = self.st.model.clone();
            if self.st.ent >> v & 1 == 0 { self.stats.dom_queries += 1; m[v] = set_first(&t) as u64; return Ok(Some(m)); }
            // entangled: try every value against the multi-variable constraints
            let cons: Vec<(E, bool)> = self.st.complex.iter().copied().filter(|&(c, _)| self.ar.vars[c as usize] >> v & 1 == 1).collect();
            for x in set_iter(&t) {
                m[v] = x as u64;
                if cons.iter().all(|&(c, p)| (self.ar.eval(c, &m) != 0) == p) { self.stats.model_hits += 1; return Ok(Some(m)); }
            }
        }
        self.z3_query(e, pol)
    }

    fn z3_query(&mut self, e: E, pol: bool) -> R<Option<Vec<u64>>> {
        // connected component
        let mut vs = self.ar.vars[e as usize];
        let mut conj = vec![(e, pol)];
        let mut rest: Vec<(E, bool)> = self.st.complex.clone();
        loop {
            let before = conj.len();
            rest.retain(|&(c, p)| { let x = self.ar.vars[c as usize]; if x & vs != 0 { vs |= x; conj.push((c, p)); false } else { true } });
            if conj.len() == before { break; }
        }
        conj[1..].sort(); conj.dedup();
        let mut doms = vec![]; let mut want = vec![];
        for v in 0..128u32 {
            if vs >> v & 1 == 1 {
                if v < MAXBYTE { doms.push((v, 8u8, self.st.dom[v as usize])); want.push((v, 8)); } else { want.push((v, 64)); }
            }
        }
        let mut h = [0x12345u64, 0x9e3779b97f4a7c15];
        let mut mix = |x: u64| { for (i, k) in [0x517cc1b727220a95u64, 0xff51afd7ed558ccd].iter().enumerate() { h[i] = (h[i].rotate_left(7 + i as u32 * 6) ^ x).wrapping_mul(*k); } };
        for &(c, p) in &conj { mix((c as u64) << 1 | p as u64); }
        for (v, _, d) in &doms { mix(*v as u64); for x in d { mix(*x); } }
        let key = (h[0], h[1]);
        let r = if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; r.clone() } else {
            if self.z3.is_none() { self.z3 = Some(Z3::new(self.z3_timeout)); }
            let t = std::time::Instant::now();
            let r = self.z3.as_mut().unwrap().check(&self.ar, &conj, &doms, &want);
            self.stats.z3_us += t.elapsed().as_micros() as u64;
            self.stats.z3_queries += 1;
            let r = match r { Ok(r) => r, Err(x) => return Err(End::Error(format!("solver: {x}"))) };
            if r.is_some() { self.stats.z3_sat += 1 } else { self.stats.z3_unsat += 1 }
            if self.cache.len() > 200_000 { self.cache.clear(); }
            self.cache.insert(key, r.clone());
            r
        };
        Ok(r.map(|vals| { let mut m = self.st.model.clone(); for ((v, _), x) in want.iter().zip(vals) { m[*v as usize] = x; } m }))
    }

    /// Is e (1 bit) necessarily true/false? Returns (can_true model, can_false model)
    fn fork_on(&mut self, e: E) -> R<bool> {
        if let Some(k) = self.ar.is_const(e) { return Ok(k != 0); }
        self.stats.br_sym += 1;
        let m = self.ar.eval(e, &self.st.model) != 0;
        match self.model_for(e, !m)? {
            None => { self.stats.infeasible += 1; Ok(m) }
            Some(model) => {
                if self.prof { let f = self.st.frames.last().unwrap(); *self.forkprof.entry((f.f, f.pc)).or_insert(0) += 1; }
                let mut alt = self.st.clone();
                alt.model = model;
                alt.forks += 1;
                std::mem::swap(&mut alt, &mut self.st);
                self.add(e, !m);
                std::mem::swap(&mut alt, &mut self.st);
                self.stack.push(alt);
                self.stats.forks += 1;
                self.add(e, m);
                self.st.forks += 1;
                Ok(m)
            }
        }
    }
    /// Fix a symbolic value to one concrete value in this state; other values go to forked states.
    fn conc(&mut self, v: V) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        self.stats.concs += 1;
        let x = self.ar.eval(v.e, &self.st.model);
        let w = self.ar.w(v.e);
        let k = self.ar.cst(x, w);
        let eq = self.ar.bin(Op::Eq, v.e, k);
        if !self.fork_on(eq)? { unreachable!("model"); }
        Ok(x)
    }
    fn se(&mut self, v: V, w: u8) -> E { if v.e != 0 { v.e } else { self.ar.cst(v.c, w) } }
    fn ve(&self, e: E) -> V { match self.ar.is_const(e) { Some(k) => cv(k), None => V { c: 0, e } } }

    // ---------- memory ----------
    fn viol(&self, kind: &str, code: u64) -> End {
        let n = self.st.dom.len();
        let mut w = String::new();
        for f in self.st.frames.iter().rev().take(12) {
            let fu = &self.m.funcs[f.f as usize];
            let l = fu.lines.get(f.pc as usize).copied().unwrap_or(0);
            w += &demangle_short(&fu.name);
            if l != 0 { let (p, n) = &self.m.lines[l as usize]; w += &format!("@{}:{}", p, n); }
            w += " < ";
        }
        End::Violation(Violation { kind: kind.into(), code, inputs: self.st.model[..n].to_vec(), wheres: w })
    }
    #[inline]
    fn obj(&self, addr: u64) -> Option<&Obj> {
        if addr & GLOB_BASE != 0 {
            let g = ((addr & !GLOB_BASE) >> 32) as usize;
            if let Some(Some(o)) = self.gobj.get(g) { return Some(o); }
            return self.st.mem.get(*self.gredir.get(g)?);
        }
        self.st.mem.get((addr >> 32) as u32)
    }
    fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        if addr & GLOB_BASE != 0 {
            let g = ((addr & !GLOB_BASE) >> 32) as usize;
            let r = *self.gredir.get(g)?;
            if r == 0 { return None; }
            return self.st.mem.get_mut(r);
        }
        self.st.mem.get_mut((addr >> 32) as u32)
    }
    #[inline]
    fn load(&mut self, addr: u64, w: u8) -> R<V> {
        let n = (w as usize).div_ceil(8);
        let off = addr as u32 as usize;
        let Some(o) = self.obj(addr) else { return Err(self.viol("bad-load", addr)) };
        if off + n > o.data.len() { return Err(self.viol("oob-load", addr)); }
        if !o.range_sym(off, n) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(cv(u64::from_le_bytes(b) & mask(w)));
        }
        let mut parts = [(0u8, 0u32); 8];
        { let s = o.sym.as_ref().unwrap(); for i in 0..n { parts[i] = (o.data[off + i], s[off + i]); } }
        let mut acc: Option<E> = None;
        for i in (0..n).rev() {
            let (d, mut e) = parts[i];
            if e == 0 { e = self.ar.cst(d as u64, 8); }
            else if self.ar.nodes[e as usize].op == Op::Var {
                let v = self.ar.nodes[e as usize].k as usize;
                if v < MAXBYTE as usize && set_count(&self.st.dom[v]) == 1 { e = self.ar.cst(set_first(&self.st.dom[v]) as u64, 8); }
            }
            acc = Some(match acc { None => e, Some(h) => self.ar.concat(h, e) });
        }
        let mut e = acc.unwrap();
        if (w as usize) < n * 8 { e = self.ar.extract(e, 0, w); }
        Ok(self.ve(e))
    }
    #[inline]
    fn store(&mut self, addr: u64, w: u8, v: V) -> R<()> {
        let n = (w as usize).div_ceil(8);
        let off = addr as u32 as usize;
        let mut es = [0u32; 8];
        if v.e != 0 {
            let e = if (w as usize) < n * 8 { self.ar.zext(v.e, n as u8 * 8) } else { v.e };
            for (i, s) in es.iter_mut().enumerate().take(n) { *s = self.ar.extract(e, i as u8 * 8, 8); }
        }
        let mut db = v.c.to_le_bytes();
        if v.e != 0 { for i in 0..n { if let Some(k) = self.ar.is_const(es[i]) { db[i] = k as u8; es[i] = 0; } else { db[i] = 0; } } }
        let Some(o) = self.obj_mut(addr) else { return Err(self.viol("bad-store", addr)) };
        if off + n > o.data.len() { return Err(self.viol("oob-store", addr)); }
        o.data[off..off + n].copy_from_slice(&db[..n]);
        if v.e != 0 {
            let l = o.data.len();
            let s = o.sym.get_or_insert_with(|| vec![0; l].into_boxed_slice());
            s[off..off + n].copy_from_slice(&es[..n]);
        } else if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = s as u32 as usize;
        let (data, sym) = {
            let Some(o) = self.obj(s) else { return Err(self.viol("bad-copy-src", s)) };
            if so + n > o.data.len() { return Err(self.viol("oob-copy-src", s)); }
            (o.data[so..so + n].to_vec(), if o.range_sym(so, n) { Some(o.sym.as_ref().unwrap()[so..so + n].to_vec()) } else { None })
        };
        let doff = d as u32 as usize;
        let Some(o) = self.obj_mut(d) else { return Err(self.viol("bad-copy-dst", d)) };
        if doff + n > o.data.len() { return Err(self.viol("oob-copy-dst", d)); }
        o.data[doff..doff + n].copy_from_slice(&data);
        match sym {
            Some(sy) => { let l = o.data.len(); o.sym.get_or_insert_with(|| vec![0; l].into_boxed_slice())[doff..doff + n].copy_from_slice(&sy); }
            None => if let Some(x) = &mut o.sym { x[doff..doff + n].fill(0); },
        }
        Ok(())
    }
    fn alloc(&mut self, n: u64) -> R<u64> {
        if n > 1 << 31 { return Err(End::Error(format!("allocation of {n} bytes"))); }
        Ok((self.st.mem.alloc(Obj::new(n as usize)) as u64) << 32)
    }
    fn load_sym(&mut self, p: E, w: u8) -> R<V> {
        let a = self.ar.eval(p, &self.st.model);
        let n = (w as usize).div_ceil(8);
        let base = a & !0xffff_ffff;
        let info = self.obj(a).map(|o| (o.data.len(), o.sym.as_ref().is_some_and(|s| s.iter().any(|&e| e != 0))));
        let Some((len, sym)) = info else { let a = self.conc(V { c: 0, e: p })?; return self.load(a, w); };
        if sym || len > 70000 || len < n || a as u32 as usize + n > len { let a = self.conc(V { c: 0, e: p })?; return self.load(a, w); }
        let kb = self.ar.cst(base, 64);
        let off = self.ar.bin(Op::Sub, p, kb);
        let lim = self.ar.cst((len - n + 1) as u64, 64);
        let inb = self.ar.bin(Op::Ult, off, lim);
        if !self.fork_on(inb)? { unreachable!() }
        let isg = base & GLOB_BASE != 0 && matches!(self.gobj.get(((base & !GLOB_BASE) >> 32) as usize), Some(Some(_)));
        let key = (base, w);
        let t = if let (true, Some(&t)) = (isg, self.lutcache.get(&key)) { t } else {
            let o = self.obj(a).unwrap();
            let t: Vec<u64> = (0..len - n + 1).map(|i| { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[i..i + n]); u64::from_le_bytes(b) & mask(w) }).collect();
            let t = self.ar.lut_id(t);
            if isg { self.lutcache.insert(key, t); }
            t
        };
        // single-byte index: narrow the table to the reachable offsets
        let e = self.ar.lookup(off, t, w);
        Ok(self.ve(e))
    }

    // ---------- run ----------
    #[inline]
    fn rd(&self, base: u32, o: &O) -> V { if o.r == NONE { V { c: o.c, e: 0 } } else { self.st.regs[(base + o.r) as usize] } }

    fn take(&mut self, f: u32, base: u32, e: &Edge) {
        if e.par {
            let vals: Vec<V> = e.moves.iter().map(|m| self.rd(base, &m.1)).collect();
            for (m, v) in e.moves.iter().zip(vals) { self.st.regs[(base + m.0) as usize] = v; }
        } else {
            for m in e.moves.iter() { let v = self.rd(base, &m.1); self.st.regs[(base + m.0) as usize] = v; }
        }
        self.visited[f as usize][e.pc as usize] = true;
        self.st.frames.last_mut().unwrap().pc = e.pc;
    }

    fn icmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        if a.e | b.e == 0 {
            let (x, y) = (a.c, b.c);
            let (sx, sy) = (sext(x, w) as i64, sext(y, w) as i64);
            return cv(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64);
        }
        let x = self.se(a, w); let y = self.se(b, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.bin(Op::Eq, x, y), Pred::Ne => { let e = ar.bin(Op::Eq, x, y); ar.not(e) }
            Pred::Ult => ar.bin(Op::Ult, x, y), Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => { let e = ar.bin(Op::Ult, x, y); ar.not(e) } Pred::Ule => { let e = ar.bin(Op::Ult, y, x); ar.not(e) }
            Pred::Slt => ar.bin(Op::Slt, x, y), Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => { let e = ar.bin(Op::Slt, x, y); ar.not(e) } Pred::Sle => { let e = ar.bin(Op::Slt, y, x); ar.not(e) }
        };
        self.ve(r)
    }

    fn bin(&mut self, op: B, w: u8, a: V, b: V) -> R<V> {
        if a.e | b.e == 0 {
            let (x, y) = (a.c, b.c);
            let m = mask(w);
            let s = |v: u64| sext(v, w) as i64;
            let (smin, smax) = (-(1i128 << (w.max(1) - 1)), (1i128 << (w.max(1) - 1)) - 1);
            let r = match op {
                B::Add => x.wrapping_add(y), B::Sub => x.wrapping_sub(y), B::Mul => x.wrapping_mul(y),
                B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => return Err(self.viol("div-by-zero", 0)),
                B::UDiv => x / y, B::URem => x % y, B::SDiv => s(x).wrapping_div(s(y)) as u64, B::SRem => s(x).wrapping_rem(s(y)) as u64,
                B::Shl => if y >= w as u64 { 0 } else { x << y }, B::LShr => if y >= w as u64 { 0 } else { x >> y },
                B::AShr => (s(x) >> y.min(63)) as u64,
                B::And => x & y, B::Or => x | y, B::Xor => x ^ y,
                B::UMin => x.min(y), B::UMax => x.max(y),
                B::SMin => if s(x) < s(y) { x } else { y }, B::SMax => if s(x) > s(y) { x } else { y },
                B::UAddSat => (x as u128 + y as u128).min(m as u128) as u64, B::USubSat => x.saturating_sub(y),
                B::SAddSat => (s(x) as i128 + s(y) as i128).clamp(smin, smax) as u64,
                B::SSubSat => (s(x) as i128 - s(y) as i128).clamp(smin, smax) as u64,
            };
            return Ok(cv(r & m));
        }
        let x = self.se(a, w); let y = self.se(b, w);
        let ar = &mut self.ar;
        let r = match op {
            B::Add => ar.bin(Op::Add, x, y), B::Sub => ar.bin(Op::Sub, x, y), B::Mul => ar.bin(Op::Mul, x, y),
            B::UDiv | B::URem | B::SDiv | B::SRem => {
                if b.e != 0 { let bb = self.conc(b)?; if bb == 0 { return Err(self.viol("div-by-zero", 0)); } return self.bin(op, w, a, cv(bb)); }
                if b.c == 0 { return Err(self.viol("div-by-zero", 0)); }
                let o = match op { B::UDiv => Op::UDiv, B::URem => Op::URem, B::SDiv => Op::SDiv, _ => Op::SRem };
                ar.bin(o, x, y)
            }
            B::Shl => ar.bin(Op::Shl, x, y), B::LShr => ar.bin(Op::LShr, x, y), B::AShr => ar.bin(Op::AShr, x, y),
            B::And => ar.bin(Op::And, x, y), B::Or => ar.bin(Op::Or, x, y), B::Xor => ar.bin(Op::Xor, x, y),
            B::UMin => { let c = ar.bin(Op::Ult, x, y); ar.ite(c, x, y) } B::UMax => { let c = ar.bin(Op::Ult, x, y); ar.ite(c, y, x) }
            B::SMin => { let c = ar.bin(Op::Slt, x, y); ar.ite(c, x, y) } B::SMax => { let c = ar.bin(Op::Slt, x, y); ar.ite(c, y, x) }
            B::UAddSat => { let s = ar.bin(Op::Add, x, y); let o = ar.bin(Op::Ult, s, x); let m = ar.cst(!0, w); ar.ite(o, m, s) }
            B::USubSat => { let s = ar.bin(Op::Sub, x, y); let o = ar.bin(Op::Ult, x, y); let m = ar.cst(0, w); ar.ite(o, m, s) }
            B::SAddSat | B::SSubSat => { let aa = self.conc(a)?; let bb = self.conc(b)?; return self.bin(op, w, cv(aa), cv(bb)); }
        };
        Ok(self.ve(r))
    }

    fn fcmp_sym(&mut self, p: u8, a: V, b: V) -> V {
        let x = self.se(a, 64); let y = self.se(b, 64);
        let ar = &mut self.ar;
        let absm = ar.cst(0x7fff_ffff_ffff_ffff, 64);
        let inf = ar.cst(0x7ff0_0000_0000_0000, 64);
        let zero = ar.cst(0, 64);
        let sb = ar.cst(1 << 63, 64);
        let ax = ar.bin(Op::And, x, absm); let ay = ar.bin(Op::And, y, absm);
        let nx = ar.bin(Op::Ult, inf, ax); let ny = ar.bin(Op::Ult, inf, ay);
        let uno = ar.or1(nx, ny);
        let zx = ar.bin(Op::Eq, ax, zero); let zy = ar.bin(Op::Eq, ay, zero);
        let zz = ar.and1(zx, zy);
        let beq = ar.bin(Op::Eq, x, y);
        let eq = ar.or1(beq, zz);
        let key = |ar: &mut Arena, v: E| { let s = ar.bin(Op::And, v, sb); let z = ar.bin(Op::Eq, s, zero); let m = ar.cst(!0, 64); let n = ar.bin(Op::Xor, v, m); let q = ar.bin(Op::Xor, v, sb); ar.ite(z, q, n) };
        let kx = key(ar, x); let ky = key(ar, y);
        let lt0 = ar.bin(Op::Ult, kx, ky); let nz = ar.not(zz); let lt = ar.and1(lt0, nz);
        let gt0 = ar.bin(Op::Ult, ky, kx); let gt = ar.and1(gt0, nz);
        let ord = ar.not(uno);
        let le = ar.or1(lt, eq); let ge = ar.or1(gt, eq);
        let ne = ar.not(eq);
        let core = match p & 7 { 0 => ar.cst(0, 1), 1 => eq, 2 => gt, 3 => ge, 4 => lt, 5 => le, 6 => ne, _ => ar.cst(1, 1) };
        let r = if p & 8 == 0 { ar.and1(core, ord) } else { ar.or1(core, uno) };
        self.ve(r)
    }

    pub fn run(&mut self) -> End {
        loop {
            match self.step() { Ok(()) => {} Err(e) => return e }
        }
    }

    fn step(&mut self) -> R<()> {
        let m = self.m;
        'outer: loop {
            let fr = self.st.frames.last().unwrap();
            let (f, base) = (fr.f, fr.base);
            let mut pc = fr.pc;
            let fu = &m.funcs[f as usize];
            let code = &fu.code;
            macro_rules! rd { ($o:expr) => { self.rd(base, $o) } }
            macro_rules! wr { ($d:expr, $v:expr) => {{ let v = $v; self.st.regs[(base + $d) as usize] = v; }} }
            // pc is kept in a local and written back before anything that can fork
            loop {
                self.st.steps += 1;
                let ins = &code[pc as usize];
                macro_rules! sync { () => { self.st.frames.last_mut().unwrap().pc = pc } }
                match ins {
                    I::Mov { d, a } => wr!(d, rd!(a)),
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (rd!(a), rd!(b));
                        if x.e | y.e == 0 {
                            let mk = mask(*w);
                            let r = match op {
                                B::Add => x.c.wrapping_add(y.c) & mk, B::Sub => x.c.wrapping_sub(y.c) & mk, B::And => x.c & y.c, B::Or => x.c | y.c, B::Xor => x.c ^ y.c,
                                _ => { sync!(); self.bin(*op, *w, x, y)?.c }
                            };
                            wr!(d, cv(r));
                        } else { sync!(); wr!(d, self.bin(*op, *w, x, y)?) }
                    }
                    I::ICmp { p, w, d, a, b } => { let (x, y) = (rd!(a), rd!(b)); wr!(d, self.icmp(*p, *w, x, y)) }
                    I::Gep { d, base: bo, off, idx } => {
                        let b = rd!(bo);
                        let mut acc = cv(*off as u64);
                        let mut symb = b.e != 0;
                        for (o, sc, iw) in idx.iter() {
                            let v = rd!(o);
                            if v.e == 0 && acc.e == 0 { acc.c = acc.c.wrapping_add(sext(v.c, *iw).wrapping_mul(*sc as u64)); }
                            else {
                                symb = true;
                                let e = self.se(v, *iw); let e = self.ar.sext(e, 64);
                                let k = self.ar.cst(*sc as u64, 64); let e = self.ar.bin(Op::Mul, e, k);
                                let a = self.se(acc, 64); let r = self.ar.bin(Op::Add, a, e); acc = self.ve(r);
                            }
                        }
                        if !symb { wr!(d, cv(b.c.wrapping_add(acc.c))) }
                        else { let x = self.se(b, 64); let y = self.se(acc, 64); let r = self.ar.bin(Op::Add, x, y); wr!(d, self.ve(r)) }
                    }
                    I::Load { d, p, w, off } => {
                        let a = rd!(p);
                        if a.e == 0 {
                            let addr = a.c.wrapping_add(*off as u64);
                            sync!();
                            wr!(d, self.load(addr, *w)?)
                        } else { sync!(); let k = self.ar.cst(*off as u64, 64); let e = self.ar.bin(Op::Add, a.e, k); let v = self.load_sym(e, *w)?; wr!(d, v) }
                    }
                    I::Store { v, p, w, off } => {
                        let a = rd!(p); let v = rd!(v);
                        sync!();
                        let a = if a.e == 0 { a.c } else { self.conc(a)? };
                        self.store(a.wrapping_add(*off as u64), *w, v)?;
                    }
                    I::Cast { op, from, to, d, a } => {
                        let v = rd!(a);
                        if v.e == 0 {
                            let r = match op {
                                CastOp::ZExt => v.c, CastOp::SExt => sext(v.c, *from) & mask(*to), CastOp::Trunc => v.c & mask(*to),
                                CastOp::UIToFP => if *to == 64 { (v.c as f64).to_bits() } else { (v.c as f32).to_bits() as u64 },
                                CastOp::SIToFP => { let s = sext(v.c, *from) as i64; if *to == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
                                CastOp::FPToUI => { let x = if *from == 64 { f64::from_bits(v.c) } else { f32::from_bits(v.c as u32) as f64 }; (x as u64) & mask(*to) }
                                CastOp::FPToSI => { let x = if *from == 64 { f64::from_bits(v.c) } else { f32::from_bits(v.c as u32) as f64 }; (x as i64 as u64) & mask(*to) }
                                CastOp::FPTrunc => (f64::from_bits(v.c) as f32).to_bits() as u64,
                                CastOp::FPExt => (f32::from_bits(v.c as u32) as f64).to_bits(),
                            };
                            wr!(d, cv(r))
                        } else {
                            match op {
                                CastOp::ZExt => { let e = self.ar.zext(v.e, *to); wr!(d, self.ve(e)) }
                                CastOp::SExt => { let e = self.ar.sext(v.e, *to); wr!(d, self.ve(e)) }
                                CastOp::Trunc => { let e = self.ar.extract(v.e, 0, *to); wr!(d, self.ve(e)) }
                                _ => { sync!(); let x = self.conc(v)?; self.st.regs[(base + a.r) as usize] = cv(x); continue; }
                            }
                        }
                    }
                    I::Br { e } => { if self.st.steps > self.max_steps { return Err(End::Error("step limit".into())); } self.take(f, base, e); pc = e.pc; continue; }
                    I::CondBr { c, t, f: fe } => {
                        let v = rd!(c);
                        let b = if v.e == 0 { v.c & 1 != 0 } else { sync!(); self.fork_on(v.e)? };
                        let e = if b { t } else { fe };
                        self.take(f, base, e); pc = e.pc; continue;
                    }
                    I::Switch { v, w, cases, edges, table } => {
                        let x = rd!(v);
                        sync!();
                        let ei = if x.e == 0 { table.map.get(&x.c).copied().unwrap_or(table.default) } else {
                            // the edge taken under the model is tested first
                            let mv = self.ar.eval(x.e, &self.st.model);
                            let pick = table.map.get(&mv).copied().unwrap_or(table.default);
                            let mut cond = self.ar.cst(0, 1);
                            if pick != table.default {
                                for (k, ed) in cases.iter() { if *ed == pick { let kk = self.ar.cst(*k, *w); let q = self.ar.bin(Op::Eq, x.e, kk); cond = self.ar.or1(cond, q); } }
                            } else {
                                for (k, ed) in cases.iter() { if *ed != pick { let kk = self.ar.cst(*k, *w); let q = self.ar.bin(Op::Eq, x.e, kk); cond = self.ar.or1(cond, q); } }
                                cond = self.ar.not(cond);
                            }
                            if !self.fork_on(cond)? { return Err(End::Error("switch".into())); }
                            pick
                        };
                        let e = &edges[ei as usize];
                        self.take(f, base, e); pc = e.pc; continue;
                    }
                    I::Select { w, d, c, a, b } => {
                        let v = rd!(c);
                        if v.e == 0 { wr!(d, if v.c & 1 != 0 { rd!(a) } else { rd!(b) }) }
                        else {
                            let (x, y) = (rd!(a), rd!(b));
                            let xe = self.se(x, *w); let ye = self.se(y, *w);
                            let e = self.ar.ite(v.e, xe, ye);
                            wr!(d, self.ve(e))
                        }
                    }
                    I::Alloca { d, off } => { let o = self.st.frames.last().unwrap().obj; wr!(d, cv(((o as u64) << 32) + *off as u64)) }
                    I::Ret { v } => {
                        let fr = self.st.frames.pop().unwrap();
                        if fr.obj != 0 { self.st.mem.release(fr.obj); }
                        if self.st.frames.is_empty() { return Err(End::Done); }
                        let pb = self.st.frames.last().unwrap().base;
                        for (k, o) in v.iter().enumerate() { let x = self.rd(base, o); if (k as u32) < fr.nd { self.st.regs[(pb + fr.dst) as usize + k] = x; } }
                        self.st.regs.truncate(base as usize);
                        self.st.frames.last_mut().unwrap().pc += 1;
                        if self.st.steps > self.max_steps { return Err(End::Error("step limit".into())); }
                        continue 'outer;
                    }
                    I::Call { f: cf, args, d, nd } => {
                        sync!();
                        let h = self.hooks[*cf as usize];
                        if h != Hook::None && self.hook(h, *cf, args, base, *d, *nd)? { pc += 1; continue; }
                        self.call(*cf, args, base, *d, *nd)?;
                        continue 'outer;
                    }
                    I::CallInd { f: fo, args, d, nd } => {
                        sync!();
                        let fv = rd!(fo);
                        let a = self.conc(fv)?;
                        if a & FUNC_BASE == 0 { return Err(self.viol("bad-call", a)); }
                        let cf = ((a & !FUNC_BASE) >> 4) as u32;
                        let h = self.hooks[cf as usize];
                        if h != Hook::None && self.hook(h, cf, args, base, *d, *nd)? { pc += 1; continue; }
                        self.call(cf, args, base, *d, *nd)?;
                        continue 'outer;
                    }
                    I::Intr { id, args, w, d } => { sync!(); self.intr(*id, args, *w, base, *d)?; }
                    I::Unreachable => { sync!(); return Err(self.viol("unreachable", 0)); }
                    I::Unsupported { what } => { return Err(End::Error(format!("unsupported instruction {what} in {}", fu.name))); }
                    I::FBin { op, w, d, a, b } => {
                        let (x, y) = (rd!(a), rd!(b));
                        sync!();
                        let (x, y) = (self.conc(x)?, self.conc(y)?);
                        let r = if *w == 64 {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y }).to_bits()
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y }).to_bits() as u64
                        };
                        wr!(d, cv(r))
                    }
                    I::FCmp { p, w, d, a, b } => {
                        let (x, y) = (rd!(a), rd!(b));
                        if x.e | y.e != 0 && *w == 64 { wr!(d, self.fcmp_sym(*p, x, y)) }
                        else {
                            sync!();
                            let (x, y) = (self.conc(x)?, self.conc(y)?);
                            let (x, y) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                            let uno = x.is_nan() || y.is_nan();
                            let core = match p & 7 { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => x != y && !uno, _ => !uno };
                            let r = if p & 8 == 0 { core && !uno } else { uno || core };
                            wr!(d, cv(r as u64))
                        }
                    }
                    I::FNeg { w, d, a } => { let v = rd!(a); let k = cv(1u64 << (*w - 1)); sync!(); wr!(d, self.bin(B::Xor, *w, v, k)?) }
                    I::Repack { d, nd, dw, src, sw } => {
                        let vals: Vec<V> = src.iter().map(|o| self.rd(base, o)).collect();
                        self.repack(base + *d, *nd, *dw, &vals, *sw);
                    }
                    I::Extract { d, src, i } => { let iv = rd!(i); sync!(); let k = self.conc(iv)?; let v = self.rd(base, &src[k as usize]); wr!(d, v) }
                    I::Insert { d, src, v, i } => {
                        let iv = rd!(i); sync!(); let k = self.conc(iv)? as usize;
                        let vals: Vec<V> = src.iter().enumerate().map(|(j, o)| if j == k { self.rd(base, v) } else { self.rd(base, o) }).collect();
                        for (j, x) in vals.into_iter().enumerate() { self.st.regs[(base + *d) as usize + j] = x; }
                    }
                    I::Wide { op, d, a, b } => { sync!(); self.wide(*op, base, *d, a, b)?; }
                    I::WideCmp { p, d, a, b } => {
                        sync!();
                        let v = [rd!(&a[0]), rd!(&a[1]), rd!(&b[0]), rd!(&b[1])];
                        if v.iter().any(|x| x.e != 0) {
                            let hi_eq = self.icmp(Pred::Eq, 64, v[1], v[3]);
                            let lo_eq = self.icmp(Pred::Eq, 64, v[0], v[2]);
                            let lo_lt = self.icmp(Pred::Ult, 64, v[0], v[2]);
                            let signed = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                            let hi_lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, 64, v[1], v[3]);
                            let (he, le, ll, hl) = (self.se(hi_eq, 1), self.se(lo_eq, 1), self.se(lo_lt, 1), self.se(hi_lt, 1));
                            let ar = &mut self.ar;
                            let eq = ar.and1(he, le); let t = ar.and1(he, ll); let lt = ar.or1(hl, t);
                            let r = match p { Pred::Eq => eq, Pred::Ne => ar.not(eq), Pred::Ult | Pred::Slt => lt, Pred::Uge | Pred::Sge => ar.not(lt), Pred::Ule | Pred::Sle => ar.or1(lt, eq), Pred::Ugt | Pred::Sgt => { let x = ar.or1(lt, eq); ar.not(x) } };
                            wr!(d, self.ve(r))
                        } else {
                            let x = v[0].c as u128 | (v[1].c as u128) << 64; let y = v[2].c as u128 | (v[3].c as u128) << 64;
                            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => (x as i128) < y as i128, Pred::Sle => x as i128 <= y as i128, Pred::Sgt => x as i128 > y as i128, Pred::Sge => x as i128 >= y as i128 };
                            wr!(d, cv(r as u64))
                        }
                    }
                    I::WideExt { signed, from, d, a } => {
                        let v = rd!(a);
                        if v.e == 0 {
                            if *signed { let s = sext(v.c, *from); wr!(*d, cv(s)); wr!(*d + 1, cv(((s as i64) >> 63) as u64)) } else { wr!(*d, v); wr!(*d + 1, cv(0)) }
                        } else if *signed { let e = self.ar.sext(v.e, 64); let k = self.ar.cst(63, 64); let h = self.ar.bin(Op::AShr, e, k); wr!(*d, self.ve(e)); wr!(*d + 1, self.ve(h)) }
                        else { let e = self.ar.zext(v.e, 64); wr!(*d, self.ve(e)); wr!(*d + 1, cv(0)) }
                    }
                    I::WideIntr { id, d, a, b } => {
                        sync!();
                        let x = self.wide_c(base, a)?; let y = self.wide_c(base, b)?;
                        match id {
                            In::AddOv(false) => { let (r, o) = x.overflowing_add(y); self.wr_wide(base + *d, r); wr!(*d + 2, cv(o as u64)) }
                            In::SubOv(false) => { let (r, o) = x.overflowing_sub(y); self.wr_wide(base + *d, r); wr!(*d + 2, cv(o as u64)) }
                            In::MulOv(false) => { let (r, o) = x.overflowing_mul(y); self.wr_wide(base + *d, r); wr!(*d + 2, cv(o as u64)) }
                            In::Ctlz => self.wr_wide(base + *d, x.leading_zeros() as u128),
                            In::Cttz => self.wr_wide(base + *d, x.trailing_zeros() as u128),
                            In::Ctpop => self.wr_wide(base + *d, x.count_ones() as u128),
                            In::Bswap => self.wr_wide(base + *d, x.swap_bytes()),
                            _ => return Err(End::Error(format!("wide intrinsic {id:?}"))),
                        }
                    }
                    I::WideFp { op, d, a } => {
                        sync!();
                        let x = self.wide_c(base, a)?;
                        wr!(d, cv(if *op == CastOp::UIToFP { (x as f64).to_bits() } else { (x as i128 as f64).to_bits() }))
                    }
                    I::Rmw { op, w, d, p, v } => {
                        sync!();
                        let pv = rd!(p); let a = self.conc(pv)?;
                        let old = self.load(a, *w)?;
                        let x = rd!(v);
                        let new = match op {
                            0 => x,
                            1 => self.bin(B::Add, *w, old, x)?, 2 => self.bin(B::Sub, *w, old, x)?, 3 => self.bin(B::And, *w, old, x)?,
                            5 => self.bin(B::Or, *w, old, x)?, 6 => self.bin(B::Xor, *w, old, x)?,
                            9 => self.bin(B::UMax, *w, old, x)?, 10 => self.bin(B::UMin, *w, old, x)?,
                            o => return Err(End::Error(format!("atomicrmw {o}"))),
                        };
                        self.store(a, *w, new)?;
                        wr!(d, old)
                    }
                    I::CmpXchg { w, d, p, c, n } => {
                        sync!();
                        let pv = rd!(p); let a = self.conc(pv)?;
                        let old = self.load(a, *w)?;
                        let o = self.conc(old)?; let cc = rd!(c); let cc = self.conc(cc)?; let nv = rd!(n);
                        if o == cc { self.store(a, *w, nv)?; }
                        wr!(*d, cv(o)); wr!(*d + 1, cv((o == cc) as u64))
                    }
                }
                pc += 1;
            }
        }
    }
    fn wr_wide(&mut self, d: u32, v: u128) { self.st.regs[d as usize] = cv(v as u64); self.st.regs[d as usize + 1] = cv((v >> 64) as u64); }
    fn wide_c(&mut self, base: u32, a: &[O; 2]) -> R<u128> {
        let (l, h) = (self.rd(base, &a[0]), self.rd(base, &a[1]));
        Ok(self.conc(l)? as u128 | (self.conc(h)? as u128) << 64)
    }
    fn wide(&mut self, op: B, base: u32, d: u32, a: &[O; 2], b: &[O; 2]) -> R<()> {
        let v = [self.rd(base, &a[0]), self.rd(base, &a[1]), self.rd(base, &b[0]), self.rd(base, &b[1])];
        let symb = v.iter().any(|x| x.e != 0);
        if symb {
            match op {
                B::And | B::Or | B::Xor => {
                    let l = self.bin(op, 64, v[0], v[2])?; let h = self.bin(op, 64, v[1], v[3])?;
                    self.st.regs[(base + d) as usize] = l; self.st.regs[(base + d + 1) as usize] = h;
                    return Ok(());
                }
                B::Mul if v[1].e | v[3].e == 0 && v[1].c == 0 && v[3].c == 0 => {
                    // 64x64 -> 128 through 32-bit halves
                    let x = self.se(v[0], 64); let y = self.se(v[2], 64);
                    let ar = &mut self.ar;
                    let lo = ar.bin(Op::Mul, x, y);
                    let h32 = |ar: &mut Arena, e: E| { let t = ar.extract(e, 32, 32); ar.zext(t, 64) };
                    let l32 = |ar: &mut Arena, e: E| { let t = ar.extract(e, 0, 32); ar.zext(t, 64) };
                    let (xh, xl, yh, yl) = (h32(ar, x), l32(ar, x), h32(ar, y), l32(ar, y));
                    let ll = ar.bin(Op::Mul, xl, yl); let lh = ar.bin(Op::Mul, xl, yh); let hl = ar.bin(Op::Mul, xh, yl); let hh = ar.bin(Op::Mul, xh, yh);
                    let t = h32(ar, ll); let t1 = ar.bin(Op::Add, hl, t);
                    let t1l = l32(ar, t1); let t1h = h32(ar, t1);
                    let t2 = ar.bin(Op::Add, lh, t1l); let t2h = h32(ar, t2);
                    let s = ar.bin(Op::Add, hh, t1h); let hi = ar.bin(Op::Add, s, t2h);
                    self.st.regs[(base + d) as usize] = self.ve(lo); self.st.regs[(base + d + 1) as usize] = self.ve(hi);
                    return Ok(());
                }
                B::LShr if v[2].e | v[3].e == 0 && v[2].c == 64 => { self.st.regs[(base + d) as usize] = v[1]; self.st.regs[(base + d + 1) as usize] = cv(0); return Ok(()); }
                _ => {}
            }
        }
        let x = self.wide_c(base, a)?; let y = self.wide_c(base, b)?;
        let r = match op {
            B::Add => x.wrapping_add(y), B::Sub => x.wrapping_sub(y), B::Mul => x.wrapping_mul(y), B::UDiv => x / y, B::URem => x % y,
            B::SDiv => (x as i128).wrapping_div(y as i128) as u128, B::SRem => (x as i128).wrapping_rem(y as i128) as u128,
            B::Shl => if y >= 128 { 0 } else { x << y }, B::LShr => if y >= 128 { 0 } else { x >> y }, B::AShr => ((x as i128) >> y.min(127)) as u128,
            B::And => x & y, B::Or => x | y, B::Xor => x ^ y, B::UMin => x.min(y), B::UMax => x.max(y),
            B::USubSat => x.saturating_sub(y), B::UAddSat => x.saturating_add(y),
            _ => return Err(End::Error(format!("wide {op:?}"))),
        };
        self.wr_wide(base + d, r);
        Ok(())
    }
    fn repack(&mut self, d: u32, nd: u32, dw: u8, src: &[V], sw: u8) {
        // source bit i lives in src[i / sw]
        for k in 0..nd as usize {
            let lo = k * dw as usize;
            let mut acc: Option<V> = None;
            let mut accw = 0u8;
            let mut bit = lo;
            while bit < lo + dw as usize {
                let s = bit / sw as usize; let o = bit % sw as usize;
                let take = (sw as usize - o).min(lo + dw as usize - bit) as u8;
                let v = src[s];
                let piece = if v.e == 0 { cv((v.c >> o) & mask(take)) } else { let e = self.ar.extract(v.e, o as u8, take); self.ve(e) };
                acc = Some(match acc { None => piece, Some(a) => {
                    if a.e | piece.e == 0 { cv(a.c | piece.c << accw) } else { let l = self.se(a, accw); let h = self.se(piece, take); let e = self.ar.concat(h, l); self.ve(e) }
                } });
                accw += take;
                bit += take as usize;
            }
            self.st.regs[d as usize + k] = acc.unwrap();
        }
    }

    fn call(&mut self, cf: u32, args: &[O], base: u32, d: u32, nd: u32) -> R<()> {
        let fu = &self.m.funcs[cf as usize];
        if fu.decl { return Err(End::Error(format!("call of undefined function {}", fu.name))); }
        if args.len() < fu.nargs as usize { return Err(End::Error(format!("arity {}", fu.name))); }
        if self.st.frames.len() > 2000 { return Err(End::Error("call depth".into())); }
        let vals: smallvec::SV = smallvec::collect(args.iter().map(|o| self.rd(base, o)));
        self.push_frame(cf, vals.as_slice(), d, nd);
        Ok(())
    }

    fn intr(&mut self, id: In, args: &[O], w: u8, base: u32, d: u32) -> R<()> {
        let a: Vec<V> = args.iter().map(|o| self.rd(base, o)).collect();
        let di = (base + d) as usize;
        macro_rules! set { ($v:expr) => {{ let v = $v; self.st.regs[di] = v; }} }
        match id {
            In::Nop | In::Assume => {}
            In::Memcpy => { let n = self.conc(a[2])? as usize; if n > 0 { let (x, y) = (self.conc(a[0])?, self.conc(a[1])?); self.copy(x, y, n)?; } }
            In::Memset => { let n = self.conc(a[2])? as usize; if n > 0 { let p = self.conc(a[0])?; self.memset(p, a[1], n)?; } }
            In::AddOv(sg) | In::SubOv(sg) | In::MulOv(sg) => {
                if a[0].e | a[1].e == 0 {
                    let (x, y) = (a[0].c, a[1].c);
                    let (r, o) = if sg {
                        let (x, y) = (sext(x, w) as i64 as i128, sext(y, w) as i64 as i128);
                        let r = match id { In::AddOv(_) => x + y, In::SubOv(_) => x - y, _ => x * y };
                        (r as u64 & mask(w), r != sext(r as u64 & mask(w), w) as i64 as i128)
                    } else {
                        let (x, y) = (x as u128, y as u128);
                        match id { In::AddOv(_) => { let r = x + y; (r as u64 & mask(w), r > mask(w) as u128) } In::SubOv(_) => (x.wrapping_sub(y) as u64 & mask(w), y > x), _ => { let r = x * y; (r as u64 & mask(w), r > mask(w) as u128) } }
                    };
                    self.st.regs[di] = cv(r); self.st.regs[di + 1] = cv(o as u64);
                } else {
                    let (mut p, mut q) = (a[0], a[1]);
                    if matches!(id, In::MulOv(_)) {
                        if q.e != 0 && p.e == 0 { std::mem::swap(&mut p, &mut q); }
                        if q.e != 0 { let k = self.conc(q)?; q = cv(k); if p.e != 0 && p.e == a[1].e { let k = self.conc(p)?; p = cv(k); } }
                        if p.e == 0 { self.st.regs[di] = cv(p.c.wrapping_mul(q.c) & mask(w)); let o = if sg { let r = (sext(p.c, w) as i64 as i128) * (sext(q.c, w) as i64 as i128); r != sext(r as u64 & mask(w), w) as i64 as i128 } else { p.c as u128 * q.c as u128 > mask(w) as u128 }; self.st.regs[di + 1] = cv(o as u64); return Ok(()); }
                        let x = self.se(p, w); let y = self.se(q, w);
                        let r = self.ar.bin(Op::Mul, x, y);
                        let ov = if sg {
                            let s = sext(q.c, w) as i64;
                            if s == 0 { self.ar.cst(0, 1) } else {
                                let smax = (mask(w) >> 1) as i64; let smin = -smax - 1;
                                if s < 0 { let k = self.conc(p)?; return { let r = (sext(k, w) as i64 as i128) * s as i128; self.st.regs[di] = cv(r as u64 & mask(w)); self.st.regs[di + 1] = cv((r != sext(r as u64 & mask(w), w) as i64 as i128) as u64); Ok(()) }; }
                                let hi = self.ar.cst((smax / s) as u64, w); let lo = self.ar.cst((smin / s) as u64, w);
                                let g = self.ar.bin(Op::Slt, hi, x); let l = self.ar.bin(Op::Slt, x, lo); self.ar.or1(g, l)
                            }
                        } else if q.c == 0 { self.ar.cst(0, 1) } else { let k = self.ar.cst(mask(w) / q.c, w); self.ar.bin(Op::Ult, k, x) };
                        self.st.regs[di] = self.ve(r); self.st.regs[di + 1] = self.ve(ov);
                        return Ok(());
                    }
                    let x = self.se(p, w); let y = self.se(q, w);
                    let ar = &mut self.ar;
                    let add = matches!(id, In::AddOv(_));
                    let r = ar.bin(if add { Op::Add } else { Op::Sub }, x, y);
                    let o = if sg {
                        let z = ar.cst(0, w);
                        let (t1, t2) = if add { (ar.bin(Op::Xor, x, r), ar.bin(Op::Xor, y, r)) } else { (ar.bin(Op::Xor, x, y), ar.bin(Op::Xor, x, r)) };
                        let t = ar.bin(Op::And, t1, t2); ar.bin(Op::Slt, t, z)
                    } else if add { ar.bin(Op::Ult, r, x) } else { ar.bin(Op::Ult, x, y) };
                    self.st.regs[di] = self.ve(r); self.st.regs[di + 1] = self.ve(o);
                }
            }
            In::Ctlz | In::Cttz | In::Ctpop | In::Bswap | In::Bitreverse | In::Abs => {
                if a[0].e == 0 {
                    let x = a[0].c;
                    set!(cv(match id {
                        In::Ctlz => if x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w as u32)) as u64 },
                        In::Cttz => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                        In::Ctpop => x.count_ones() as u64,
                        In::Bswap => x.swap_bytes() >> (64 - w as u32),
                        In::Bitreverse => x.reverse_bits() >> (64 - w as u32),
                        _ => { let s = sext(x, w) as i64; s.wrapping_abs() as u64 & mask(w) }
                    }))
                } else {
                    let x = a[0].e;
                    let ar = &mut self.ar;
                    let r = match id {
                        In::Cttz => { let mut r = ar.cst(w as u64, w); for i in (0..w).rev() { let b = ar.extract(x, i, 1); let k = ar.cst(i as u64, w); r = ar.ite(b, k, r); } r }
                        In::Ctlz => { let mut r = ar.cst(w as u64, w); for i in 0..w { let b = ar.extract(x, i, 1); let k = ar.cst((w - 1 - i) as u64, w); r = ar.ite(b, k, r); } r }
                        In::Ctpop => { let mut r = ar.cst(0, w); for i in 0..w { let b = ar.extract(x, i, 1); let z = ar.zext(b, w); r = ar.bin(Op::Add, r, z); } r }
                        In::Bswap => { let mut r = ar.extract(x, 0, 8); for i in 1..w / 8 { let b = ar.extract(x, i * 8, 8); r = ar.concat(r, b); } r }
                        In::Bitreverse => { let mut r = ar.extract(x, 0, 1); for i in 1..w { let b = ar.extract(x, i, 1); r = ar.concat(r, b); } r }
                        _ => { let z = ar.cst(0, w); let c = ar.bin(Op::Slt, x, z); let n = ar.bin(Op::Sub, z, x); ar.ite(c, n, x) }
                    };
                    set!(self.ve(r))
                }
            }
            In::Fshl | In::Fshr => {
                let k = self.conc(a[2])? % w as u64;
                let k = if id == In::Fshl { k } else { (w as u64 - k) % w as u64 };
                // concat(a,b) << k, high half; for fshr with k==0 the result is b
                if k == 0 { set!(if id == In::Fshl { a[0] } else { a[1] }) }
                else {
                    let h = self.bin(B::Shl, w, a[0], cv(k))?; let l = self.bin(B::LShr, w, a[1], cv(w as u64 - k))?;
                    set!(self.bin(B::Or, w, h, l)?)
                }
            }
            In::Fabs => set!(self.bin(B::And, w, a[0], cv(mask(w) >> 1))?),
            In::FpClass => {
                let m = self.conc(a[1])?;
                let (mb, eb) = if w == 64 { (52, 0x7ff0_0000_0000_0000u64) } else if w == 32 { (23, 0x7f80_0000) } else { return Err(End::Error("is.fpclass width".into())) };
                let am = mask(w) >> 1;
                let x = self.se(a[0], w);
                let ar = &mut self.ar;
                let c = |ar: &mut Arena, v: u64| ar.cst(v, w);
                let (amc, infc, minc, zc, qc) = (c(ar, am), c(ar, eb), c(ar, 1 << mb), c(ar, 0), c(ar, 1 << (mb - 1)));
                let ax = ar.bin(Op::And, x, amc);
                let neg = ar.extract(x, w - 1, 1);
                let nan = ar.bin(Op::Ult, infc, ax); let inf = ar.bin(Op::Eq, ax, infc); let zero = ar.bin(Op::Eq, ax, zc);
                let qb = ar.bin(Op::And, ax, qc); let nq = ar.bin(Op::Eq, qb, zc);
                let small = ar.bin(Op::Ult, ax, minc); let nz = ar.not(zero); let sub = ar.and1(small, nz);
                let below = ar.bin(Op::Ult, ax, infc); let ns = ar.not(small); let norm = ar.and1(below, ns);
                let pos = ar.not(neg); let q = ar.not(nq);
                let terms = [(nan, nq), (nan, q), (inf, neg), (norm, neg), (sub, neg), (zero, neg), (zero, pos), (sub, pos), (norm, pos), (inf, pos)];
                let mut r = ar.cst(0, 1);
                for (k, (u, v)) in terms.into_iter().enumerate() { if m >> k & 1 != 0 { let t = ar.and1(u, v); r = ar.or1(r, t); } }
                set!(self.ve(r))
            }
            In::Trap => return Err(self.viol("trap", 0)),
            In::IsConstant => set!(cv(0)),
            In::Expect | In::TlsAddr => set!(a[0]),
            In::Ucmp | In::Scmp => {
                let (lt, gt) = if id == In::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, a[0], a[1]); let g = self.icmp(gt, w, a[0], a[1]);
                // result width is taken from the consumer: i8 in practice
                if l.e | g.e == 0 { set!(cv(if l.c != 0 { 0xff } else { g.c })) }
                else { let (l, g) = (self.se(l, 1), self.se(g, 1)); let m1 = self.ar.cst(0xff, 8); let gz = self.ar.zext(g, 8); let e = self.ar.ite(l, m1, gz); set!(self.ve(e)) }
            }
            In::Fmath(k) => { let x = f64::from_bits(self.conc(a[0])?); set!(cv((match k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), 4 => x.round_ties_even(), _ => x.sqrt() }).to_bits())) }
            In::Copysign => { let x = f64::from_bits(self.conc(a[0])?); let y = f64::from_bits(self.conc(a[1])?); set!(cv(x.copysign(y).to_bits())) }
            In::Fma => { let x = f64::from_bits(self.conc(a[0])?); let y = f64::from_bits(self.conc(a[1])?); let z = f64::from_bits(self.conc(a[2])?); set!(cv(x.mul_add(y, z).to_bits())) }
            In::FminFmax(mx) => { let x = f64::from_bits(self.conc(a[0])?); let y = f64::from_bits(self.conc(a[1])?); set!(cv(if mx { x.max(y) } else { x.min(y) }.to_bits())) }
            In::FptosiSat(sg) => {
                let x = f64::from_bits(self.conc(a[0])?);
                set!(cv(if sg { x as i64 as u64 } else { x as u64 }))
            }
        }
        Ok(())
    }
    fn memset(&mut self, p: u64, v: V, n: usize) -> R<()> {
        let off = p as u32 as usize;
        let Some(o) = self.obj_mut(p) else { return Err(self.viol("bad-memset", p)) };
        if off + n > o.data.len() { return Err(self.viol("oob-memset", p)); }
        o.data[off..off + n].fill(v.c as u8);
        if v.e != 0 { let l = o.data.len(); o.sym.get_or_insert_with(|| vec![0; l].into_boxed_slice())[off..off + n].fill(v.e); }
        else if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
        Ok(())
    }
    fn bytes(&mut self, p: u64, n: usize) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        (0..n).map(|i| self.load(p + i as u64, 8)).collect()
    }
    fn newbyte(&mut self, set: Set) -> R<V> {
        let id = self.st.dom.len() as u32;
        if id >= MAXBYTE { return Err(End::Error("too many symbolic inputs".into())); }
        self.st.dom.push(set);
        self.st.model[id as usize] = set_first(&set) as u64;
        let e = self.ar.var(id, 8);
        Ok(V { c: 0, e })
    }

    /// Returns true when the call was handled here.
    fn hook(&mut self, h: Hook, cf: u32, args: &[O], base: u32, d: u32, nd: u32) -> R<bool> {
        let a: Vec<V> = args.iter().map(|o| self.rd(base, o)).collect();
        let mut ret = cv(0);
        match h {
            Hook::Malloc => { let n = self.conc(a[0])?; ret = cv(self.alloc(n)?) }
            Hook::Calloc => { let n = self.conc(a[0])?; let k = self.conc(a[1])?; ret = cv(self.alloc(n * k)?) }
            Hook::Realloc => {
                let p = self.conc(a[0])?; let n = self.conc(a[1])?;
                let old = self.obj(p).map(|o| o.data.len());
                let q = self.alloc(n)?;
                if let Some(l) = old { self.copy(q, p, l.min(n as usize))?; self.st.mem.release((p >> 32) as u32); }
                ret = cv(q)
            }
            Hook::Free => { let p = self.conc(a[0])?; if p != 0 && !self.st.mem.release((p >> 32) as u32) { return Err(self.viol("bad-free", p)); } }
            Hook::Memalign => { let n = self.conc(a[2])?; let q = self.alloc(n)?; let p = self.conc(a[0])?; self.store(p, 64, cv(q))?; }
            Hook::Bcmp | Hook::Memcmp => {
                let n = self.conc(a[2])? as usize;
                if n > 0 {
                    let p = self.conc(a[0])?; let q = self.conc(a[1])?;
                    let x = self.bytes(p, n)?; let y = self.bytes(q, n)?;
                    if h == Hook::Bcmp {
                        let mut acc = self.ar.cst(1, 1);
                        for i in 0..n {
                            if x[i].e | y[i].e == 0 { if x[i].c != y[i].c { acc = self.ar.cst(0, 1); break; } continue; }
                            let (u, v) = (self.se(x[i], 8), self.se(y[i], 8));
                            let e = self.ar.bin(Op::Eq, u, v);
                            acc = self.ar.and1(acc, e);
                            if self.ar.is_const(acc) == Some(0) { break; }
                        }
                        let z = self.ar.cst(0, 32); let o = self.ar.cst(1, 32);
                        let r = self.ar.ite(acc, z, o);
                        ret = self.ve(r);
                    } else {
                        let mut acc = self.ar.cst(0, 32);
                        for i in (0..n).rev() {
                            let (u, v) = (self.se(x[i], 8), self.se(y[i], 8));
                            let eq = self.ar.bin(Op::Eq, u, v); let lt = self.ar.bin(Op::Ult, u, v);
                            let m1 = self.ar.cst(!0, 32); let p1 = self.ar.cst(1, 32);
                            let ne = self.ar.ite(lt, m1, p1);
                            acc = self.ar.ite(eq, acc, ne);
                        }
                        ret = self.ve(acc);
                    }
                }
            }
            Hook::Memcpy => { let n = self.conc(a[2])? as usize; let (x, y) = (self.conc(a[0])?, self.conc(a[1])?); self.copy(x, y, n)?; ret = cv(x) }
            Hook::Memset => { let n = self.conc(a[2])? as usize; let p = self.conc(a[0])?; let b = if a[1].e == 0 { cv(a[1].c & 255) } else { let e = self.ar.extract(a[1].e, 0, 8); self.ve(e) }; if n > 0 { self.memset(p, b, n)?; } ret = cv(p) }
            Hook::Strlen => { let p = self.conc(a[0])?; let mut n = 0; loop { let v = self.load(p + n, 8)?; if self.conc(v)? == 0 { break; } n += 1; } ret = cv(n) }
            Hook::Panic => return Err(if self.st.panic_ok { End::Done } else { self.viol("panic", 0) }),
            Hook::Abort => return Err(self.viol("abort", 0)),
            Hook::Nop0 => {}
            Hook::Getrandom => { ret = a[1] }
            Hook::Unsup => return Err(End::Error(format!("call of undefined function {}", self.m.funcs[cf as usize].name))),
            Hook::VfByte => ret = self.newbyte(FULL)?,
            Hook::VfRange => {
                let (lo, hi) = (self.conc(a[0])?, self.conc(a[1])?);
                let mut s = [0u64; 4];
                for i in lo..=hi.min(255) { s[(i >> 6) as usize] |= 1 << (i & 63); }
                ret = self.newbyte(s)?
            }
            Hook::VfChoice => {
                // one input, split immediately into its n values
                let n = self.conc(a[0])?;
                if n > 256 { return Err(End::Error("choice of more than 256".into())); }
                let mut s = [0u64; 4];
                for i in 0..n.min(256) { s[(i >> 6) as usize] |= 1 << (i & 63); }
                if set_empty(&s) { return Err(End::Assumed); }
                let id = self.st.dom.len();
                if id as u32 >= MAXBYTE { return Err(End::Error("too many symbolic inputs".into())); }
                let pc = self.st.frames.last().unwrap().pc;
                let di = (base + d) as usize;
                for i in (1..n).rev() {
                    let mut alt = self.st.clone();
                    let mut t = [0u64; 4]; t[(i >> 6) as usize] |= 1 << (i & 63);
                    alt.dom.push(t); alt.model[id] = i; alt.regs[di] = cv(i); alt.frames.last_mut().unwrap().pc = pc + 1; alt.forks += 1;
                    self.stack.push(alt);
                    self.stats.forks += 1;
                }
                let mut t = [0u64; 4]; t[0] = 1;
                self.st.dom.push(t); self.st.model[id] = 0;
                ret = cv(0);
            }
            Hook::VfAssume => {
                let c = a[0];
                if c.e == 0 { if c.c & 1 == 0 { self.stats.assumed += 1; return Err(End::Assumed); } }
                else {
                    let e = self.ar.extract(c.e, 0, 1);
                    let ok = if self.ar.is_const(e).is_some() { self.ar.is_const(e) == Some(1) } else if self.ar.eval(e, &self.st.model) != 0 { self.add(e, true); true } else { match self.model_for(e, true)? { Some(m) => { self.st.model = m; self.add(e, true); true } None => false } };
                    if !ok { self.stats.assumed += 1; return Err(End::Assumed); }
                }
            }
            Hook::VfFail => { let c = self.conc(a[0])?; return Err(self.viol("assert", c)); }
            Hook::VfAssert => {
                let code = self.conc(a[1])?;
                self.stats.asserts += 1;
                let c = a[0];
                if c.e == 0 { if c.c & 1 == 0 { return Err(self.viol("assert", code)); } }
                else {
                    let e = self.ar.extract(c.e, 0, 1);
                    if self.ar.is_const(e) == Some(0) { return Err(self.viol("assert", code)); }
                    if self.ar.is_const(e).is_none() {
                        if self.ar.eval(e, &self.st.model) == 0 { return Err(self.viol("assert", code)); }
                        if let Some(m) = self.z3_query(e, false)? { self.st.model = m; return Err(self.viol("assert", code)); }
                    }
                }
            }
            Hook::VfReach => { let c = self.conc(a[0])?; self.reach_path.push(c); *self.reach.entry(c).or_insert(0) += 1; }
            Hook::VfConc => { ret = cv(self.conc(a[0])?) }
            Hook::VfUf => {}
            Hook::VfDone => return Err(End::Done),
            Hook::VfPanicOk => self.st.panic_ok = true,
            Hook::VfNote => {
                if self.trace {
                    let p = self.conc(a[0])?; let n = self.conc(a[1])? as usize;
                    let b = self.bytes(p, n)?;
                    let mut s = vec![];
                    for v in b { s.push(if v.e == 0 { v.c as u8 } else { self.ar.eval(v.e, &self.st.model) as u8 }); }
                    eprintln!("note: {:?}", String::from_utf8_lossy(&s));
                }
            }
            Hook::NumToF64 => {
                // (mantissa u64, exponent i64, negative) -> f64 bits
                let neg = self.conc(a[2])? & 1 != 0;
                let ex = self.conc(a[1])? as i64;
                let mut opaque = self.opaque_num && a[0].e != 0 && (-300..=280).contains(&ex);
                if opaque {
                    // a mantissa with a single possible value is that value
                    let me = self.se(a[0], 64);
                    let m = self.ar.eval(me, &self.st.model);
                    let mc = self.ar.cst(m, 64);
                    let eq = self.ar.bin(Op::Eq, me, mc);
                    if self.ar.is_const(eq) == Some(1) || self.model_for(eq, false)?.is_none() { opaque = false; }
                }
                if !opaque {
                    let m = self.conc(a[0])?;
                    let f: f64 = format!("{}{}e{}", if neg { "-" } else { "" }, m, ex).parse().unwrap();
                    if nd > 0 { self.st.regs[(base + d) as usize] = cv(f.to_bits()); }
                    return Ok(true);
                }
                self.stats.opaque += 1;
                let (me, ee) = (self.se(a[0], 64), self.ar.cst(ex as u64, 64));
                let id = match self.st.wides.iter().find(|x| x.0 == me && x.1 == ee && x.2 == neg) { Some(x) => x.3, None => {
                    let id = MAXBYTE + self.st.nwide;
                    if id >= 128 { return Err(End::Error("too many opaque floats".into())); }
                    self.st.nwide += 1;
                    self.st.wides.push((me, ee, neg, id));
                    let v = self.ar.var(id, 64);
                    let ar = &mut self.ar;
                    // finite, sign fixed, zero iff mantissa zero
                    let absm = ar.cst(0x7fff_ffff_ffff_ffff, 64); let inf = ar.cst(0x7ff0_0000_0000_0000, 64); let z = ar.cst(0, 64);
                    let av = ar.bin(Op::And, v, absm);
                    let fin = ar.bin(Op::Ult, av, inf);
                    let sb = ar.extract(v, 63, 1); let sg = ar.cst(neg as u64, 1); let sgn = ar.bin(Op::Eq, sb, sg);
                    let mz = ar.bin(Op::Eq, me, z); let vz = ar.bin(Op::Eq, av, z); let zz = ar.bin(Op::Eq, mz, vz);
                    let c1 = ar.and1(fin, sgn); let c = ar.and1(c1, zz);
                    let mval = ar.eval(me, &self.st.model);
                    self.st.model[id as usize] = (if mval == 0 { 0 } else { 0x3ff0_0000_0000_0000 }) | (neg as u64) << 63;
                    self.add(c, true);
                    id
                } };
                let v = self.ar.var(id, 64);
                ret = V { c: 0, e: v };
            }
            Hook::Uni(k) => {
                // a table lookup of a symbolic character, as the ranges it stands for
                if a[0].e == 0 { return Ok(false); }
                let c = self.se(a[0], 32);
                let (lo, hi) = self.ar.bounds(c, &self.st.dom);
                let mut acc = self.ar.cst(0, 1);
                for &(x, y) in uni_ranges(k) {
                    if (y as u64) < lo || x as u64 > hi { continue; }
                    let (b, n) = (self.ar.cst(x as u64, 32), self.ar.cst((y - x + 1) as u64, 32));
                    let d = self.ar.bin(Op::Sub, c, b);
                    let r = self.ar.bin(Op::Ult, d, n);
                    acc = self.ar.or1(acc, r);
                }
                ret = V { c: 0, e: acc };
                if let Some(v) = self.ar.is_const(acc) { ret = cv(v); }
            }
            Hook::None => return Ok(false),
        }
        if nd > 0 { self.st.regs[(base + d) as usize] = ret; }
        Ok(true)
    }

    /// Solver certificate for a finished path: PC must be satisfiable, and the recorded model must satisfy it.
    pub fn certify(&mut self) -> Result<(), String> {
        let n = self.st.dom.len();
        for v in 0..n { if !set_has(&self.st.dom[v], self.st.model[v] as u8) { return Err(format!("model outside domain of v{v}")); } }
        for &(e, p) in &self.st.complex.clone() { if (self.ar.eval(e, &self.st.model) != 0) != p { return Err("model violates a path constraint".into()); } }
        if self.z3.is_none() { self.z3 = Some(Z3::new(self.z3_timeout)); }
        let doms: Vec<(u32, u8, Set)> = (0..n as u32).map(|v| (v, 8, self.st.dom[v as usize])).collect();
        let t = std::time::Instant::now();
        let r = self.z3.as_mut().unwrap().check(&self.ar, &self.st.complex, &doms, &[]);
        self.stats.z3_us += t.elapsed().as_micros() as u64;
        self.stats.z3_queries += 1;
        self.stats.cert += 1;
        match r { Ok(Some(_)) => { self.stats.z3_sat += 1; Ok(()) } Ok(None) => Err("Z3 says the path condition is unsatisfiable".into()), Err(e) => Err(e) }
    }
}

pub mod smallvec {
    use super::V;
    pub struct SV { n: usize, a: [V; 12], v: Vec<V> }
    impl SV { pub fn as_slice(&self) -> &[V] { if self.v.is_empty() { &self.a[..self.n] } else { &self.v } } }
    pub fn collect(it: impl Iterator<Item = V>) -> SV {
        let mut s = SV { n: 0, a: [V::default(); 12], v: vec![] };
        for x in it {
            if s.v.is_empty() && s.n < 12 { s.a[s.n] = x; s.n += 1; }
            else { if s.v.is_empty() { s.v = s.a[..s.n].to_vec(); } s.v.push(x); }
        }
        s
    }
}
