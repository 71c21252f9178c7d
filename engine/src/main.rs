//! vfx: symbolic executor for LLVM bitcode of Rust code, Z3 back end.
mod exec;
mod expr;
mod llvm;
mod mem;
mod z3;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
}

#[repr(C)]
struct Shared { active: AtomicU64, stop: AtomicU64, paths: AtomicU64, nviol: AtomicU64, errors: AtomicU64, started: AtomicU64, crashed: AtomicU64 }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut bc = String::new(); let mut entry = String::new(); let mut out = String::new();
    let mut jobs = 8u64; let mut secs = 600u64; let mut maxviol = 8u64; let mut prof = false; let mut cert = 1u64; let mut xcheck = 0u64; let mut trace = false; let mut maxwit = 0usize; let mut list = false; let mut max_steps = 200_000_000u64; let mut z3to = 20000u32; let mut keep = false; let mut conc_num = false;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("value");
        match a.as_str() {
            "--bc" => bc = nx(), "--entry" => entry = nx(), "--out" => out = nx(), "--jobs" => jobs = nx().parse().unwrap(), "--secs" => secs = nx().parse().unwrap(),
            "--maxviol" => maxviol = nx().parse().unwrap(), "--prof" => prof = true, "--cert" => cert = nx().parse().unwrap(), "--xcheck" => xcheck = nx().parse().unwrap(),
            "--trace" => trace = true, "--witnesses" => maxwit = nx().parse().unwrap(), "--list" => list = true, "--max-steps" => max_steps = nx().parse().unwrap(), "--z3-timeout" => z3to = nx().parse().unwrap(),
            "--keep-going" => keep = true, "--conc-num" => conc_num = true,
            _ => { eprintln!("unknown argument {a}"); std::process::exit(2) }
        }
    }
    let t0 = std::time::Instant::now();
    let m = llvm::load(&bc);
    if list { for f in &m.funcs { if !f.decl { println!("{} {}", f.code.len(), f.name); } } return; }
    let Some(&ef) = m.fidx.get(&entry) else { eprintln!("no entry {entry}"); std::process::exit(2) };
    std::fs::create_dir_all(&out).unwrap();
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    unsafe { prctl(36, 1, 0, 0, 0); } // child subreaper
    sh.active.store(1, SeqCst);
    sh.started.store(1, SeqCst);
    let load_ms = t0.elapsed().as_millis();
    let p = unsafe { fork() };
    if p != 0 {
        // supervisor: wait for every worker
        let mut bad = 0u64;
        loop {
            let mut st = 0;
            let r = unsafe { waitpid(-1, &mut st, 0) };
            if r < 0 { break; }
            if st != 0 { bad += 1; sh.crashed.fetch_add(1, SeqCst); sh.stop.store(1, SeqCst); eprintln!("worker {r} ended with status {st:#x}"); }
        }
        let timeout = t0.elapsed().as_secs() >= secs;
        println!("{{\"paths\":{},\"violations\":{},\"errors\":{},\"crashed\":{},\"timeout\":{},\"wall_ms\":{},\"load_ms\":{},\"workers\":{},\"z3\":\"{}\"}}", sh.paths.load(SeqCst), sh.nviol.load(SeqCst), sh.errors.load(SeqCst), bad, timeout, t0.elapsed().as_millis(), load_ms, sh.started.load(SeqCst), esc(&z3::version()));
        return;
    }
    let mut x = Exec::new(&m, ef);
    x.prof = prof; x.opaque_num = !conc_num; x.xcheck = xcheck; x.trace = trace; x.max_steps = max_steps; x.z3_timeout = z3to;
    let mut have = true;
    let mut npaths = 0u64;
    let mut nw = 0usize;
    loop {
        if !have {
            match x.stack.pop() { Some(s) => { x.st = s; } None => break }
        }
        have = false;
        x.reach_path.clear();
        let end = x.run();
        let st_steps = x.st.steps;
        match end {
            End::Done => {
                npaths += 1;
                x.stats.paths += 1;
                x.stats.instrs += st_steps;
                x.stats.maxsteps = x.stats.maxsteps.max(st_steps);
                sh.paths.fetch_add(1, Relaxed);
                if cert > 0 && npaths % cert == 0 {
                    if let Err(e) = x.certify() { err(&out, sh, &format!("certificate: {e}")); }
                }
                if nw < maxwit { nw += 1; let n = x.st.dom.len(); x.witnesses.push(x.st.model[..n].to_vec()); }
                else if maxwit > 0 && npaths % 61 == 0 { let n = x.st.dom.len(); let k = (npaths / 61) as usize % maxwit; x.witnesses[k] = x.st.model[..n].to_vec(); }
            }
            End::Assumed => { x.stats.instrs += st_steps; }
            End::Fork => {}
            End::Violation(v) => {
                x.stats.paths += 1;
                x.stats.instrs += st_steps;
                let n = sh.nviol.fetch_add(1, SeqCst);
                if n < 64 {
                    let s = format!("{{\"kind\":\"{}\",\"code\":{},\"inputs\":{:?},\"where\":\"{}\"}}\n", v.kind, v.code, v.inputs, esc(&v.wheres));
                    std::fs::write(format!("{out}/viol.{n}.json"), s).unwrap();
                }
                if n + 1 >= maxviol && !keep { sh.stop.store(1, SeqCst); }
            }
            End::Error(e) => {
                let w = x.st.frames.last().map(|f| format!("{} pc {}", m.funcs[f.f as usize].name, f.pc)).unwrap_or_default();
                err(&out, sh, &format!("{e} in {w} inputs {:?}", &x.st.model[..x.st.dom.len()]));
                x.stats.err += 1;
                if sh.errors.load(SeqCst) > 20 { sh.stop.store(1, SeqCst); }
            }
        }
        if sh.stop.load(Relaxed) != 0 { break; }
        if t0.elapsed().as_secs() >= secs { sh.stop.store(2, SeqCst); break; }
        // hand half of the pending states to a new worker when there is a free slot
        while x.stack.len() >= 2 {
            let a = sh.active.load(SeqCst);
            if a >= jobs { break; }
            if sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { continue; }
            let p = unsafe { fork() };
            if p < 0 { sh.active.fetch_sub(1, SeqCst); break; }
            let half = x.stack.len() / 2;
            if p == 0 {
                sh.started.fetch_add(1, SeqCst);
                // child: the older half (closest to the root); fresh statistics
                x.stack.truncate(half.max(1));
                x.stats = Stats::default();
                x.reach.clear();
                x.forkprof.clear();
                for v in x.visited.iter_mut() { v.iter_mut().for_each(|b| *b = false); }
                x.witnesses.clear(); nw = 0; npaths = 0;
            } else { x.stack.drain(..half.max(1)); }
        }
    }
    // results of this worker
    let pid = unsafe { getpid() };
    let s = &x.stats;
    let mut o = String::new();
    o += &format!("{{\"paths\":{},\"instrs\":{},\"forks\":{},\"branches\":{},\"infeasible\":{},\"dom_queries\":{},\"model_hits\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_us\":{},\"cache_hits\":{},\"asserts\":{},\"concretised\":{},\"assumed\":{},\"certified\":{},\"xchecks\":{},\"max_path_instrs\":{},\"opaque_numbers\":{},\"pending\":{},\"exprs\":{}",
        s.paths, s.instrs, s.forks, s.br_sym, s.infeasible, s.dom_queries, s.model_hits, s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_us, s.cache_hits, s.asserts, s.concs, s.assumed, s.cert, s.xchecks, s.maxsteps, s.opaque, x.stack.len(), x.ar.nodes.len());
    let mut r: Vec<_> = x.reach.iter().collect(); r.sort();
    o += ",\"reach\":{"; o += &r.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","); o += "}";
    // visited source lines and functions
    let mut lines = std::collections::BTreeSet::new();
    let mut funcs = vec![];
    for (fi, f) in m.funcs.iter().enumerate() {
        if f.code.is_empty() || !x.visited[fi][0] { continue; }
        funcs.push(f.name.clone());
        let mut on = false;
        for (i, ins) in f.code.iter().enumerate() {
            if x.visited[fi][i] { on = true; }
            if on && f.lines[i] != 0 { lines.insert(f.lines[i]); }
            if matches!(ins, llvm::I::Br { .. } | llvm::I::CondBr { .. } | llvm::I::Switch { .. } | llvm::I::Ret { .. } | llvm::I::Unreachable) { on = false; }
        }
    }
    o += ",\"lines\":["; o += &lines.iter().map(|&l| { let (p, n) = &m.lines[l as usize]; format!("\"{}:{}\"", esc(p.trim_start_matches("/repo/")), n) }).collect::<Vec<_>>().join(","); o += "]";
    o += ",\"funcs\":["; o += &funcs.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(","); o += "]";
    o += ",\"witnesses\":["; o += &x.witnesses.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join(","); o += "]}\n";
    std::fs::write(format!("{out}/res.{pid}.json"), o).unwrap();
    if prof {
        let mut v: Vec<_> = x.forkprof.iter().collect();
        v.sort_by_key(|a| std::cmp::Reverse(*a.1));
        let mut f = std::fs::File::create(format!("{out}/prof.{pid}.txt")).unwrap();
        for ((fi, pc), n) in v.iter().take(60) {
            let fu = &m.funcs[*fi as usize];
            let l = fu.lines[*pc as usize]; let (p, ln) = &m.lines[l as usize];
            writeln!(f, "{n} {} pc {pc} {p}:{ln}", demangle_short(&fu.name)).unwrap();
        }
    }
    sh.active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}

fn err(out: &str, sh: &Shared, e: &str) {
    let n = sh.errors.fetch_add(1, SeqCst);
    if n < 20 { std::fs::write(format!("{out}/error.{n}.txt"), e).unwrap(); }
}
