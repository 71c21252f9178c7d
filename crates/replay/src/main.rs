//! replay ENTRY: reads one input vector per line ("1 2 3"), runs the entry on it natively, prints one JSON line each.
#[path = "../../harness/src/lib.rs"]
mod harness;
use std::cell::RefCell;
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::panic::{catch_unwind, panic_any, set_hook};

#[derive(Default)]
struct S { inp: Vec<u64>, pos: usize, reach: Vec<u32>, notes: Vec<String>, msg: String }
thread_local!(static S: RefCell<S> = RefCell::new(S::default()));
struct Assumed;
struct Violation(u32);
struct Bad(&'static str);

fn bad(s: &'static str) -> ! { if DIRECT.load(Relaxed) { S.with_borrow_mut(|x| x.msg = s.into()); leave("bad", 0) } panic_any(Bad(s)) }
fn next() -> u64 {
    let r = S.with_borrow_mut(|s| { let v = s.inp.get(s.pos).copied(); s.pos += 1; v });
    match r { Some(v) => v, None => bad("inputs exhausted") }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_byte() -> u8 { next() as u8 }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_range(lo: u8, hi: u8) -> u8 { let v = next() as u8; if v < lo || v > hi { bad("range") } v }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_choice(n: u32) -> u32 { let v = next() as u32; if v >= n { bad("choice") } v }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_assume(c: bool) { if !c { if DIRECT.load(Relaxed) { leave("assumed", 0) } panic_any(Assumed) } }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_assert(c: bool, code: u32) { if !c { vf_fail(code) } }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_fail(code: u32) -> ! { if DIRECT.load(Relaxed) { leave("violation", code) } panic_any(Violation(code)) }
static PANIC_OK: AtomicBool = AtomicBool::new(false);
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_expect_panic() { PANIC_OK.store(true, Relaxed) }
static DIRECT: AtomicBool = AtomicBool::new(false);
/// from here on a run ends with the process (its frames cannot be unwound)
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_direct() { DIRECT.store(true, Relaxed) }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_done() -> ! { leave("done", 0) }
fn leave(end: &str, code: u32) -> ! {
    harness::io::os().on = false;
    DIRECT.store(false, Relaxed);
    let t = record(end, code) + "\n";
    unsafe { harness::io::write(1, t.as_ptr(), t.len()); harness::io::exit(0) }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_reach(code: u32) { S.with_borrow_mut(|s| s.reach.push(code)) }
#[unsafe(no_mangle)]
extern "C-unwind" fn vf_note(p: *const u8, n: usize) {
    let t = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned();
    S.with_borrow_mut(|s| s.notes.push(t))
}

fn esc(s: &str) -> String { serde_json::to_string(s).unwrap() }

/// one line of JSON; "last" when the process ends with it
fn record(end: &str, code: u32) -> String { let last = harness::io::os().finish.is_some(); S.with_borrow(|s| format!("{{\"last\":{last},\"end\":\"{end}\",\"code\":{code},\"used\":{},\"reach\":{:?},\"msg\":{},\"notes\":[{}]}}", s.pos, s.reach, esc(&s.msg), s.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","))) }

fn main() {
    let entry = std::env::args().nth(1).unwrap();
    let Some(f) = harness::find(&entry) else { eprintln!("no entry {entry}"); std::process::exit(2) };
    set_hook(Box::new(|i| S.with_borrow_mut(|s| s.msg = i.to_string())));
    // deep recursion in the code under test must not be limited by the main thread's stack alone
    // not through std's stdin, which the command may read
    let stdin = std::io::BufReader::new(std::fs::File::open("/dev/stdin").unwrap());
    for line in stdin.lines() {
        let inp: Vec<u64> = line.unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        S.with_borrow_mut(|s| *s = S { inp, ..S::default() });
        PANIC_OK.store(false, Relaxed);
        let r = catch_unwind(f);
        let (end, code) = match r {
            Ok(()) => ("done", 0),
            Err(e) => if e.is::<Assumed>() { ("assumed", 0) } else if let Some(v) = e.downcast_ref::<Violation>() { ("violation", v.0) } else if let Some(b) = e.downcast_ref::<Bad>() { (b.0, 0) } else if PANIC_OK.load(Relaxed) { ("done", 0) } else { ("panic", 0) },
        };
        harness::io::os().on = false;
        println!("{}", record(end, code));
        if DIRECT.load(Relaxed) { std::process::exit(0) }
    }
}
