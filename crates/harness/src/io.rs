//! The operating system below the command: files, standard streams and arguments, with faults.
//!
//! The C functions std calls are defined here. While the model is on they work on the files below; each call may
//! be cut short, interrupted or fail, by `choice`, within a budget. Off (native replay only), they pass through.
use super::sym::*;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void};

pub struct Os {
    pub on: bool,
    pub files: Vec<(String, Vec<u8>)>,
    pub stdin: Vec<u8>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// open descriptors, from 10: file, position, append
    fds: Vec<(usize, usize, bool)>,
    inpos: usize,
    pub budget: usize,
    /// faults only from the first to the second of these calls
    pub window: (usize, usize),
    calls: usize,
    /// an error was reported to the command
    pub hard: bool,
    /// reads and writes may be cut short (outside the budget: always to one byte)
    pub trickle: bool,
    pub finish: Option<fn(bool)>,
}
static mut OS: Os = Os { on: false, files: vec![], stdin: vec![], stdout: vec![], stderr: vec![], fds: vec![], inpos: 0, budget: 0, window: (0, usize::MAX), calls: 0, hard: false, trickle: false, finish: None };
pub fn os() -> &'static mut Os { unsafe { &mut *(&raw mut OS) } }
impl Os {
    pub fn find(&self, p: &str) -> Option<usize> { self.files.iter().position(|f| f.0 == p) }
}

#[cfg(feature = "ir")]
mod ir {
    use super::*;
    static mut ERRNO: c_int = 0;
    #[unsafe(no_mangle)]
    pub extern "C" fn __errno_location() -> *mut c_int { &raw mut ERRNO }
    #[unsafe(no_mangle)]
    pub extern "C" fn getenv(_: *const c_char) -> *const c_char { std::ptr::null() }
    #[unsafe(no_mangle)]
    pub extern "C" fn isatty(_: c_int) -> c_int { 0 }
    #[unsafe(no_mangle)]
    pub extern "C" fn __xpg_strerror_r(_: c_int, b: *mut u8, n: usize) -> c_int { if n > 1 { unsafe { *b = b'E'; *b.add(1) = 0; } } 0 }
    #[unsafe(no_mangle)]
    pub static mut VF_ARGC: isize = 0;
    #[unsafe(no_mangle)]
    pub static mut VF_ARGV: *const *const c_char = std::ptr::null();
    pub fn put(v: Vec<*const c_char>) {
        let v = Box::leak(v.into_boxed_slice());
        unsafe { VF_ARGC = v.len() as isize - 1; VF_ARGV = v.as_ptr(); }
    }
    pub unsafe fn pass(_: c_long, _: usize, _: usize, _: usize, _: usize, _: usize) -> c_long { fail(9999) }
}
#[cfg(not(feature = "ir"))]
mod ir {
    use super::*;
    unsafe extern "C" {
        pub fn __errno_location() -> *mut c_int;
        fn syscall(n: c_long, ...) -> c_long;
    }
    static mut ARGV: *mut *const c_char = std::ptr::null_mut();
    static mut ARGC: c_int = 0;
    #[used]
    #[unsafe(link_section = ".init_array")]
    static INIT: extern "C" fn(c_int, *mut *const c_char) = { extern "C" fn f(n: c_int, p: *mut *const c_char) { unsafe { ARGC = n; ARGV = p; } } f };
    /// overwrite the process's argument vector (the driver passes spare arguments)
    pub fn put(v: Vec<*const c_char>) {
        unsafe { assert!(v.len() <= ARGC as usize, "spare arguments"); for (i, p) in v.iter().enumerate() { *ARGV.add(i) = *p; } }
    }
    pub unsafe fn pass(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize) -> c_long { unsafe { syscall(n, a, b, c, d, e) } }
}
/// the command line, program name first
pub fn set_args(a: &[&str]) {
    let mut v: Vec<*const c_char> = a.iter().map(|s| { let mut b = s.as_bytes().to_vec(); b.push(0); Box::leak(b.into_boxed_slice()).as_ptr() as *const c_char }).collect();
    v.push(std::ptr::null());
    ir::put(v)
}
fn err(e: c_int) -> isize { unsafe { *ir::__errno_location() = e; } -1 }
const EINTR: c_int = 4;
enum Fault { None, Short, Intr, Err }
fn fault(short: bool) -> Fault {
    let o = os();
    o.calls += 1;
    if o.budget == 0 || o.calls <= o.window.0 || o.calls > o.window.1 { return if o.trickle { Fault::Short } else { Fault::None }; }
    match choice(if short { 4 } else { 3 }) {
        0 => if o.trickle && short { Fault::Short } else { Fault::None },
        1 => { o.budget -= 1; Fault::Intr }
        2 => { o.budget -= 1; o.hard = true; Fault::Err }
        _ => { o.budget -= 1; Fault::Short }
    }
}
fn put(fd: c_int, b: &[u8]) -> isize {
    let o = os();
    if fd == 2 { o.stderr.extend_from_slice(b); return b.len() as isize; }
    let mut n = b.len();
    match fault(n > 1) {
        Fault::None => (),
        Fault::Short => if n > 1 { n = if o.trickle { 1 } else { n / 2 } },
        Fault::Intr => return err(EINTR),
        Fault::Err => return if choice(2) == 0 { err(28) } else { 0 }, // no space, or nothing written
    }
    if fd == 1 { o.stdout.extend_from_slice(&b[..n]); return n as isize; }
    let Some(f) = o.fds.get_mut((fd - 10) as usize) else { return err(9) };
    let c = &mut o.files[f.0].1;
    if f.2 { f.1 = c.len(); }
    if c.len() < f.1 + n { c.resize(f.1 + n, 0); }
    c[f.1..f.1 + n].copy_from_slice(&b[..n]);
    f.1 += n;
    n as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    if !os().on { return unsafe { ir::pass(1, fd as usize, p as usize, n, 0, 0) as isize }; }
    put(fd, unsafe { std::slice::from_raw_parts(p, n) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, p: *const (*const u8, usize), n: c_int) -> isize {
    if !os().on { return unsafe { ir::pass(20, fd as usize, p as usize, n as usize, 0, 0) as isize }; }
    let mut all = vec![];
    for i in 0..n as usize { let (b, k) = unsafe { *p.add(i) }; all.extend_from_slice(unsafe { std::slice::from_raw_parts(b, k) }); }
    put(fd, &all)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if !os().on { return unsafe { ir::pass(0, fd as usize, p as usize, n, 0, 0) as isize }; }
    let o = os();
    let (src, pos) = if fd == 0 { (&o.stdin, &mut o.inpos) } else {
        let Some(f) = o.fds.get_mut((fd - 10) as usize) else { return err(9) };
        (&o.files[f.0].1, &mut f.1)
    };
    let mut k = n.min(src.len().saturating_sub(*pos));
    match fault(k > 1) {
        Fault::None => (),
        Fault::Short => if k > 1 { k = if o.trickle { 1 } else { k / 2 } },
        Fault::Intr => return err(EINTR),
        Fault::Err => return err(5),
    }
    unsafe { std::ptr::copy_nonoverlapping(src.as_ptr().add(*pos), p, k); }
    *pos += k;
    k as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !os().on { return unsafe { ir::pass(2, p as usize, flags as usize, mode as usize, 0, 0) as c_int }; }
    let o = os();
    let name = unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap().to_string();
    match fault(false) { Fault::Intr => return err(EINTR) as c_int, Fault::Err => return err(13) as c_int, _ => () }
    let i = match o.find(&name) {
        Some(i) => { if flags & 0o300 == 0o300 { o.hard = true; return err(17) as c_int; } i }
        None if flags & 0o100 != 0 => { o.files.push((name, vec![])); o.files.len() - 1 }
        None => { o.hard = true; return err(2) as c_int; }
    };
    if flags & 0o1000 != 0 && flags & 3 != 0 { o.files[i].1.clear(); }
    o.fds.push((i, 0, flags & 0o2000 != 0));
    (o.fds.len() + 9) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !os().on { return unsafe { ir::pass(3, fd as usize, 0, 0, 0, 0) as c_int }; }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, how: c_int) -> i64 {
    if !os().on { return unsafe { ir::pass(8, fd as usize, off as usize, how as usize, 0, 0) as i64 }; }
    let o = os();
    let Some(f) = o.fds.get_mut((fd - 10) as usize) else { return err(29) as i64 };
    let base = match how { 0 => 0, 1 => f.1 as i64, _ => o.files[f.0].1.len() as i64 };
    f.1 = (base + off) as usize;
    f.1 as i64
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if !os().on { return unsafe { ir::pass(77, fd as usize, len as usize, 0, 0, 0) as c_int }; }
    let o = os();
    let Some(f) = o.fds.get_mut((fd - 10) as usize) else { return err(22) as c_int };
    o.files[f.0].1.resize(len as usize, 0);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !os().on { return unsafe { ir::pass(74, fd as usize, 0, 0, 0, 0) as c_int }; }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, how: c_int, a: usize) -> c_int {
    if !os().on { return unsafe { ir::pass(72, fd as usize, how as usize, a, 0, 0) as c_int }; }
    0
}
/// not available: std falls back to fstat
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    if !os().on { return unsafe { ir::pass(332, fd as usize, p as usize, flags as usize, mask as usize, buf as usize) as c_int }; }
    err(38) as c_int
}
unsafe fn fill(buf: *mut u8, file: Option<usize>) -> c_int {
    // struct stat of x86-64: st_mode, st_size. Sizes are only hints: some files report none.
    unsafe {
        std::ptr::write_bytes(buf, 0, 144);
        *(buf.add(24) as *mut u32) = if file.is_some() { 0o100644 } else { 0o10600 };
        if let Some(i) = file { if choice(2) == 0 { *(buf.add(48) as *mut u64) = os().files[i].1.len() as u64; } }
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if !os().on { return unsafe { ir::pass(5, fd as usize, buf as usize, 0, 0, 0) as c_int }; }
    if fd > 2 && os().fds.len() as c_int + 10 <= fd { return err(9) as c_int; }
    unsafe { fill(buf, if fd < 10 { None } else { Some(os().fds[(fd - 10) as usize].0) }) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut u8) -> c_int {
    if !os().on { return unsafe { ir::pass(4, p as usize, buf as usize, 0, 0, 0) as c_int }; }
    let name = unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap();
    match os().find(name) { None => err(2) as c_int, f => unsafe { fill(buf, f) } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    if !os().on { return unsafe { ir::pass(82, p as usize, q as usize, 0, 0, 0) as c_int }; }
    let (p, q) = unsafe { (std::ffi::CStr::from_ptr(p).to_str().unwrap(), std::ffi::CStr::from_ptr(q).to_str().unwrap()) };
    let o = os();
    let Some(i) = o.find(p) else { return err(2) as c_int };
    if let Some(j) = o.find(q) { if i != j { o.files[j].0.clear(); } }
    o.files[i].0 = q.to_string();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !os().on { return unsafe { ir::pass(87, p as usize, 0, 0, 0, 0) as c_int }; }
    let Some(i) = os().find(unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap()) else { return err(2) as c_int };
    os().files[i].0.clear();
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if os().on { end(code == 0); }
    unsafe { ir::pass(231, code as usize, 0, 0, 0, 0); }
    loop {}
}
unsafe extern "C-unwind" {
    safe fn vf_done() -> !;
}
pub fn end(success: bool) -> ! {
    let o = os();
    o.on = false;
    if let Some(f) = o.finish { f(success); }
    vf_done()
}
