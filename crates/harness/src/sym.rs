//! The engine's interface. Each call that yields a value is one recorded input.
unsafe extern "C-unwind" {
    safe fn vf_byte() -> u8;
    safe fn vf_range(lo: u8, hi: u8) -> u8;
    safe fn vf_choice(n: u32) -> u32;
    safe fn vf_assume(c: bool);
    safe fn vf_assert(c: bool, code: u32);
    safe fn vf_fail(code: u32) -> !;
    safe fn vf_reach(code: u32);
    safe fn vf_expect_panic();
    fn vf_note(p: *const u8, n: usize);
}
/// any byte
pub fn byte() -> u8 { vf_byte() }
/// any byte in lo..=hi (symbolic)
pub fn range(lo: u8, hi: u8) -> u8 { vf_range(lo, hi) }
/// any of 0..n; the executor forks here, so the value is concrete on each path
pub fn choice(n: usize) -> usize { if n <= 1 { 0 } else { vf_choice(n as u32) as usize } }
pub fn flag() -> bool { choice(2) == 1 }
pub fn assume(c: bool) { vf_assume(c) }
/// the property: must hold on every path
pub fn check(c: bool, code: u32) { vf_assert(c, code) }
pub fn fail(code: u32) -> ! { vf_fail(code) }
/// from here on a panic is the right outcome: it ends the path
pub fn expect_panic() { vf_expect_panic() }
/// vacuity witness: the driver requires every listed code to be reached
pub fn reach(code: u32) { vf_reach(code) }
/// text for the replay log (ignored by the engine)
pub fn note(s: &str) { unsafe { vf_note(s.as_ptr(), s.len()) } }

macro_rules! entries {
    ($e:ident; $($m:ident : $($n:ident),+ $(,)?);* $(;)?) => {
        $($(
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $n() { $m::$n() }
        )+)*
        pub const $e: &[(&str, fn())] = &[$($((stringify!($n), $m::$n as fn())),+),*];
    };
}
