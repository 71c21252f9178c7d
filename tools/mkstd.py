#!/usr/bin/env python3
"""Make a copy of rust-src's `library/` in which word-at-a-time and hashing tricks are replaced by
their plain (byte-by-byte) equivalents, and the decimal->f64 rounding step by a call to
`vf_num_to_f64`.  Only the IR build of the harness uses it; replay binaries use the stock std.

Every replacement is exact-text and must match once: a toolchain with a different std makes this fail loudly.
"""
import os, shutil, subprocess, sys

src, dst = sys.argv[1], sys.argv[2]
if os.path.exists(dst):
    shutil.rmtree(dst)
os.makedirs(os.path.dirname(dst), exist_ok=True)
subprocess.check_call(["cp", "-a", src, dst])


def sub(path, old, new):
    p = os.path.join(dst, path)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f"mkstd: {path}: expected exactly one match, found {s.count(old)}: {old[:60]!r}")
    open(p, "w").write(s.replace(old, new))


# memchr / memrchr: byte loops
sub("core/src/slice/memchr.rs",
    "if text.len() < 2 * USIZE_BYTES { memchr_naive(x, text) } else { memchr_aligned(x, text) };",
    "if true { memchr_naive(x, text) } else { memchr_aligned(x, text) };")
sub("core/src/slice/memchr.rs",
    "    let result = memrchr_aligned(x, text);\n",
    "    let result = if true { text.iter().rposition(|e| *e == x) } else { memrchr_aligned(x, text) };\n")
# is_ascii: byte loop
sub("core/src/slice/ascii.rs",
    "            if bytes.len() < SIMD_MIN_LEN {\n",
    "            if true { return bytes.iter().all(|b| b.is_ascii()); }\n            if bytes.len() < SIMD_MIN_LEN {\n")
sub("core/src/slice/ascii.rs", "            if self.len() >= CHUNK_SIZE {\n", "            if false && self.len() >= CHUNK_SIZE {\n")
# chars().count(): byte loop
sub("core/src/str/count.rs",
    'if cfg!(feature = "optimize_for_size") || s.len() < USIZE_SIZE * UNROLL_INNER {', "if true {")
# utf8 validation: byte loop
sub("core/src/str/validations.rs",
    "if align != usize::MAX && align.wrapping_sub(index).is_multiple_of(USIZE_BYTES) {",
    "if false && align != usize::MAX && align.wrapping_sub(index).is_multiple_of(USIZE_BYTES) {")
# hashing: a constant hash (every key in one bucket; set/map semantics do not depend on the hash)
sub("std/src/hash/random.rs", "        self.0.write(msg)\n", "        let _ = msg;\n")
sub("std/src/hash/random.rs", "        self.0.write_str(s);\n", "        let _ = s;\n")
sub("std/src/hash/random.rs", "    fn finish(&self) -> u64 {\n        self.0.finish()\n",
    "    fn finish(&self) -> u64 {\n        0\n")
# f64 from decimal mantissa/exponent: one opaque call
sub("core/src/num/imp/dec2flt/mod.rs",
    "    num.negative = negative;\n    if !cfg!",
    """    num.negative = negative;
    if size_of::<F>() == 8 && !num.many_digits {
        unsafe extern "C" {
            safe fn vf_num_to_f64(mantissa: u64, exponent: i64, negative: bool) -> u64;
        }
        let bits = vf_num_to_f64(num.mantissa, num.exponent, negative);
        // SAFETY: F is f64 here.
        return Ok(unsafe { crate::mem::transmute_copy::<u64, F>(&bits) });
    }
    if !cfg!""")
p = os.path.join(dst, "core/src/num/imp/dec2flt/parse.rs")
s = open(p).read()
if "    while s.len() >= 8 {\n" not in s:
    sys.exit("mkstd: dec2flt/parse.rs: no 8-digit loop")
open(p, "w").write(s.replace("    while s.len() >= 8 {\n", "    while false && s.len() >= 8 {\n"))
print("patched std at", dst)

# the argument vector: the harness's (crates/harness/src/io.rs)
sub("std/src/sys/args/unix.rs",
    "        let argv = ARGV.load(Ordering::Relaxed);\n",
    """        unsafe extern "C" { static mut VF_ARGC: isize; static mut VF_ARGV: *const *const c_char; }
        if true { return unsafe { (VF_ARGC, VF_ARGV) }; }
        let argv = ARGV.load(Ordering::Relaxed);
""")
