//! C01 round trip, C03 canonical text: same values, different assertions.
use super::model::*;
use super::sym::*;
use super::util::*;

/// encode, strictly decode with the same indent, compare
pub fn rt(v: &JsonValue, o: Opt) {
    let e = encode(v.clone(), o.enc());
    note(&e);
    let w = try_decode(&e, o.dec(true, false));
    reach(1);
    match w { Ok(w) => check(w == as_decoded(v), 2), Err(_) => fail(1) }
}
/// the emitted text is the model's
pub fn canon(v: &JsonValue, o: Opt) {
    let e = encode(v.clone(), o.enc());
    note(&e);
    let m = encode_model(v, o);
    reach(1);
    check(e == m, 3);
}
type F = fn(&JsonValue, Opt);

fn root_string(f: F) { let s = utf8(3); f(&JsonValue::from(s), Opt::new(',', 2)); }
fn shapes(f: F) { let o = opts(); f(&value(2, 2, 2), o); }
fn wrapped(f: F, n: usize) {
    let v = value(1, 2, 2);
    let v = match choice(2) { 0 => v, _ => table(2, 2) };
    let mut v = v;
    for _ in 0..n { v = wrap(choice(NWRAP), v); }
    let o = Opt::new(delim(), 2);
    f(&v, o);
}
fn tables(f: F) { let o = opts(); let t = table(3, 3); let v = match choice(5) { 0 => t, c => wrap([0, 7, 8, 5][c - 1], t) }; f(&v, o); }

pub fn c01_root_string() { root_string(rt) }
pub fn c03_root_string() { root_string(canon) }
pub fn c01_shapes() { shapes(rt) }
pub fn c03_shapes() { shapes(canon) }
pub fn c01_wrap2() { wrapped(rt, 2) }
pub fn c03_wrap2() { wrapped(canon, 2) }
pub fn c01_wrap3() { wrapped(rt, 3) }
pub fn c03_wrap3() { wrapped(canon, 3) }
pub fn c01_tables() { tables(rt) }
pub fn c03_tables() { tables(canon) }
fn sizes(f: F) { let o = Opt::new(delim(), 2); f(&big(), o); }
fn deeps(f: F) { let o = Opt::new(',', [2, 1][choice(2)]); f(&deep(&[3, 4, 5, 6, 8, 11, 17]), o); }
fn keys2(f: F) {
    // object keys of two arbitrary bytes, next to fixed ones, with container values
    let k = ascii(2);
    let v = match choice(4) { 0 => num(1.0), 1 => obj(vec![("a", null())]), 2 => arr(vec![num(1.0)]), _ => arr(vec![obj(vec![("a", null())])]) };
    let o = vec![("abc".to_string(), num(1.0)), (k, v), ("xyz".to_string(), obj(vec![]))];
    let v = match choice(2) { 0 => JsonValue::Object(o), _ => arr(vec![JsonValue::Object(o)]) };
    f(&v, Opt::new(',', 2));
}
fn strings(f: F) {
    let c = choice(super::p_strings::NPOS);
    let s = ascii(2);
    assume(!(matches!(c, 8 | 16 | 17 | 25) && s == "k "));
    f(&super::p_strings::at(c, &s), Opt::new(delim(), 2));
}
pub fn c01_sizes() { sizes(rt) }
pub fn c03_sizes() { sizes(canon) }
pub fn c01_deep() { deeps(rt) }
pub fn c03_deep() { deeps(canon) }
pub fn c01_keys() { keys2(rt) }
pub fn c03_strings() { strings(canon) }
pub fn c03_affix() {
    let c = [1, 2, 4, 6, 7, 9][choice(6)];
    let s = super::p_strings::affixed(1);
    canon(&super::p_strings::at(c, &s), Opt::new(delim(), 2));
}
pub fn c01_shapes3() { let o = Opt::new(',', 2); rt(&value(2, 3, 1), o); }
pub fn c03_shapes3() { let o = Opt::new(',', 2); canon(&value(2, 3, 1), o); }
pub fn c01_wrap1() { wrapped(rt, 1) }
pub fn c03_wrap1() { wrapped(canon, 1) }

pub fn c01_mixed() { rt(&mixed(3), Opt::new(',', 2)) }
pub fn c03_mixed() { canon(&mixed(3), Opt::new(',', 2)) }
