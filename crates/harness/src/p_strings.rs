//! C02: strings and keys in every position.
use super::p_roundtrip::rt;
use super::sym::*;
use super::util::*;

pub const NPOS: usize = 26;
/// a value that has `s` in position c
pub fn at(c: usize, s: &str) -> JsonValue {
    let v = || st(s);
    let one = || num(1.0);
    let x = || st("x");
    match c {
        0 => v(),
        1 => obj(vec![("k", v())]),
        2 => obj(vec![(s, one())]),
        3 => arr(vec![v()]),
        4 => arr(vec![x(), v(), x()]),
        5 => arr(vec![obj(vec![("k", v())])]),
        6 => arr(vec![obj(vec![("k", x()), ("l", v())]), obj(vec![("k", v()), ("l", x())])]),
        7 => arr(vec![obj(vec![(s, one())])]),
        8 => arr(vec![obj(vec![("k ", x()), (s, one())]), obj(vec![("k ", x()), (s, one())])]),
        9 => arr(vec![v(), arr(vec![])]),
        10 => obj(vec![(s, obj(vec![("k", x())]))]),
        11 => obj(vec![(s, obj(vec![]))]),
        12 => obj(vec![(s, arr(vec![one(), x()]))]),
        13 => obj(vec![(s, arr(vec![]))]),
        14 => obj(vec![(s, arr(vec![obj(vec![("k", x())])]))]),
        15 => obj(vec![(s, arr(vec![one(), obj(vec![])]))]),
        16 => arr(vec![obj(vec![(s, x()), ("k ", arr(vec![arr(vec![])]))]), one()]),
        17 => arr(vec![obj(vec![("k ", x()), (s, one())]), one()]),
        18 => arr(vec![obj(vec![("k", v()), ("l", v())]), one()]),
        19 => arr(vec![obj(vec![(s, arr(vec![v(), v()]))]), one()]),
        20 => arr(vec![obj(vec![(s, arr(vec![obj(vec![("k", v())])]))]), one()]),
        21 => arr(vec![obj(vec![(s, obj(vec![("k", v())]))]), one()]),
        22 => arr(vec![arr(vec![v(), v()]), arr(vec![])]),
        23 => obj(vec![("k", obj(vec![(s, v())])), ("l", x())]),
        24 => obj(vec![("k", arr(vec![v(), v()])), ("l", arr(vec![obj(vec![("m", v())])]))]),
        _ => arr(vec![obj(vec![(s, arr(vec![arr(vec![v()]), one()])), ("k ", v())])]),
    }
}
fn go(c: usize, s: &str, o: Opt) {
    if s == "k " || s == "k" || s == "l" { assume(!matches!(c, 8 | 16 | 17 | 25)); }
    rt(&at(c, s), o)
}
pub fn c02_ascii2() { let c = choice(NPOS); let s = ascii(2); go(c, &s, Opt::new(delim(), 2)) }
pub fn c02_ascii1() { let c = choice(NPOS); let n = choice(2); let s = ascii(n); go(c, &s, Opt::new(delim(), 1)) }
const MAIN: [usize; 8] = [0, 1, 2, 4, 6, 7, 9, 12];
pub fn c02_ascii3() { let c = MAIN[choice(8)]; let s = ascii(3); go(c, &s, Opt::new([',', '|'][choice(2)], 2)) }
pub fn c02_ascii4() { let c = MAIN[choice(8)]; let s = ascii(4); go(c, &s, Opt::new(delim(), 2)) }
pub fn c02_utf8() { let c = MAIN[choice(8)]; let s = utf8(4); go(c, &s, Opt::new(',', 2)) }

const PRE: [&str; 24] = ["", "-", "- ", "0", "-0", "1.", "1e", "-1.5E", "tru", "fals", "nul", "[", "[1]", "[2", "a[1]", "a{b}", "\"", "a:", "a: ", "\u{e9}", "\u{2003}", "ab cd", "12345678901234567", "a.b."];
const SUF: [&str; 6] = ["", ":", " ", "]: x", "\"", "}:"];
pub fn affixed(n: usize) -> String { [PRE[choice(PRE.len())], &ascii(n), SUF[choice(SUF.len())]].concat() }
fn affix(n: usize) {
    let c = MAIN[choice(8)];
    let s = affixed(n);
    go(c, &s, Opt::new(delim(), 2))
}
pub fn c02_affix1() { affix(1) }
pub fn c02_affix2() { affix(2) }
/// two symbolic strings next to each other
pub fn c02_pair() {
    let (a, b) = (ascii(2), ascii(2));
    let v = match choice(5) {
        0 => { assume(a != b); JsonValue::Object(vec![(a, num(1.0)), (b, num(2.0))]) }
        1 => arr(vec![JsonValue::from(a), JsonValue::from(b)]),
        2 => { assume(a != b); arr(vec![JsonValue::Object(vec![(a, num(1.0)), (b, num(2.0))])]) }
        3 => kv(a, JsonValue::from(b)),
        _ => kv(a, arr(vec![JsonValue::from(b), num(1.0)])),
    };
    rt(&v, Opt::new(',', 2))
}
const LENS: [usize; 16] = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1025];
/// long strings with one arbitrary byte at the start, in the middle or at the end
pub fn c02_long() {
    let c = MAIN[choice(8)];
    let n = LENS[choice(LENS.len())];
    let fill = [b'a', b'7', b' '][choice(3)];
    let mut b = vec![fill; n];
    if fill == b' ' { b[0] = b'x'; b[n - 1] = b'y'; }
    b[[0, n / 2, n - 1][choice(3)]] = range(0, 127);
    go(c, &string(b), Opt::new(',', 2))
}

/// long strings of wide characters with one ASCII byte anywhere
pub fn c02_long8() {
    let c = MAIN[choice(8)];
    let l = long8();
    let b = ascii(1);
    let s = match choice(3) { 0 => [&b, &l[..]].concat(), 1 => [&l[..], &b].concat(), _ => [&l[..], &b, &l[..]].concat() };
    go(c, &s, Opt::new(',', 2))
}
