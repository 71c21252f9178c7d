//! Sizes beyond every plausible threshold (1000, 1024, 2048, 4096, 65536): one symbolic or deviating element somewhere in them.
use super::model::*;
use super::sym::*;
use super::util::*;
use toon::JsonValue;

const N1: [usize; 2] = [1030, 4100];
pub const N2: usize = 65540;
fn at(n: usize) -> usize { [0, n / 2 + 1, n - 1][choice(3)] }

/// containers of 1030 or 4100 elements
pub fn wide() -> JsonValue {
    let c = choice(7);
    let n = N1[choice(if c == 3 { 1 } else { 2 })];
    let at = at(n);
    let spec = |i: usize, d: JsonValue, s: JsonValue| if i == at { s } else { d };
    let f = flag();
    let s = letter();
    let v = match c {
        0 => arr((0..n).map(|i| spec(i, num(i as f64), if f { st(&s) } else { arr(vec![]) })).collect()),
        1 => arr((0..n).map(|i| spec(i, obj(vec![("a", num(i as f64)), ("b", null())]), if f { obj(vec![("a", num(1.0)), ("b", st(&s))]) } else { obj(vec![("a", num(1.0)), ("b", null()), ("c", null())]) })).collect()),
        2 => arr((0..n).map(|i| spec(i, obj(vec![("a", arr(vec![num(1.0)]))]), if f { obj(vec![("a", arr(vec![])), ("b", st(&s))]) } else { num(5.0) })).collect()),
        3 => JsonValue::Object((0..n).map(|i| (key_no(i), spec(i, num(1.0), if f { arr(vec![st(&s)]) } else { obj(vec![]) }))).collect()),
        4 => { let r = |q: bool| JsonValue::Object((0..400).map(|i| (key_no(i), if q && i == at % 400 { st(&s) } else { num(1.0) })).collect()); arr(vec![r(false), r(f)]) }
        5 => arr((0..n).map(|i| spec(i, arr(vec![num(i as f64)]), if f { arr(vec![st(&s), obj(vec![])]) } else { obj(vec![]) })).collect()),
        _ => arr((0..n).map(|i| spec(i, obj(vec![]), if f { st(&s) } else { obj(vec![("k", arr(vec![obj(vec![("x", st(&s))])]))]) })).collect()),
    };
    match choice(2) { 0 => v, _ => obj(vec![("k", v), ("z", num(1.0))]) }
}
/// one text of n bytes with an arbitrary byte in it
pub fn long(n: usize) -> String {
    let at = [0, 1, n / 2, n - 1][choice(4)];
    let f = [b'a', b'"', b'7', b','][choice(4)];
    string((0..n).map(|i| if i == at { range(0, 127) } else { f }).collect())
}
pub fn lengths() -> JsonValue {
    let s = long([1030, 4100, N2][choice(3)]);
    match choice(4) { 0 => JsonValue::from(s), 1 => kv(s, num(1.0)), 2 => arr(vec![num(1.0), JsonValue::from(s)]), _ => arr(vec![kv("f".into(), num(1.0)), kv("f".into(), JsonValue::from(s))]) }
}
/// more than 2^16 elements
pub fn vast() -> JsonValue {
    let s = letter();
    let at = N2 - 1;
    match choice(3) {
        0 => kv("k".into(), arr((0..N2).map(|i| if i == at { st(&s) } else { num(1.0) }).collect())),
        1 => arr((0..N2).map(|i| obj(vec![("a", if i == at { st(&s) } else { null() })])).collect()),
        _ => arr((0..N2).map(|i| if i == at { st(&s) } else { arr(vec![]) }).collect()),
    }
}
use super::docs::Doc;
use super::{p_decode, p_encode, p_fold, p_grammar, p_json, p_roundtrip};
type F = fn(&JsonValue, Opt);
fn o() -> Opt { Opt::new(',', 2) }
pub fn c01_wide() { p_roundtrip::rt(&wide(), o()) }
pub fn c01_lengths() { p_roundtrip::rt(&lengths(), o()) }
pub fn c01_vast() { p_roundtrip::rt(&vast(), o()) }
pub fn c03_wide() { p_roundtrip::canon(&wide(), o()) }
pub fn c03_lengths() { p_roundtrip::canon(&lengths(), o()) }
pub fn c03_vast() { p_roundtrip::canon(&vast(), o()) }
pub fn c08_wide() { p_grammar::reads(&wide(), 2, 0) }
/// the same form nested to a depth beyond the sizes of small integers and of the expansion limit
pub fn c08_depths() {
    let n = [40, 130, 255, 256, 257, 300][choice(6)];
    let w = choice(NWRAP - 2);
    let mut v = JsonValue::from(letter());
    for _ in 0..n { v = wrap(w, v); }
    p_grammar::reads(&v, [2, 1][choice(2)], 0)
}
pub fn c08_lengths() { p_grammar::reads(&lengths(), 2, 0) }
pub fn c14_wide() { p_encode::streams(&wide(), o()) }
pub fn c14_lengths() { p_encode::streams(&lengths(), o()) }
pub fn c15_enc_wide() { p_encode::same_async(&wide(), o()) }
pub fn c16_wide() { p_json::written(&wide(), [2, 0][choice(2)]) }
pub fn c16_lengths() { p_json::written(&lengths(), 2) }
pub fn c17_wide() { p_json::convert(&wide()) }
pub fn c17_lengths() { p_json::convert(&lengths()) }
/// chains among many siblings, chains in many elements
fn folded(f: F) {
    let n = N1[choice(2)];
    let at = at(n);
    let l = JsonValue::from(letter());
    let chain = |v: JsonValue| obj(vec![("p", obj(vec![("q", obj(vec![("r", v)]))]))]);
    let v = match choice(4) {
        0 => { let n = 1030; JsonValue::Object((0..n).map(|i| (key_no(i), if i == at.min(n - 1) { chain(l.clone()) } else { num(1.0) })).collect()) }
        1 => JsonValue::Object((0..700).map(|i| (key_no(i), if i == at % 700 { chain(l.clone()) } else { obj(vec![("p", num(1.0))]) })).collect()),
        2 => obj(vec![("k", arr((0..n).map(|i| if i == at { chain(l.clone()) } else { obj(vec![("p", obj(vec![("q", num(2.0))]))]) }).collect())), ("z", chain(num(1.0)))]),
        _ => arr((0..n).map(|i| if i == at { obj(vec![("a", num(1.0)), ("b", chain(l.clone()))]) } else { num(1.0) }).collect()),
    };
    f(&v, Opt { fold: Some([usize::MAX, 3, 2][choice(3)]), ..o() })
}
pub fn c04_wide() { folded(p_fold::restore) }
pub fn c05_wide() { folded(p_fold::exact) }
/// many dotted keys under one prefix, one of them conflicting
pub fn c06_wide() {
    use p_fold::{N, nv};
    let n = 700;
    let at = at(n);
    let mut f: Vec<(String, bool, N)> = match choice(3) {
        0 => (0..n).map(|i| (["a.b.", &key_no(i)].concat(), false, nv(i))).collect(),
        1 => (0..n).map(|i| ([&key_no(i), ".x"].concat(), false, nv(i))).collect(),
        _ => (0..n).map(|i| ([&key_no(i), "y"].concat(), false, nv(i))).collect(),
    };
    let l = letter();
    match choice(4) { 0 => (), 1 => f[at].0 = ["a.b.", &l, ".c"].concat(), 2 => f[at].0 = ["a.", &l].concat(), _ => f[at] = ("a.b".into(), flag(), nv(0)) }
    p_fold::go(f)
}
/// long documents with one line in it that is out of order
fn text() -> String { doc(1).text }
fn doc(sizes: usize) -> Doc {
    let c = choice(9);
    let n = N1[choice(if c == 0 || c == 7 { 1 } else { sizes })];
    let at = at(n);
    let mut l: Vec<String> = match c {
        0 => (0..n).map(|i| [&key_no(i), ": 1"].concat()).collect(),
        1 => (0..n).map(|i| if i == 0 { "a: 1".to_string() } else if i == n - 1 { "b: 1".to_string() } else { String::new() }).collect(),
        2 => (0..n).map(|i| if i == 0 { format!("k[{}]:", n - 1) } else { "  - 1".to_string() }).collect(),
        3 => (0..n).map(|i| if i == 0 { format!("k[{}]{{a,b}}:", n - 1) } else { "  1,2".to_string() }).collect(),
        4 => (0..n).map(|i| if i == 0 { format!("[{}]:", n / 2) } else if i % 2 == 1 { "  - a: 1".to_string() } else { "    b: 2".to_string() }).collect(),
        5 => (0..n).map(|i| if i == 0 { "a:".to_string() } else { format!("  {}: 1", key_no(i)) }).take(600).collect(),
        6 => vec![format!("k[{}]: {}1", n, "1,".repeat(n - 1)), "b: 1".into()],
        7 => (0..[100, 270][choice(2)]).map(|i| format!("{}a:", " ".repeat(2 * i))).collect(),
        _ => vec!["a: 1".into(), format!("b: \"{}\"", "\\\"".repeat(n)), format!("{}: {}", "k".repeat(n), "v ".repeat(n))],
    };
    let at = at.min(l.len() - 1);
    let d = letter();
    let mut must = vec!["Vq".to_string()];
    match choice(9) {
        0 => must.clear(),
        1 => { l[at] = format!("kq: Vq{d}") }
        2 => { l[at] = format!("  - Vq{d}") }
        3 => { l[at] = format!("  Vq,{d}") }
        4 => l.insert(at, format!("Vq{d}: 1")),
        5 => l.insert(at, format!("    - Vq{d}: {d}")),
        6 => { l.remove(at); must.clear() }
        7 => { l[at] += " Vq" }
        _ => { l.insert(at, String::new()); must.clear() }
    }
    Doc { text: l.join("\n"), must }
}
pub fn c07_huge() { p_decode::total(&doc(2).text, 2) }
pub fn c11_huge() { p_decode::within(&text(), 2, flag()) }
pub fn c12_huge() { let s = text(); p_decode::agree(&s, 2, flag()) }
pub fn c13_huge() { p_decode::wf(&doc(2).text, 2) }
pub fn c15_huge() { p_decode::same_async(&text(), 2) }
pub fn c25_huge() { p_decode::placed(&doc(2), 2) }
/// declared counts far from the truth, also by multiples of 2^8 and 2^16
pub fn c09_huge() {
    let (n, f) = (choice(7), choice(p_grammar::FORMS));
    let (n, d) = match n { 0 => (1030, 1030), 1 => (4100, 4100), 2 => (1030, 6), 3 => (4100, 4), 4 => (3, 259), 5 => (3, 65539), _ => (1030, 1031) };
    let s = p_grammar::placed(f, &d.to_string(), n, choice(p_grammar::PLACES));
    let strict = try_decode(&s, dec(2, true, false));
    if d == n { reach(1); check(strict.is_ok(), 4) } else { reach(2); check(strict.is_err(), 5) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 6);
}
pub fn c09_vast() {
    let f = [0, 2, 1][choice(3)];
    let s = p_grammar::placed(f, "4", N2, choice(2));
    match try_decode(&s, dec(2, true, false)) { Ok(_) => fail(5), Err(_) => reach(2) }
    match try_decode(&s, dec(2, false, false)) { Ok(_) => reach(1), Err(_) => fail(6) }
}
/// the number of a line far down
pub fn c10_far() {
    let n = [300, 1030, 4100, 70000][choice(4)];
    let mut l: Vec<String> = match choice(3) {
        0 => (0..n).map(|i| if i == 0 { "a: 1".to_string() } else { String::new() }).collect(),
        1 => (0..n).map(|i| if i == 0 { "k:".to_string() } else if i + 600 < n { String::new() } else { format!("  {}: 1", key_no(i % 676)) }).collect(),
        _ => (0..n).map(|i| if i == 0 { format!("k[{}]:", n) } else { "  - 1".to_string() }).collect(),
    };
    let d = letter();
    match choice(3) {
        0 => l.push(format!("   {d}: 1")),
        1 => l.push(format!("\t{d}: 1")),
        _ => { if !l[0].starts_with("k[") { assume(false); } l.push(String::new()); l.push(format!("  - {d}")); l[0] = format!("k[{}]:", n); }
    }
    let s = l.join("\n");
    match try_decode(&s, dec(2, true, false)) { Ok(_) => fail(8), Err(e) => { reach(1); check(p_grammar::names(&e, n + 1), 9) } }
}
/// a replacer among thousands of calls
pub fn c18_wide() {
    let n = N1[choice(2)];
    let h = [0, 1, 2, n / 2, n, n + 1][choice(6)];
    let l = JsonValue::from(letter());
    let v = match choice(4) {
        0 => arr((0..n).map(|_| l.clone()).collect()),
        1 => kv("k".into(), arr((0..n / 2 + 1).map(|_| obj(vec![("a", l.clone())])).collect())),
        2 => JsonValue::Object((0..1030).map(|i| (key_no(i), l.clone())).collect()),
        _ => { let mut v = l; for i in 0..130 { v = if i % 2 == 0 { arr(vec![v]) } else { kv("k".into(), v) }; } v }
    };
    p_encode::one_at(&v, if let JsonValue::Array(_) = v { h } else { h.min(1000) })
}
