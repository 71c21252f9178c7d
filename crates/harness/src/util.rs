//! Value builders and generators shared by the entries.
use super::sym::*;
pub use toon::options::*;
pub use toon::*;
pub type P = StringOrNumberOrBoolOrNull;

pub fn num(x: f64) -> JsonValue { JsonValue::Primitive(P::Number(x)) }
pub fn st(s: &str) -> JsonValue { JsonValue::Primitive(P::String(s.to_string())) }
pub fn null() -> JsonValue { JsonValue::Primitive(P::Null) }
pub fn boolean(b: bool) -> JsonValue { JsonValue::Primitive(P::Bool(b)) }
pub fn arr(v: Vec<JsonValue>) -> JsonValue { JsonValue::Array(v) }
pub fn obj(v: Vec<(&str, JsonValue)>) -> JsonValue { JsonValue::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
pub fn kv(k: String, v: JsonValue) -> JsonValue { JsonValue::Object(vec![(k, v)]) }

/// n symbolic ASCII bytes
pub fn ascii(n: usize) -> String { string((0..n).map(|_| range(0, 127)).collect()) }
/// n symbolic bytes between lo and hi (ASCII)
pub fn between(lo: u8, hi: u8, n: usize) -> String { string((0..n).map(|_| range(lo, hi)).collect()) }
/// n symbolic bytes that form valid UTF-8
pub fn utf8(n: usize) -> String {
    match String::from_utf8((0..n).map(|_| byte()).collect()) { Ok(s) => s, Err(_) => { assume(false); String::new() } }
}
pub fn string(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// one symbolic lower-case letter
pub fn letter() -> String { between(b'a', b'z', 1) }

pub const DELIMS: [char; 3] = [',', '\t', '|'];
pub fn delim() -> char { DELIMS[choice(3)] }

#[derive(Clone, Copy)]
pub struct Opt { pub indent: usize, pub delim: char, pub fold: Option<usize> }
impl Opt {
    pub fn new(delim: char, indent: usize) -> Opt { Opt { indent, delim, fold: None } }
    pub fn enc(&self) -> Option<EncodeOptions> {
        Some(EncodeOptions { indent: Some(self.indent), delimiter: Some(self.delim), key_folding: Some(if self.fold.is_some() { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }), flatten_depth: self.fold, replacer: None })
    }
    pub fn dec(&self, strict: bool, expand: bool) -> Option<DecodeOptions> { dec(self.indent, strict, expand) }
}
pub fn dec(indent: usize, strict: bool, expand: bool) -> Option<DecodeOptions> {
    Some(DecodeOptions { indent: Some(indent), strict: Some(strict), expand_paths: Some(if expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }) })
}
/// three delimiters with indent 2, and indents 1, 3, 4 with varying delimiters
pub fn opts() -> Opt {
    let (d, i) = [(',', 2), ('|', 2), ('\t', 2), (',', 1), ('|', 3), ('\t', 4)][choice(6)];
    Opt::new(d, i)
}

/// leaf: one of the primitive kinds; strings and letters are symbolic
pub fn leaf(k: usize) -> JsonValue {
    match choice(k) {
        0 => JsonValue::from(letter()),
        1 => num(1.0),
        2 => null(),
        3 => boolean(true),
        4 => num(-1.5),
        _ => st(""),
    }
}
/// any value of the given depth and width (number of children of a container), `lk` kinds of leaves
pub fn value(depth: usize, width: usize, lk: usize) -> JsonValue {
    match choice(if depth == 0 { 1 } else { 3 }) {
        0 => leaf(lk),
        1 => { let n = choice(width + 1); arr((0..n).map(|_| value(depth - 1, width, lk)).collect()) }
        _ => { let n = choice(width + 1); JsonValue::Object((0..n).map(|i| (["a", "b", "c", "d"][i].to_string(), value(depth - 1, width, lk))).collect()) }
    }
}
/// container of depth exactly <= depth with `width` children at each level, no leaf at the root
pub const NWRAP: usize = 12;
pub fn wrap(c: usize, v: JsonValue) -> JsonValue {
    match c {
        0 => obj(vec![("k", v)]),
        1 => obj(vec![("p", num(1.0)), ("k", v)]),
        2 => obj(vec![("k", v), ("p", num(1.0))]),
        3 => arr(vec![v]),
        4 => arr(vec![v, num(7.0)]),
        5 => arr(vec![num(7.0), v]),
        6 => arr(vec![obj(vec![("k", v)])]),
        7 => arr(vec![obj(vec![("k", v), ("p", num(1.0))])]),
        8 => arr(vec![obj(vec![("p", num(1.0)), ("k", v)])]),
        9 => arr(vec![arr(vec![v])]),
        10 => arr(vec![v.clone(), v]),
        _ => arr(vec![obj(vec![("p", st("x")), ("k", v.clone()), ("q", st("y"))]), obj(vec![("k", v)])]),
    }
}

/// array of 1..=rows objects over `f` symbolic one-letter fields; each row keeps, permutes, drops, adds or
/// spoils a field
pub fn table(rows: usize, f: usize) -> JsonValue {
    let keys: Vec<String> = (0..f).map(|i| between(b'a' + 8 * i as u8, b'a' + 8 * i as u8 + 7, 1)).collect();
    let n = 1 + choice(rows);
    let bad = choice(n + 1); // the row that deviates, or none
    let how = if bad < n { choice(7) } else { 0 };
    let mut out = vec![];
    for r in 0..n {
        let mut row: Vec<(String, JsonValue)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), if i == 0 { JsonValue::from(letter()) } else { num((r * f + i) as f64) })).collect();
        if r == bad {
            match how {
                0 => row.reverse(),
                1 => { row.pop(); }
                2 => row.push(("zz".to_string(), null())),
                3 => { let l = row.len() - 1; row[l].1 = arr(vec![]); }
                4 => row[0].1 = obj(vec![]),
                5 => { let l = row.len() - 1; row[l].0 = "y".to_string(); }
                _ => row[0].1 = arr(vec![num(1.0), num(2.0)]),
            }
        }
        out.push(JsonValue::Object(row));
    }
    arr(out)
}

pub const SIZES: [usize; 18] = [3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257];
fn size() -> usize { SIZES[choice(SIZES.len())] }
/// large containers: `n` elements, one of which (first, middle, last) is special
pub fn big() -> JsonValue {
    let n = size();
    let at = [0, n / 2, n - 1][choice(3)];
    let spec = |i: usize, d: JsonValue, s: JsonValue| if i == at { s } else { d };
    match choice(8) {
        // inline primitives with one special string
        0 => { let s = ascii(1); kv("k".into(), arr((0..n).map(|i| spec(i, num(i as f64), st(&s))).collect())) }
        // rows of a table with one special cell
        1 => { let s = ascii(1); kv("k".into(), arr((0..n).map(|i| obj(vec![("a", num(i as f64)), ("b", spec(i, null(), st(&s)))])).collect())) }
        // rows with one deviating row: no table
        2 => arr((0..n).map(|i| spec(i, obj(vec![("a", num(i as f64))]), obj(vec![("b", num(1.0))]))).collect()),
        3 => arr((0..n).map(|i| spec(i, obj(vec![("a", num(i as f64))]), obj(vec![("a", arr(vec![]))]))).collect()),
        // wide object
        4 => { let s = ascii(1); JsonValue::Object((0..n).map(|i| (key_no(i), spec(i, num(i as f64), arr(vec![st(&s)])))).collect()) }
        // wide table
        5 => { let row = |q: f64| JsonValue::Object((0..n).map(|i| (key_no(i), num(q))).collect()); arr(vec![row(1.0), row(2.0)]) }
        // list of arrays, one of another kind
        6 => arr((0..n).map(|i| spec(i, arr(vec![num(i as f64)]), arr(vec![obj(vec![])]))).collect()),
        // list items of objects with arrays, then a sibling
        _ => obj(vec![("k", arr((0..n).map(|i| spec(i, obj(vec![("a", arr(vec![num(1.0), num(2.0)])), ("b", num(1.0))]), num(5.0))).collect())), ("l", num(2.0))]),
    }
}
/// a distinct key per number
pub fn key_no(i: usize) -> String { string(vec![b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'0' + (i / 676) as u8]) }
/// two wrappers alternating, nested d deep
pub fn deep(depths: &[usize]) -> JsonValue {
    let (c1, c2) = (choice(10), choice(10));
    let d = depths[choice(depths.len())];
    let mut v = match choice(3) { 0 => JsonValue::from(letter()), 1 => arr(vec![obj(vec![("m", num(1.0))])]), _ => obj(vec![]) };
    for i in 0..d { v = wrap(if i % 2 == 0 { c1 } else { c2 }, v); }
    v
}

/// one element of a mixed array
pub const NITEM: usize = 12;
pub fn item(c: usize) -> JsonValue {
    match c {
        0 => JsonValue::from(letter()),
        1 => arr(vec![]),
        2 => obj(vec![]),
        3 => arr(vec![num(1.0), JsonValue::from(letter())]),
        4 => arr(vec![arr(vec![num(1.0)]), num(2.0)]),
        5 => obj(vec![("a", JsonValue::from(letter()))]),
        6 => obj(vec![("a", num(1.0)), ("b", arr(vec![num(1.0), num(2.0)]))]),
        7 => obj(vec![("a", arr(vec![obj(vec![("x", num(1.0))]), obj(vec![("x", null())])])), ("b", num(2.0))]),
        8 => obj(vec![("a", arr(vec![num(1.0), obj(vec![])])), ("b", num(3.0))]),
        9 => obj(vec![("a", obj(vec![("c", num(1.0))])), ("b", num(4.0))]),
        10 => obj(vec![("a", arr(vec![])), ("b", obj(vec![]))]),
        _ => arr(vec![obj(vec![("x", num(1.0))]), obj(vec![("x", num(2.0))])]),
    }
}
/// an array of 1..=n elements of any kinds, in one of six places
pub fn mixed(n: usize) -> JsonValue {
    let n = 1 + choice(n);
    let v = arr((0..n).map(|_| item(choice(NITEM))).collect());
    match choice(6) {
        0 => v,
        1 => obj(vec![("k", v), ("z", num(1.0))]),
        2 => arr(vec![obj(vec![("k", v), ("z", num(1.0))])]),
        3 => arr(vec![obj(vec![("p", num(1.0)), ("k", v)])]),
        4 => arr(vec![v, num(1.0)]),
        _ => obj(vec![("o", obj(vec![("k", v)]))]),
    }
}
/// longer than any buffer or excerpt: multi-byte characters at every offset modulo their length
pub fn long8() -> String {
    let pad = "x".repeat(choice(3));
    [&pad, &"\u{2603}".repeat(45)[..]].concat()
}
