//! C16 JSON writers, C17 JSON text and value conversions, C22 command-line detection.
use super::docs::*;
use super::model::*;
use super::p_decode::{dso, event, events, lines, value_of, well_formed};
use super::p_encode::{normal, same};
use super::sym::*;
use super::util::*;
use toon::cli::conversion::{decode_to_json_chunks, encode_to_toon_lines};
use toon::cli::json_stream::json_stream_from_events;
use toon::cli::json_stringify::json_stringify_lines;

// ---- reference JSON reader --------------------------------------------------------------------------------------
/// layout: Some(indent) accepts only the layout of that indent (compact for 0), None any white space
struct J<'a> { s: &'a [u8], i: usize, layout: Option<usize>, depth: usize }
impl J<'_> {
    fn at(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.at() == c && self.i < self.s.len() { self.i += 1; true } else { false } }
    fn word(&mut self, w: &str) -> Option<()> { for b in w.bytes() { if !self.eat(b) { return None; } } Some(()) }
    /// white space that may stand between tokens
    fn ws(&mut self) { if self.layout.is_none() { while self.i < self.s.len() && matches!(self.at(), b' ' | b'\n' | b'\r' | b'\t') { self.i += 1; } } }
    /// the line break before an element or a closing bracket
    fn line(&mut self) -> Option<()> {
        match self.layout {
            None => { self.ws(); Some(()) }
            Some(0) => Some(()),
            Some(n) => { if !self.eat(b'\n') { return None; } for _ in 0..n * self.depth { if !self.eat(b' ') { return None; } } Some(()) }
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut x = 0;
        for _ in 0..4 {
            let b = self.at();
            let d = if b.is_ascii_digit() { b - b'0' } else if (b'a'..=b'f').contains(&b) { b - b'a' + 10 } else if (b'A'..=b'F').contains(&b) { b - b'A' + 10 } else { return None };
            x = x * 16 + d as u32;
            self.i += 1;
        }
        Some(x)
    }
    fn string(&mut self) -> Option<String> {
        if !self.eat(b'"') { return None; }
        let mut out = vec![];
        loop {
            if self.i >= self.s.len() { return None; }
            let b = self.at();
            self.i += 1;
            if b == b'"' { return Some(string(out)); }
            if b < 0x20 { return None; }
            if b != b'\\' { out.push(b); continue; }
            let e = self.at();
            self.i += 1;
            match e {
                b'"' | b'\\' | b'/' => out.push(e),
                b'n' => out.push(b'\n'), b't' => out.push(b'\t'), b'r' => out.push(b'\r'), b'b' => out.push(8), b'f' => out.push(12),
                b'u' => {
                    let mut x = self.hex4()?;
                    if (0xd800..0xdc00).contains(&x) {
                        if !self.eat(b'\\') || !self.eat(b'u') { return None; }
                        let y = self.hex4()?;
                        if !(0xdc00..0xe000).contains(&y) { return None; }
                        x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00);
                    }
                    let mut buf = [0; 4];
                    out.extend_from_slice(char::from_u32(x)?.encode_utf8(&mut buf).as_bytes());
                }
                _ => return None,
            }
        }
    }
    fn number(&mut self) -> Option<f64> {
        let st = self.i;
        while self.i < self.s.len() && matches!(self.at(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { self.i += 1; }
        let t = std::str::from_utf8(&self.s[st..self.i]).ok()?;
        if json_number(t) { t.parse().ok() } else { None }
    }
    fn value(&mut self) -> Option<JsonValue> {
        if self.layout.is_none() && self.depth > 130 { return None; }
        Some(match self.at() {
            b'n' => { self.word("null")?; null() }
            b't' => { self.word("true")?; boolean(true) }
            b'f' => { self.word("false")?; boolean(false) }
            b'"' => JsonValue::from(self.string()?),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b']') { return Some(arr(v)); }
                self.depth += 1;
                loop {
                    self.line()?;
                    v.push(self.value()?);
                    self.ws();
                    if !self.eat(b',') { break; }
                }
                self.depth -= 1;
                self.line()?;
                if !self.eat(b']') { return None; }
                arr(v)
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b'}') { return Some(JsonValue::Object(v)); }
                self.depth += 1;
                loop {
                    self.line()?;
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(b':') { return None; }
                    match self.layout { None => self.ws(), Some(0) => (), Some(_) => if !self.eat(b' ') { return None; } }
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if !self.eat(b',') { break; }
                }
                self.depth -= 1;
                self.line()?;
                if !self.eat(b'}') { return None; }
                JsonValue::Object(v)
            }
            _ => num(self.number()?),
        })
    }
}
pub fn read_json(s: &str, layout: Option<usize>) -> Option<JsonValue> {
    let mut j = J { s: s.as_bytes(), i: 0, layout, depth: 0 };
    j.ws();
    let v = j.value()?;
    j.ws();
    if j.i == j.s.len() { Some(v) } else { None }
}
/// the last value of a repeated key, at its first place
pub fn last_wins(v: &JsonValue) -> JsonValue {
    match v {
        JsonValue::Primitive(_) => v.clone(),
        JsonValue::Array(a) => arr(a.iter().map(last_wins).collect()),
        JsonValue::Object(o) => {
            let mut out: Vec<(String, JsonValue)> = vec![];
            for (k, x) in o { let x = last_wins(x); match out.iter_mut().find(|e| e.0 == *k) { Some(e) => e.1 = x, None => out.push((k.clone(), x)) } }
            JsonValue::Object(out)
        }
    }
}

// ---- C16 --------------------------------------------------------------------------------------------------------
pub fn written(v: &JsonValue, indent: usize) {
    let want = normal(v);
    let a = json_stringify_lines(v, indent).concat();
    note(&a);
    reach(1);
    check(matches!(read_json(&a, Some(indent)), Some(w) if same(&w, &unsigned(&want, &v))), 1);
    match json_stream_from_events(encode_stream_events(v.clone(), None), indent) {
        Ok(b) => check(matches!(read_json(&b.concat(), Some(indent)), Some(w) if same(&w, &want)), 2),
        Err(_) => fail(3),
    }
}
/// the value writer takes the value as it is: negative zero is written as -0.0
fn unsigned(want: &JsonValue, v: &JsonValue) -> JsonValue {
    match (want, v) {
        (JsonValue::Primitive(P::Number(_)), _) => v.clone(),
        (JsonValue::Array(a), JsonValue::Array(b)) => arr(a.iter().zip(b).map(|(a, b)| unsigned(a, b)).collect()),
        (JsonValue::Object(a), JsonValue::Object(b)) => JsonValue::Object(a.iter().zip(b).map(|(a, b)| (a.0.clone(), unsigned(&a.1, &b.1))).collect()),
        _ => want.clone(),
    }
}
fn jindent() -> usize { [2, 0, 1, 4, 16][choice(5)] }
pub fn c16_shapes() { let i = jindent(); written(&value(2, 2, 3), i) }
pub fn c16_mixed() { let i = [2, 0][choice(2)]; written(&mixed(2), i) }
pub fn c16_long() { strs(long_str()) }
fn long_str() -> String { let l = long8(); let u = ascii(1); match choice(3) { 0 => [&u, &l[..]].concat(), 1 => [&l[..], &u].concat(), _ => [&l[..], &u, &l[..]].concat() } }
pub fn c16_leaves() { let i = jindent(); written(&value(1, 2, 6), i) }
pub fn c16_wrap2() { let i = [2, 0][choice(2)]; written(&wrap(choice(NWRAP), wrap(choice(NWRAP), value(1, 2, 1))), i) }
pub fn c16_large() { let i = [2, 0][choice(2)]; written(&big(), i) }
pub fn c16_deep() { let i = [2, 0][choice(2)]; written(&deep(&[3, 9, 33, 131]), i) }
fn strs(s: String) {
    let v = match choice(3) { 0 => JsonValue::from(s), 1 => kv(s, num(1.0)), _ => arr(vec![kv("k".into(), JsonValue::from(s.clone())), JsonValue::from(s)]) };
    written(&v, [2, 0][choice(2)])
}
pub fn c16_utf8() { strs(utf8(3)) }
pub fn c16_utf8_4() { strs(utf8(4)) }
pub fn c16_str3() { strs(ascii(3)) }
pub fn c16_special() {
    let x = f64::from_bits([0x8000_0000_0000_0000u64, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 1, 0x3fb9_9999_9999_999a, 0x4340_0000_0000_0001, 0x444b_1ae4_d6e2_ef50][choice(9)]);
    written(&wrap(choice(NWRAP), num(x)), 2)
}
/// event sequences: exactly the ones that describe one value are written, and read back as that value
fn sequence(n: usize) {
    let ev: Vec<JsonStreamEvent> = (0..n).map(|_| event(choice(6))).collect();
    let indent = [0, 2][choice(2)];
    match json_stream_from_events(ev.clone(), indent) {
        Ok(s) => {
            reach(1);
            check(well_formed(&ev, false), 4);
            let mut i = 0;
            let want = value_of(&ev, &mut i);
            check(matches!(read_json(&s.concat(), Some(indent)), Some(w) if same(&w, &want)), 5);
        }
        Err(_) => { reach(2); check(!well_formed(&ev, false), 6); }
    }
}
pub fn c16_seq4() { sequence(choice(5)) }
pub fn c16_seq5() { sequence(5) }
pub fn c16_seq6() { sequence(6) }
/// the decoder command: same verdict as the decoder, JSON of the decoded events or value
fn command(s: &str, indent: usize) {
    note(s);
    let (strict, expand) = (flag(), flag());
    let got = decode_to_json_chunks(s, dec(indent, strict, expand));
    let want = if expand { try_decode(s, dec(indent, strict, true)) } else { events(s, indent, strict).map(|e| value_of(&e, &mut 0)) };
    match (&got, &want) {
        (Ok(c), Ok(w)) => { reach(1); check(matches!(read_json(&c.concat(), Some(indent)), Some(x) if same(&x, w)), 7); }
        (Err(_), Err(_)) => reach(2),
        _ => fail(8),
    }
}
pub fn c16_lines2() { command(&lines2().text, [2, 0, 4][choice(3)]) }
pub fn c16_lines3() { command(&lines3().text, 2) }
pub fn c16_window1() { command(&window(1), [2, 0][choice(2)]) }
pub fn c16_window2() { command(&window(2), 2) }
pub fn c16_ascii3() { command(&ascii(3), 2) }
pub fn c16_ascii2() { command(&ascii(2), 2) }

// ---- C17 --------------------------------------------------------------------------------------------------------
type Sj = serde_json::Value;
/// denotation of a JSON library value
fn denote(v: &Sj) -> JsonValue {
    match v {
        Sj::Null => null(),
        Sj::Bool(b) => boolean(*b),
        Sj::Number(n) => num(n.as_f64().unwrap_or(f64::NAN)),
        Sj::String(s) => st(s),
        Sj::Array(a) => arr(a.iter().map(denote).collect()),
        Sj::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), denote(v))).collect()),
    }
}
fn lib(v: &JsonValue) -> Sj {
    match v {
        JsonValue::Primitive(P::Null) => Sj::Null,
        JsonValue::Primitive(P::Bool(b)) => Sj::Bool(*b),
        JsonValue::Primitive(P::Number(x)) => if *x == x.trunc() && x.abs() < 1e15 { if *x < 0.0 { Sj::from(*x as i64) } else { Sj::from(*x as u64) } } else { Sj::from(*x) },
        JsonValue::Primitive(P::String(s)) => Sj::from(s.as_str()),
        JsonValue::Array(a) => Sj::Array(a.iter().map(lib).collect()),
        JsonValue::Object(o) => Sj::Object(o.iter().map(|(k, v)| (k.clone(), lib(v))).collect()),
    }
}
/// conversions between the two value types
pub fn convert(v: &JsonValue) {
    let l = lib(v);
    reach(1);
    check(same(&JsonValue::from(l.clone()), v), 20);
    let back = Sj::from(v.clone());
    check(same(&denote(&back), v), 21);
    check(same(&JsonValue::from(back), v), 22);
    // text: to TOON and back
    let t = encode(l, None);
    note(&t);
    match toon_to_json(&t) {
        Ok(j) => check(matches!(read_json(&j, Some(0)), Some(w) if same(&w, &as_decoded(v))), 23),
        Err(_) => fail(24),
    }
}
pub fn c17_shapes() { convert(&value(2, 2, 2)) }
pub fn c17_mixed() { convert(&mixed(2)) }
pub fn c17_long() { let s = long_str(); convert(&match choice(3) { 0 => JsonValue::from(s), 1 => kv(s, null()), _ => arr(vec![kv("k".into(), JsonValue::from(s))]) }) }
pub fn c17_leaves() { convert(&value(1, 2, 6)) }
pub fn c17_wrap() { convert(&wrap(choice(NWRAP), wrap(choice(NWRAP), value(1, 1, 2)))) }
pub fn c17_strings() { let s = utf8(3); let v = match choice(4) { 0 => JsonValue::from(s), 1 => kv(s, null()), 2 => arr(vec![JsonValue::from(s), boolean(true)]), _ => arr(vec![kv(s.clone(), JsonValue::from(s))]) }; convert(&v) }
pub fn c17_numbers() {
    const B: [u64; 14] = [0, 1, 0x3ff0_0000_0000_0000, 0x3fb9_9999_9999_999a, 0x4340_0000_0000_0001, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff, 0x43e0_0000_0000_0000, 0xc3e0_0000_0000_0000, 0x43f0_0000_0000_0000, 0x10_0000_0000_0000, 0x4415_af1d_78b5_8c40, 0xbff8_0000_0000_0000, 0x3eb0_c6f7_a0b5_ed8d];
    convert(&wrap(choice(NWRAP), num(f64::from_bits(B[choice(14)]))))
}
/// every finite bit pattern through both conversions
pub fn c17_bits() {
    let x = f64::from_bits(u64::from_le_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()]));
    let want = normal(&num(x));
    reach(1);
    match Sj::from(num(x)) {
        Sj::Null => check(x.to_bits() << 1 >> 53 == 0x7ff, 25),
        n @ Sj::Number(_) => { check(x.to_bits() << 1 >> 53 != 0x7ff, 26); check(same(&JsonValue::from(n), &want), 27); }
        _ => fail(28),
    }
}
/// every JSON library integer
pub fn c17_ints() {
    let b = [byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()];
    let u = u64::from_le_bytes(b);
    reach(1);
    let pick = choice(3);
    let (n, want) = match pick {
        0 => { let k = u >> 56; (Sj::from(k), k as f64) }
        1 => { let k = (u >> 56) as i64 - 128; (Sj::from(k), k as f64) }
        _ => { let k = [u64::MAX, 1 << 53, (1 << 53) + 1, 1 << 63, u64::MAX - 1023, 999_999_999_999_999_999][choice(6)]; (Sj::from(k), k as f64) }
    };
    check(same(&JsonValue::from(n), &num(want)), 29);
}
/// JSON text: accepted exactly if it is JSON, and the TOON text denotes the same value
fn text_in(j: &str) {
    note(j);
    let want = read_json(j, None);
    let got = json_to_toon(j);
    let o = Some(EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: None });
    let cmd = encode_to_toon_lines(j, o);
    match (&want, &got) {
        (Some(w), Ok(t)) => {
            reach(1);
            let w = normal(&last_wins(w));
            check(matches!(try_decode(t, None), Ok(x) if same(&x, &as_decoded(&w))), 30);
            check(matches!(&cmd, Ok(l) if l.join("\n") == *t), 31);
            check(matches!(toon_to_json(t), Ok(b) if matches!(read_json(&b, Some(0)), Some(x) if same(&x, &as_decoded(&w)))), 32);
        }
        (None, Err(_)) => { reach(2); check(cmd.is_err(), 33); }
        _ => fail(34),
    }
}
const JT: [(&str, &str); 16] = [
    ("{\"a\":", "}"), ("[1,", "]"), ("{\"", "\":1}"), ("\"", "\""), ("[", "]"), ("", ""), ("{\"a\":{\"b\":[1,2", "]}}"), ("{", "}"),
    ("[{\"a\":1,\"b\":2},{\"a\":3,\"b\":", "}]"), ("{\"a\":1,\"", "\":2}"), ("\"\\", "\""), ("\"\\u00", "\""), ("[[1],[", "]]"), ("{\"a\":1}", ""), ("-", ""), ("1", ""),
];
fn jwin(n: usize) -> String { let (a, b) = JT[choice(JT.len())]; [a, &ascii(n), b].concat() }
pub fn c17_text1() { text_in(&jwin(1)) }
pub fn c17_text2() { text_in(&jwin(2)) }
pub fn c17_text3() { let (a, b) = [("", ""), ("{\"", "\":1}"), ("[", "]")][choice(3)]; text_in(&[a, &ascii(3), b].concat()) }
/// TOON text in: JSON of the decoded value
fn text_out(s: &str) {
    note(s);
    match (try_decode(s, None), toon_to_json(s)) {
        (Ok(v), Ok(j)) => { reach(1); check(matches!(read_json(&j, Some(0)), Some(x) if same(&x, &last_wins(&v))), 35); }
        (Err(_), Err(_)) => reach(2),
        _ => fail(36),
    }
}
pub fn c17_out_lines2() { text_out(&lines2().text) }
pub fn c17_out_window1() { text_out(&window(1)) }
pub fn c17_out_window2() { text_out(&window(2)) }
pub fn c17_out_ascii3() { text_out(&ascii(3)) }
pub fn c17_out_ascii2() { text_out(&ascii(2)) }

// ---- C22 --------------------------------------------------------------------------------------------------------
use toon::cli::args::{Args, ExpandPathsArg, KeyFoldingArg, Mode};
fn args(input: Option<&str>, encode: bool, decode: bool) -> Args {
    Args {
        input: input.map(std::path::PathBuf::from), output: if flag() { None } else { Some("o.json".into()) }, encode, decode, delimiter: ',', indent: 2, no_strict: false,
        key_folding: KeyFoldingArg::Off, flatten_depth: None, expand_paths: ExpandPathsArg::Off, stats: false,
    }
}
/// what follows the last dot of the last component, unless that dot starts the component
pub fn suffix(name: &str) -> String {
    let b = name.as_bytes();
    let mut end = b.len();
    // trailing separators and "/." components do not count
    loop {
        if end > 0 && b[end - 1] == b'/' { end -= 1; } else if end > 1 && b[end - 1] == b'.' && b[end - 2] == b'/' { end -= 2; } else { break; }
    }
    let mut st = end;
    while st > 0 && b[st - 1] != b'/' { st -= 1; }
    let c = &b[st..end];
    if c == b".." { return String::new(); }
    let mut dot = c.len();
    while dot > 0 && c[dot - 1] != b'.' { dot -= 1; }
    if dot <= 1 { return String::new(); }
    string(c[dot..].iter().map(|x| if (b'A'..=b'Z').contains(x) { x + 32 } else { *x }).collect())
}
fn mode(name: &str) {
    note(name);
    let (e, d) = [(false, false), (true, false), (false, true)][choice(3)];
    let a = args(Some(name), e, d);
    let ext = suffix(name);
    let want = if e { Mode::Encode } else if d { Mode::Decode } else if ext == "toon" { Mode::Decode } else { Mode::Encode };
    reach(if want == Mode::Decode { 1 } else { 2 });
    check(a.detect_mode() == want, 1);
    check(a.is_stdin() == (name == "-"), 2);
}
pub fn c22_short() { mode(&ascii(choice(4))) }
pub fn c22_ext() {
    let e = ["toon", "json", "too", "toonx", "jsontoon", "txt"][choice(6)];
    let (i, c) = (choice(e.len()), range(0, 127));
    let mut b = e.as_bytes().to_vec();
    b[i] = c;
    let p = ["a.", ".", "a.b.", "d.toon/a.", "d.json/", "a", "", "x.toon."][choice(8)];
    mode(&[p, &string(b)].concat())
}
/// any letter case
pub fn c22_case() {
    let e = ["toon", "json"][choice(2)];
    let b: Vec<u8> = e.bytes().map(|c| { let x = range(b'A', b'z'); assume((x | 32) == c); x }).collect();
    mode(&["a.", &string(b)].concat())
}
pub fn c22_none() {
    let (e, d) = [(false, false), (true, false), (false, true)][choice(3)];
    let a = args(None, e, d);
    reach(1);
    check(a.is_stdin(), 3);
    check(a.detect_mode() == if d { Mode::Decode } else { Mode::Encode }, 4);
}
