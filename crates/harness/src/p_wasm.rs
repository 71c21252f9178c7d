//! C24 the WebAssembly bindings, on a stand-in for JavaScript values
use super::docs::*;
use super::p_encode::same;
use super::p_json::{last_wins, read_json};
use super::sym::*;
use super::util::*;
use std::rc::Rc;
use toon::wasm;
use wasm_bindgen::{Js, JsError, JsValue};

/// an exception with a message
fn thrown<T>(r: &Result<T, JsError>) -> bool { matches!(r, Err(e) if !e.text().is_empty()) }
fn js_obj(v: Vec<(&str, JsValue)>) -> JsValue { JsValue(Js::Object(Rc::new(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))) }
/// what stands for "no options"
fn nothing() -> JsValue {
    match choice(6) { 0 => JsValue::UNDEFINED, 1 => JsValue::NULL, 2 => js_obj(vec![]), 3 => JsValue(Js::Array(Rc::new(vec![JsValue::from(1.0)]))),
        4 => js_obj(vec![("other", JsValue::from(4.0)), ("Indent", JsValue::from(8.0))]),
        _ => js_obj(["indent", "delimiter", "keyFolding", "flattenDepth", "strict", "expandPaths"].into_iter().map(|k| (k, JsValue::UNDEFINED)).collect()) }
}
fn encodes(json: &str, opts: Option<JsValue>, want: Option<EncodeOptions>) {
    note(json);
    let text = serde_json::from_str::<serde_json::Value>(json).ok().map(|v| encode(JsonValue::from(v), want));
    let got = match opts { None => wasm::encode(json), Some(o) => wasm::encode_with_options(json, o) };
    match &text {
        Some(t) => { reach(1); check(matches!(&got, Ok(g) if g == t), 1); }
        None => { reach(2); check(thrown(&got), 2); }
    }
}
fn decodes(t: &str, opts: Option<JsValue>, want: Option<DecodeOptions>) {
    note(t);
    let v = try_decode(t, want);
    let plain = opts.is_none();
    let got = match opts { None => wasm::decode(t), Some(o) => wasm::decode_with_options(t, o) };
    match &v {
        Ok(v) => { reach(1); check(matches!(&got, Ok(j) if matches!(read_json(j, Some(0)), Some(x) if same(&x, &last_wins(v)))), 3); }
        Err(_) => { reach(2); check(thrown(&got), 4); }
    }
    if plain {
        let got = wasm::decode_pretty(t);
        match &v {
            Ok(v) => check(matches!(&got, Ok(j) if matches!(read_json(j, Some(2)), Some(x) if same(&x, &last_wins(v)))), 5),
            Err(_) => check(thrown(&got), 6),
        }
    }
}
pub fn c24_enc_ascii2() { let (a, b) = [("", ""), ("{\"a\":", "}"), ("[1,", "]"), ("{\"", "\":[]}"), ("[\"", "\"]")][choice(5)]; encodes(&[a, &ascii(2), b].concat(), None, None) }
pub fn c24_dec_ascii3() { decodes(&ascii(3), None, None) }
pub fn c24_dec_window1() { decodes(&window(1), None, None) }
pub fn c24_dec_window2() { decodes(&window(2), None, None) }
pub fn c24_none() {
    const J: [&str; 3] = ["{\"a\":{\"b\":1},\"l\":[1,\"x,y|z\",{\"m\":[]}]}", "[]", "{"];
    const T: [&str; 4] = ["a.b: 1\nc:\n  d: x", "l[2]: 1", "a:\n   b: 1", "a.b: 1\na: 2"];
    let o = nothing();
    if flag() { encodes(J[choice(3)], Some(o), None) } else { decodes(T[choice(4)], Some(o), None) }
}
/// options that are not an object
pub fn c24_refuse() {
    let o = match choice(5) { 0 => JsValue::TRUE, 1 => JsValue::FALSE, 2 => JsValue::from(f64::from(byte())), 3 => JsValue::from(""), _ => JsValue::from(ascii(1)) };
    reach(1);
    if flag() { check(thrown(&wasm::encode_with_options("{\"a\":1}", o)), 7) } else { check(thrown(&wasm::decode_with_options("a: 1", o)), 8) }
}
/// a property that is absent, or present in any order
fn prop<'a>(v: &mut Vec<(&'a str, JsValue)>, k: &'a str, x: Option<JsValue>) { if let Some(x) = x { if v.len() % 2 == 0 { v.push((k, x)) } else { v.insert(0, (k, x)) } } }
fn indent() -> (Option<JsValue>, Option<usize>) { let n = choice(18); if n == 17 { (None, None) } else { (Some(JsValue::from(n as f64)), Some(n)) } }
fn few_indents() -> (Option<JsValue>, Option<usize>) { match choice(4) { 0 => (None, None), 1 => (Some(JsValue::from(0.0)), Some(0)), 2 => (Some(JsValue::from(4.0)), Some(4)), _ => (Some(JsValue::from("4")), None) } }
pub fn c24_enc_opts() {
    const J: &str = "{\"a\":{\"b\":{\"c\":{\"d\":1}}},\"l\":[1,\"x,y\",\"p|q\"],\"t\":[{\"m\":1,\"n\":\"u\"},{\"n\":\"\",\"m\":2}]}";
    let i = few_indents();
    let d: (Option<JsValue>, Option<char>) = match choice(6) { 0 => (None, None), 1 => (Some(",".into()), Some(',')), 2 => (Some("|".into()), Some('|')), 3 => (Some("\t".into()), Some('\t')), 4 => (Some("".into()), None), _ => (Some(JsValue::TRUE), None) };
    let k = match choice(6) { 0 => (None, None), 1 => (Some("off".into()), Some(KeyFoldingMode::Off)), 2 => (Some("safe".into()), Some(KeyFoldingMode::Safe)), 3 => (Some("Safe".into()), None), 4 => (Some(JsValue::TRUE), None), _ => (Some(JsValue::NULL), None) };
    let f = match choice(7) { 0 => (None, None), 1 => (Some(JsValue::from(f64::INFINITY)), None), n => (Some(JsValue::from(n as f64 - 2.0)), Some(n - 2)) };
    let mut o = vec![];
    prop(&mut o, "indent", i.0); prop(&mut o, "delimiter", d.0); prop(&mut o, "keyFolding", k.0); prop(&mut o, "flattenDepth", f.0);
    encodes(J, Some(js_obj(o)), Some(EncodeOptions { indent: i.1, delimiter: d.1, key_folding: k.1, flatten_depth: f.1, replacer: None }))
}
pub fn c24_dec_opts() {
    const T: [&str; 6] = ["a.b: 1\na.c:\n    - x\nd.e[1]: 2\n", "a.b: 1\na.c: 2\nm:\n  n[1]{p}:\n    1", "a.b: 1\na: 2", "l[3]: 1,2", "a:\n    b: 1\n    c:\n        d: 2", "a:\n b: 1"];
    let i = few_indents();
    let s = match choice(4) { 0 => (None, None), 1 => (Some(JsValue::TRUE), Some(true)), 2 => (Some(JsValue::FALSE), Some(false)), _ => (Some(JsValue::from("false")), None) };
    let x = match choice(4) { 0 => (None, None), 1 => (Some("off".into()), Some(ExpandPathsMode::Off)), 2 => (Some("safe".into()), Some(ExpandPathsMode::Safe)), _ => (Some("on".into()), None) };
    let mut o = vec![];
    prop(&mut o, "expandPaths", x.0); prop(&mut o, "indent", i.0); prop(&mut o, "strict", s.0);
    decodes(T[choice(6)], Some(js_obj(o)), Some(DecodeOptions { indent: i.1, strict: s.1, expand_paths: x.1 }))
}
/// every indentation, in both directions
pub fn c24_indents() {
    let i = indent();
    let mut o = vec![];
    prop(&mut o, "indent", i.0);
    if flag() { return encodes("{\"a\":{\"b\":[{\"c\":[1,[2]]}]}}", Some(js_obj(o)), Some(EncodeOptions { indent: i.1, delimiter: None, key_folding: None, flatten_depth: None, replacer: None })); }
    let n = i.1.unwrap_or(2);
    decodes(&["a:\n", &" ".repeat(n), "b: 1\n", &" ".repeat(choice(6)), "c: 1"].concat(), Some(js_obj(o)), Some(DecodeOptions { indent: i.1, strict: None, expand_paths: None }))
}
/// a symbolic document with symbolic options
pub fn c24_mix() {
    let (s, x) = (flag(), flag());
    let o = js_obj(vec![("strict", s.into()), ("expandPaths", if x { "safe".into() } else { "off".into() }), ("indent", 2u32.into())]);
    decodes(&window(1), Some(o), Some(DecodeOptions { indent: Some(2), strict: Some(s), expand_paths: Some(if x { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }) }))
}
/// documents nested deeper than JSON readers allow
pub fn c24_deep() {
    let v = deep(&[40, 131]);
    let t = encode(v, None);
    decodes(&t, None, None)
}
/// long documents
pub fn c24_large() { let t = encode(big(), None); decodes(&t, None, None) }
