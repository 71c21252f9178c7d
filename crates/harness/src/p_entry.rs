//! C26 omitted options and the calls that panic; C27 calls stand alone.
use super::docs::*;
use super::p_decode::{block_on, dso, events, lines, Poller};
use super::p_encode::collect;
use super::model::*;
use super::sym::*;
use super::util::*;
use super::{p_decode, p_encode, p_fold, p_grammar, p_roundtrip};
use asupersync::stream::Stream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use toon::decode::event_builder::{build_node_from_events, node_to_json};
use toon::options::{DecodeStreamOptions, PathSegment};

// ---- C26: encoding ------------------------------------------------------------------------------------------
/// a value that every option matters to
fn matters() -> JsonValue {
    let l = letter();
    let deep = |v| obj(vec![("a", obj(vec![("b", obj(vec![(l.as_str(), v)]))]))]);
    match choice(7) {
        0 => deep(arr(vec![num(1.0), st("x,y"), st("x|y"), st("p\tq")])),
        1 => deep(arr(vec![obj(vec![("f", st("x,y")), ("g", st("x|y"))]), obj(vec![("f", st(&l)), ("g", null())])])),
        2 => arr(vec![deep(st("x|y")), arr(vec![st("x,y"), st(&l)])]),
        3 => obj(vec![("l", arr(vec![deep(arr(vec![])), num(1.0)])), ("a.b", st(&l))]),
        4 => deep(obj(vec![("c", num(1.0)), ("d", obj(vec![]))])),
        5 => arr(vec![st(&l), st("x,y"), st("x|y")]),
        _ => st(&l),
    }
}
/// every subset of the options present; what is absent is the default
fn defaults_enc(v: &JsonValue) {
    let (a, b, c, d) = (flag(), flag(), flag(), flag());
    let (i, depth) = (if a { [4, 0][choice(2)] } else { 2 }, if d { [2, 0, 3][choice(3)] } else { usize::MAX });
    let part = EncodeOptions { indent: a.then_some(i), delimiter: b.then_some('|'), key_folding: c.then_some(KeyFoldingMode::Safe), flatten_depth: d.then_some(depth), replacer: None };
    let full = Opt { indent: i, delim: if b { '|' } else { ',' }, fold: if c { Some(depth) } else { None } };
    let none = !(a || b || c || d) && flag();
    let o = || if none { None } else { Some(part.clone()) };
    let want = encode_model(v, full);
    note(&want);
    reach(1);
    check(encode(v.clone(), o()) == want, 1);
    check(encode_lines(v.clone(), o()).join("\n") == want, 2);
    check(block_on(toon::encode::encode_async(v.clone(), o())) == want, 3);
    check(block_on(toon::encode::encode_lines_async(v.clone(), o())).join("\n") == want, 4);
    check(collect(toon::encode::AsyncEncodeStream::new(v.clone(), o())).join("\n") == want, 5);
    check(encode_stream_events(v.clone(), o()) == encode_stream_events(v.clone(), full.enc()), 6);
    check(collect(toon::encode::AsyncEncodeEventStream::new(v.clone(), o())) == encode_stream_events(v.clone(), full.enc()), 7);
}
pub fn c26_enc_options() { defaults_enc(&matters()) }
pub fn c26_enc_shapes() { defaults_enc(&value(2, 1, 2)) }
// ---- C26: decoding ------------------------------------------------------------------------------------------
fn eq<T: PartialEq, U, W>(a: &Result<T, U>, b: &Result<T, W>, code: u32) {
    match (a, b) { (Ok(a), Ok(b)) => { reach(1); check(a == b, code) } (Err(_), Err(_)) => reach(2), _ => fail(code + 1) }
}
fn defaults_dec(s: &str) {
    note(s);
    let (a, b, c) = (flag(), flag(), flag());
    let none = !(a || b || c) && flag();
    let i = if a { [4, 0, 1][choice(3)] } else { 2 };
    let o = || if none { None } else { Some(DecodeOptions { indent: a.then_some(i), strict: b.then_some(false), expand_paths: c.then_some(ExpandPathsMode::Safe) }) };
    let so = || if none { None } else { Some(DecodeStreamOptions { indent: a.then_some(i), strict: b.then_some(false) }) };
    let st = !b;
    let want = try_decode(s, dec(i, st, c));
    let ev = events(s, i, st);
    match choice(7) {
        0 => eq(&want, &try_decode(s, o()), 11),
        1 => eq(&want, &toon::try_decode_from_lines(lines(s), o()), 13),
        2 => eq(&want, &block_on(toon::decode::try_decode_async(s, o())), 15),
        3 => eq(&ev, &toon::try_decode_stream_sync(lines(s), so()), 17),
        4 => eq(&ev, &block_on(toon::try_decode_stream(lines(s), so())), 19),
        5 => eq(&ev, &block_on(toon::decode::try_decode_stream_async(lines(s), so())), 21),
        _ => {
            let (mut ok, mut err) = (vec![], false);
            for e in collect(toon::decode::AsyncDecodeStream::new(lines(s).into_iter(), so())) { match e { Ok(e) => ok.push(e), Err(_) => err = true } }
            eq(&ev, &if err { Err(()) } else { Ok(ok) }, 23)
        }
    }
}
fn fixed(c: usize) -> String {
    let k = letter();
    [
        format!("{k}.b: 1\n{k}.c: 2"), format!("{k}:\n    b: 1"), format!("{k}:\n  b: 1"), format!("{k}[2]: 1"), format!("{k}[1]:\n    - x: {k}\n      y: 2"),
        format!("{k}.b: 1\n{k}: 2"), format!("[2]{{{k},b}}:\n    1,2\n    3,4"), format!("{k}[1]:\n  - x: {k}\n    y: 2"), format!("{k}:\n   b: 1"), format!("{k}[2]:\n  - 1\n\n  - 2"), k.clone(), String::new(),
    ][c].clone()
}
pub fn c26_dec_options() { defaults_dec(&fixed(choice(12))) }
pub fn c26_dec_lines2() { defaults_dec(&lines2().text) }
pub fn c26_dec_ascii3() { defaults_dec(&ascii(3)) }
/// the calls without a Result: the same value, or a panic where there is an error
fn twins(s: &str, indent: usize) {
    note(s);
    let (strict, c) = (flag(), choice(5));
    let (expand, o, so) = (c < 2 && flag(), |x| dec(indent, strict, x), || dso(indent, strict));
    let (mut v, mut ev) = (None, None);
    if c < 2 { v = try_decode(s, o(expand)).ok(); } else { ev = events(s, indent, strict).ok(); }
    let ok = v.is_some() || ev.is_some();
    reach(if ok { 1 } else { 2 });
    if !ok { expect_panic(); }
    match c {
        0 => { let x = toon::decode(s, o(expand)); check(ok && Some(x) == v, 31) }
        1 => { let x = toon::decode_from_lines(lines(s), o(expand)); check(ok && Some(x) == v, 32) }
        2 => { let x = toon::decode_stream_sync(lines(s), so()); check(ok && Some(x) == ev, 33) }
        3 => { let x = block_on(toon::decode_stream(lines(s), so())); check(ok && Some(x) == ev, 34) }
        _ => { let x = block_on(toon::decode::decode_stream_async(lines(s), so())); check(ok && Some(x) == ev, 35) }
    }
}
pub fn c26_twins_window1() { twins(&window(1), 2) }
pub fn c26_twins_window2() { twins(&window(2), 2) }
pub fn c26_twins_lines2() { twins(&lines2().text, [2, 1, 4][choice(3)]) }
pub fn c26_twins_ascii3() { twins(&ascii(3), 2) }
pub fn c26_twins_fixed() { twins(&fixed(choice(12)), [2, 4][choice(2)]) }
// ---- C27 ----------------------------------------------------------------------------------------------------
/// something done before: calls that succeed, fail, or are given up half-way, with other options than the call that counts
fn before(keep: &mut Vec<Box<dyn std::any::Any>>) {
    let rep = |_: &str, v: &JsonValue, _: &[PathSegment]| Some(match v { JsonValue::Primitive(_) => st("r"), _ => v.clone() });
    let big = || obj(vec![("a", obj(vec![("b", num(7.0))])), ("k", arr(vec![obj(vec![("x", num(1.0)), ("y", st("q"))]), obj(vec![("x", num(2.0)), ("y", null())])])), ("m", arr(vec![num(1.0), arr(vec![num(2.0)])]))]);
    match choice(12) {
        0 => { let _ = encode(big(), Opt { fold: Some(9), ..Opt::new('|', 4) }.enc()); }
        1 => { let _ = encode_lines(big(), Opt::new('\t', 0).enc()); }
        2 => { let _ = encode(big(), Some(EncodeOptions { replacer: Some(Arc::new(rep)), ..Opt::new(',', 2).enc().unwrap() })); }
        3 => { let _ = encode_stream_events(big(), Opt { fold: Some(2), ..Opt::new('|', 1) }.enc()); }
        4 => { let _ = try_decode("k[2|]{x|y}:\n    1|2\n    3|4\nz.w: 1", dec(4, false, true)); }
        5 => { let _ = try_decode("k[3]:\n  - 1\n\n  - a: \"x", dec(2, true, true)); }
        6 => { let _ = try_decode("a.b: 1\na: 2", dec(2, true, true)); }
        7 => { let _ = try_decode("a: 1\n\nb:\n\n  c: 1\n\n\n\n\t- 1", dec(2, true, false)); }
        8 => { let _ = build_node_from_events(vec![JsonStreamEvent::StartObject, JsonStreamEvent::Key { key: "a".into(), was_quoted: true }]); }
        9 => {
            let mut st = toon::decode::AsyncDecodeStream::new(lines("a: 1\nk[2]:\n  - 1\n  - 2").into_iter(), dso(2, true));
            step(&mut st, 1 + choice(4));
            if flag() { keep.push(Box::new(st)); }
        }
        10 => {
            let mut st = toon::encode::AsyncEncodeStream::new(big(), Opt::new('|', 4).enc());
            step(&mut st, 1 + choice(3));
            if flag() { keep.push(Box::new(st)); }
        }
        _ => {
            let mut st = toon::encode::AsyncEncodeEventStream::new(big(), Opt::new('|', 4).enc());
            step(&mut st, 2);
            if flag() { keep.push(Box::new(st)); }
        }
    }
}
/// poll for n items
fn step<S: Stream + Unpin>(s: &mut S, n: usize) -> Vec<S::Item> {
    let mut p = Poller::new();
    let w = p.waker();
    let mut cx = Context::from_waker(&w);
    let mut out = vec![];
    while out.len() < n {
        match Pin::new(&mut *s).poll_next(&mut cx) { Poll::Ready(Some(x)) => out.push(x), Poll::Ready(None) => break, Poll::Pending => p.pending() }
    }
    out
}
fn after(n: usize) -> Vec<Box<dyn std::any::Any>> { let mut k = vec![]; for _ in 0..n { before(&mut k); } k }
fn small() -> JsonValue {
    let mut l = letter();
    match choice(4) { 0 => (), 1 => l = format!("text, with {l}"), 2 => l = format!("{l} | text"), _ => l = "y".repeat(40) + &l }
    match choice(6) {
        0 => obj(vec![("k", arr(vec![obj(vec![("x", st(&l)), ("y", num(1.0))]), obj(vec![("x", null()), ("y", num(3.0))])]))]),
        1 => obj(vec![("a", obj(vec![("b", obj(vec![("c", st(&l))]))])), ("z", num(1.0))]),
        2 => arr(vec![obj(vec![("a", obj(vec![("b", st(&l))]))]), arr(vec![num(1.0), num(2.0)]), st("x|y")]),
        3 => obj(vec![("a", num(7.0)), ("m", arr(vec![st(&l), st("x,y")])), ("e", obj(vec![]))]),
        4 => arr(vec![]),
        _ => st(&l),
    }
}
fn enc_after(n: usize) {
    let k = after(n);
    let v = small();
    // the same value under other options
    match choice(4) { 0 => (), 1 => { let _ = encode(v.clone(), Opt::new('\t', 4).enc()); } 2 => { let _ = encode_lines(v.clone(), Opt { fold: Some(2), ..Opt::new('|', 1) }.enc()); } _ => { let _ = encode_stream_events(v.clone(), None); let _ = encode(v.clone(), None); } }
    let o = match choice(3) { 0 => Opt::new(',', 2), 1 => Opt::new('|', 3), _ => Opt { fold: Some(3), ..Opt::new(',', 2) } };
    p_roundtrip::canon(&v, o);
    p_encode::streams(&v, o);
    drop(k);
}
fn dec_after(n: usize) {
    let k = after(n);
    let v = small();
    // the same text under other options
    if flag() { let t = encode(v.clone(), Opt::new(delim(), 2).enc()); for i in [1, 2, 4] { let _ = try_decode(&t, dec(i, i != 2, i == 2)); } }
    p_grammar::reads(&v, 2, 1);
    drop(k);
}
pub fn c27_enc1() { enc_after(1) }
pub fn c27_enc2() { enc_after(2) }
pub fn c27_dec1() { dec_after(1) }
pub fn c27_dec2() { dec_after(2) }
/// many calls before
pub fn c27_many() {
    let n = [130, 1030, 4100][choice(3)];
    for i in 0..n {
        match i % 5 {
            0 => { let _ = encode(obj(vec![("a", arr(vec![num(1.0), st("x")]))]), None); }
            1 => { let _ = try_decode("a.b: 1", dec(2, true, true)); }
            2 => { let _ = try_decode("a[2]: 1", dec(2, true, true)); }
            3 => { let _ = encode_stream_events(arr(vec![null()]), None); }
            _ => { let _ = step(&mut toon::decode::AsyncDecodeStream::new(lines("a: 1\nb: 2").into_iter(), dso(2, true)), 3); }
        }
    }
    let v = small();
    if flag() { p_roundtrip::canon(&v, Opt::new(',', 2)); p_encode::streams(&v, Opt { fold: Some(3), ..Opt::new('|', 2) }); } else { p_grammar::reads(&v, 2, 0); }
}
/// an error stays an error, a value a value, whatever came between
fn repeat(s: &str) {
    note(s);
    let strict = flag();
    if flag() { let _ = try_decode(s, dec(4, !strict, false)); let _ = events(s, 1, !strict); }
    let (a, e) = (try_decode(s, dec(2, strict, true)), events(s, 2, strict));
    let k = after(1);
    let (b, f) = (try_decode(s, dec(2, strict, true)), events(s, 2, strict));
    eq(&a, &b, 41);
    eq(&e, &f, 43);
    if let (Err(a), Err(b)) = (&a, &b) { check(a.to_string() == b.to_string(), 45); }
    drop(k);
}
pub fn c27_repeat_fixed() { repeat(&fixed(choice(12))) }
pub fn c27_repeat_window1() { repeat(&window(1)) }
pub fn c27_repeat_ascii3() { repeat(&ascii(3)) }
/// two streams at once, polled in any order, one given up at any point
pub fn c27_turns_dec() {
    let k = letter();
    let t = [format!("{k}: 1\nb:\n  c: 2"), format!("k[1]:\n  - {k}"), format!("[2]: 1,{k}"), format!("{k}: \"x"), format!("\"{k}\": 1\n{k}2[1]{{f}}:\n  1"), String::new()];
    let (x, y) = (&t[choice(6)], &t[choice(6)]);
    let (ix, iy) = (2, [2, 4][choice(2)]);
    let st = |s: &String, i| toon::decode::AsyncDecodeStream::new(lines(s).into_iter(), dso(i, true));
    let (mut a, mut b, mut ga, mut gb) = (st(x, ix), st(y, iy), vec![], vec![]);
    for _ in 0..4 { if flag() { ga.extend(step(&mut a, 1)); } else { gb.extend(step(&mut b, 1)); } }
    if flag() { gb.extend(step(&mut b, 100)); } else { drop(b); gb.clear(); gb.extend(step(&mut st(y, iy), 100)); }
    ga.extend(step(&mut a, 100));
    let all = |g: Vec<Result<JsonStreamEvent, toon::error::ToonError>>| g.into_iter().collect::<Result<Vec<_>, _>>();
    eq(&events(x, ix, true), &all(ga), 51);
    eq(&events(y, iy, true), &all(gb), 53);
}
pub fn c27_turns_enc() {
    let (v, w) = (small(), small());
    let (o, p) = (Opt::new(',', 2), Opt { fold: Some(3), ..Opt::new('|', 4) });
    let mut a = toon::encode::AsyncEncodeStream::new(v.clone(), o.enc());
    let mut b = toon::encode::AsyncEncodeStream::new(w.clone(), p.enc());
    let mut e = toon::encode::AsyncEncodeEventStream::new(w.clone(), p.enc());
    let (mut ga, mut gb, mut ge) = (vec![], vec![], vec![]);
    for _ in 0..3 { match choice(3) { 0 => ga.extend(step(&mut a, 1)), 1 => gb.extend(step(&mut b, 1)), _ => ge.extend(step(&mut e, 1)) } }
    gb.extend(step(&mut b, 1000)); ge.extend(step(&mut e, 1000)); ga.extend(step(&mut a, 1000));
    reach(1);
    check(ga.join("\n") == encode_model(&v, o), 55);
    check(gb.join("\n") == encode_model(&w, p), 56);
    check(ge == encode_stream_events(w, p.enc()), 57);
}
// ---- C17: the remaining conversions into the library's value type ------------------------------------------------
pub fn c17_from() {
    let s = utf8(2);
    let i = [0, 1, -1, 255, 1 << 53, (1 << 53) + 1, -(1 << 53), i64::MAX, i64::MIN, 1 << 31, -(1i64 << 31)][choice(11)];
    let b = flag();
    reach(1);
    check(JsonValue::from(s.as_str()) == st(&s), 60);
    check(JsonValue::from(s.clone()) == st(&s), 61);
    check(JsonValue::from(b) == boolean(b), 62);
    check(JsonValue::from(i) == num(i as f64), 63);
    check(JsonValue::from(vec![JsonValue::from(b), JsonValue::from(i)]) == arr(vec![boolean(b), num(i as f64)]), 64);
    check(JsonValue::from(vec![(s.clone(), JsonValue::from(b))]) == kv(s.clone(), boolean(b)), 65);
    check(JsonValue::from(toon::StringOrNumberOrBoolOrNull::String(s.clone())) == st(&s), 66);
    let x = f64::from_bits([0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0x3ff0 << 48][choice(6)]);
    let want = if !x.is_finite() { null() } else if x == 0.0 { num(0.0) } else { num(x) };
    let got = JsonValue::from(x);
    check(got == want && !matches!(got, JsonValue::Primitive(P::Number(n)) if n == 0.0 && n.is_sign_negative()), 67);
}
