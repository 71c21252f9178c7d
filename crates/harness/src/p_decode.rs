//! C07 total, C11 strict within lax, C12 entry points agree, C13 event streams, C15 asynchronous decoding,
//! C25 no line is dropped.
use super::docs::*;
use super::sym::*;
use super::util::*;
use toon::decode::event_builder::{build_node_from_events, node_to_json};
use toon::decode::expand::expand_paths_safe;

pub fn lines(s: &str) -> Vec<String> { s.split('\n').map(|l| l.to_string()).collect() }
pub fn dso(indent: usize, strict: bool) -> Option<DecodeStreamOptions> { Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) }) }
pub fn events(s: &str, indent: usize, strict: bool) -> Result<Vec<JsonStreamEvent>, toon::error::ToonError> { try_decode_stream_sync(lines(s), dso(indent, strict)) }

// ---- C07 ----------------------------------------------------------------------------------------------------
/// both modes, expansion on: everything the decoder has
pub fn total(s: &str, indent: usize) {
    note(s);
    let a = try_decode(s, dec(indent, true, true));
    let b = try_decode(s, dec(indent, false, true));
    if a.is_ok() { reach(1); } else { reach(2); }
    if b.is_ok() { reach(3); }
}
fn total_events(s: &str, indent: usize) {
    note(s);
    let strict = flag();
    if events(s, indent, strict).is_ok() { reach(1); } else { reach(2); }
    let _ = try_decode(s, dec(indent, strict, false));
}
// ---- C11 ----------------------------------------------------------------------------------------------------
pub fn within(s: &str, indent: usize, expand: bool) {
    note(s);
    if let Ok(a) = events(s, indent, true) {
        reach(1);
        match events(s, indent, false) { Ok(b) => check(a == b, 1), Err(_) => fail(2) }
    }
    if let Ok(a) = try_decode(s, dec(indent, true, expand)) {
        match try_decode(s, dec(indent, false, expand)) { Ok(b) => check(a == b, 3), Err(_) => fail(4) }
    } else { reach(2); }
}
// ---- C12 ----------------------------------------------------------------------------------------------------
pub fn agree(s: &str, indent: usize, strict: bool) {
    note(s);
    let e = events(s, indent, strict).and_then(build_node_from_events);
    let t = try_decode(s, dec(indent, strict, false));
    let l = try_decode_from_lines(lines(s), dec(indent, strict, false));
    match (&e, &t, &l) {
        (Ok(e), Ok(t), Ok(l)) => { reach(1); let e = node_to_json(e.clone()); check(e == *t, 1); check(t == l, 2); }
        (Err(_), Err(_), Err(_)) => reach(2),
        _ => fail(3),
    }
    // expansion on the built node is what the expanding calls do
    let x = e.and_then(|n| expand_paths_safe(n, strict)).map(node_to_json);
    let t = try_decode(s, dec(indent, strict, true));
    let l = try_decode_from_lines(lines(s), dec(indent, strict, true));
    match (&x, &t, &l) {
        (Ok(e), Ok(t), Ok(l)) => { check(e == t, 4); check(t == l, 5); }
        (Err(_), Err(_), Err(_)) => (),
        _ => fail(6),
    }
    // (expansion has a depth limit)
    if !s.contains('.') && !s.contains(&" ".repeat(200)) && distinct(&try_decode(s, dec(indent, strict, false))) {
        match (&l, try_decode(s, dec(indent, strict, false))) { (Ok(a), Ok(b)) => check(*a == b, 7), (Err(_), Err(_)) => (), _ => fail(8) }
    }
}
fn distinct(v: &Result<JsonValue, toon::error::ToonError>) -> bool {
    fn d(v: &JsonValue) -> bool {
        match v {
            JsonValue::Object(o) => o.iter().enumerate().all(|(i, (k, v))| o[..i].iter().all(|(l, _)| l != k) && d(v)),
            JsonValue::Array(a) => a.iter().all(d),
            _ => true,
        }
    }
    match v { Ok(v) => d(v), Err(_) => true }
}
/// options left out mean indent 2, strict, no expansion
fn defaults(s: &str) {
    note(s);
    let full = try_decode(s, dec(2, true, false));
    let ev = events(s, 2, true);
    let c = choice(6);
    let t = match c {
        0 => try_decode(s, None),
        1 => try_decode(s, Some(DecodeOptions { indent: None, strict: None, expand_paths: None })),
        2 => try_decode_from_lines(lines(s), None),
        3 => try_decode_from_lines(lines(s), Some(DecodeOptions { indent: Some(2), strict: None, expand_paths: None })),
        4 => try_decode_stream_sync(lines(s), None).and_then(build_node_from_events).map(node_to_json),
        _ => try_decode_stream_sync(lines(s), Some(DecodeStreamOptions { indent: None, strict: None })).and_then(build_node_from_events).map(node_to_json),
    };
    match (&full, &t) { (Ok(a), Ok(b)) => { reach(1); check(a == b, 1) } (Err(_), Err(_)) => reach(2), _ => fail(3) }
    check(ev.is_ok() == full.is_ok(), 4);
}
// ---- C13 ----------------------------------------------------------------------------------------------------
pub enum Fr { O(bool), A(usize, usize) }
/// exactly one root value, balanced, keys where they belong; lengths too if `lens`
pub fn well_formed(ev: &[JsonStreamEvent], lens: bool) -> bool {
    let mut st: Vec<Fr> = vec![];
    let mut roots = 0;
    for e in ev {
        let value = !matches!(e, JsonStreamEvent::EndObject | JsonStreamEvent::EndArray | JsonStreamEvent::Key { .. });
        if value {
            match st.last_mut() {
                None => roots += 1,
                Some(Fr::O(k)) => { if !*k { return false; } *k = false; }
                Some(Fr::A(_, n)) => *n += 1,
            }
        }
        match e {
            JsonStreamEvent::StartObject => st.push(Fr::O(false)),
            JsonStreamEvent::StartArray { length } => st.push(Fr::A(*length, 0)),
            JsonStreamEvent::EndObject => match st.pop() { Some(Fr::O(false)) => (), _ => return false },
            JsonStreamEvent::EndArray => match st.pop() { Some(Fr::A(l, n)) => if lens && l != n { return false }, _ => return false },
            JsonStreamEvent::Key { .. } => match st.last_mut() { Some(Fr::O(k)) if !*k => *k = true, _ => return false },
            JsonStreamEvent::Primitive { .. } => (),
        }
    }
    roots == 1 && st.is_empty()
}
/// the value a well-formed stream describes
pub fn value_of(ev: &[JsonStreamEvent], i: &mut usize) -> JsonValue {
    let e = ev[*i].clone();
    *i += 1;
    match e {
        JsonStreamEvent::Primitive { value } => JsonValue::Primitive(value),
        JsonStreamEvent::StartArray { .. } => { let mut v = vec![]; while ev[*i] != JsonStreamEvent::EndArray { v.push(value_of(ev, i)); } *i += 1; JsonValue::Array(v) }
        _ => {
            let mut v = vec![];
            while let JsonStreamEvent::Key { key, .. } = &ev[*i] { let k = key.clone(); *i += 1; let x = value_of(ev, i); v.push((k, x)); }
            *i += 1;
            JsonValue::Object(v)
        }
    }
}
pub fn wf(s: &str, indent: usize) {
    note(s);
    match events(s, indent, true) {
        Ok(e) => {
            reach(1);
            check(well_formed(&e, true), 1);
            match build_node_from_events(e.clone()) { Ok(n) => check(node_to_json(n) == value_of(&e, &mut 0), 2), Err(_) => fail(3) }
        }
        Err(_) => reach(2),
    }
    if let Ok(e) = events(s, indent, false) { check(well_formed(&e, false), 4); }
}
pub fn event(c: usize) -> JsonStreamEvent {
    match c {
        0 => JsonStreamEvent::StartObject,
        1 => JsonStreamEvent::EndObject,
        2 => JsonStreamEvent::StartArray { length: 1 },
        3 => JsonStreamEvent::EndArray,
        4 => JsonStreamEvent::Key { key: letter(), was_quoted: false },
        _ => JsonStreamEvent::Primitive { value: P::Number(1.0) },
    }
}
fn builder(n: usize) {
    let ev: Vec<JsonStreamEvent> = (0..n).map(|_| event(choice(6))).collect();
    let r = build_node_from_events(ev.clone());
    if well_formed(&ev, false) {
        reach(1);
        match r { Ok(v) => check(node_to_json(v) == value_of(&ev, &mut 0), 5), Err(_) => fail(6) }
    } else {
        reach(2);
        check(r.is_err(), 7);
    }
}
// ---- C15 ----------------------------------------------------------------------------------------------------
use asupersync::stream::Stream;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
/// counts wake-ups: whatever is pending must have arranged for one (there is no outside event it could wait for)
pub struct Wakes(AtomicUsize);
impl Wake for Wakes { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::Relaxed); } }
impl Wakes { fn count(&self) -> usize { self.0.load(Ordering::Relaxed) } }
pub struct Poller { w: Arc<Wakes>, seen: usize }
impl Poller {
    pub fn new() -> Poller { Poller { w: Arc::new(Wakes(AtomicUsize::new(0))), seen: 0 } }
    pub fn waker(&self) -> Waker { Waker::from(self.w.clone()) }
    pub fn pending(&mut self) { let n = self.w.count(); check(n > self.seen, 40); self.seen = n; }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut p = Poller::new();
    let w = p.waker();
    let mut cx = Context::from_waker(&w);
    loop { match f.as_mut().poll(&mut cx) { Poll::Ready(x) => return x, Poll::Pending => p.pending() } }
}
pub fn same_async(s: &str, indent: usize) {
    note(s);
    let strict = flag();
    let want = events(s, indent, strict);
    // the incremental stream, polled to the end and twice beyond
    let mut st = toon::decode::AsyncDecodeStream::new(lines(s).into_iter(), dso(indent, strict));
    let mut p = Poller::new();
    let w = p.waker();
    let mut cx = Context::from_waker(&w);
    let (mut got, mut err, mut ended) = (vec![], false, 0);
    let mut polls = 0;
    while ended < 3 {
        polls += 1;
        check(polls < 400_000, 6);
        match Pin::new(&mut st).poll_next(&mut cx) {
            Poll::Ready(Some(Ok(e))) => { check(!err && ended == 0, 1); got.push(e); }
            Poll::Ready(Some(Err(_))) => { check(!err && ended == 0, 2); err = true; }
            Poll::Ready(None) => ended += 1,
            Poll::Pending => p.pending(),
        }
    }
    match &want {
        Ok(w) => { reach(1); check(!err, 3); check(got == *w, 4); }
        Err(_) => { reach(2); check(err, 5); }
    }
}
fn same_async_calls(s: &str, indent: usize) {
    note(s);
    let (strict, expand) = (flag(), flag());
    let want = events(s, indent, strict);
    let a = block_on(toon::decode::try_decode_stream_async(lines(s), dso(indent, strict)));
    match (&want, &a) { (Ok(x), Ok(y)) => { reach(1); check(x == y, 7) } (Err(_), Err(_)) => reach(2), _ => fail(8) }
    let v = try_decode(s, dec(indent, strict, expand));
    let b = block_on(toon::decode::try_decode_async(s, dec(indent, strict, expand)));
    match (&v, &b) { (Ok(x), Ok(y)) => check(x == y, 9), (Err(_), Err(_)) => (), _ => fail(10) }
}
// ---- C25 ----------------------------------------------------------------------------------------------------
fn mentions(ev: &[JsonStreamEvent], m: &str) -> bool {
    ev.iter().any(|e| match e {
        JsonStreamEvent::Key { key, .. } => key.contains(m),
        JsonStreamEvent::Primitive { value: P::String(s) } => s.contains(m),
        _ => false,
    })
}
pub fn placed(d: &Doc, indent: usize) {
    note(&d.text);
    match events(&d.text, indent, true) {
        Ok(e) => {
            reach(1);
            for m in &d.must { check(mentions(&e, m), 1); }
            // every list item is an element of some array
            let items = d.text.split('\n').filter(|l| l.trim() == "-" || l.trim_start().starts_with("- ")).count();
            let mut elems = 0;
            let mut st: Vec<bool> = vec![];
            for x in &e {
                if matches!(x, JsonStreamEvent::StartObject | JsonStreamEvent::StartArray { .. } | JsonStreamEvent::Primitive { .. }) && st.last() == Some(&true) { elems += 1; }
                match x { JsonStreamEvent::StartObject => st.push(false), JsonStreamEvent::StartArray { .. } => st.push(true), JsonStreamEvent::EndObject | JsonStreamEvent::EndArray => { st.pop(); } _ => () }
            }
            if !d.text.contains("\"") && !e.iter().any(|x| match x { JsonStreamEvent::Key { key, .. } => key.contains('-'), JsonStreamEvent::Primitive { value: P::String(s) } => s.contains('-'), _ => false }) { check(elems >= items, 2); }
        }
        Err(_) => reach(2),
    }
}
fn marked() -> (String, Vec<String>) {
    // marker lines inserted at any place of a well-formed document
    let base: &[&str] = [
        &["a: 1", "b:", "  c: 2", "d: 3"][..],
        &["a[2]: 1,2", "b[1]{x}:", "  3", "c: 4"][..],
        &["a[2]:", "  - 1", "  - b: 2", "    c: 3", "d: 4"][..],
        &["[2]:", "  - 1", "  - [2]: 2,3"][..],
        &["[2]{x,y}:", "  1,2", "  3,4"][..],
        &["[2]: 1,2"][..],
        &["a[1]:", "  - b[1]{x}:", "      1", "    c: 2"][..],
        &["a[1]:", "  - b[1]:", "      - 1", "    c:", "      d: 2"][..],
        &["a"][..],
    ][choice(9)];
    let at = choice(base.len() + 1);
    let (extra, m) = [("zz: ZZ", "ZZ"), ("- ZZ", "ZZ"), ("ZZ", "ZZ"), ("ZZ,9", "ZZ"), ("zz:", "zz"), ("zz[1]: ZZ", "ZZ"), ("- zz: ZZ", "ZZ"), ("[1]: ZZ", "ZZ")][choice(8)];
    let ind = ["", "  ", "    ", "      ", " ", "   "][choice(6)];
    let mut out: Vec<String> = base.iter().map(|l| l.to_string()).collect();
    out.insert(at, format!("{ind}{extra}"));
    (out.join("\n"), vec![m.to_string()])
}

fn ind3() -> usize { [2, 0, 1][choice(3)] }
// short texts, fully symbolic
pub fn c07_utf8_3() { total(&utf8(3), ind3()) }
pub fn c07_utf8_4() { total(&utf8(4), 2) }
pub fn c07_ascii4() { total(&ascii(4), 2) }
pub fn c07_ascii5() { total(&ascii(5), 2) }
pub fn c07_lines2() { total(&lines2().text, ind3()) }
pub fn c07_lines3() { total(&lines3().text, 2) }
pub fn c07_lines3_full() { total(&lines3_full().text, 2) }
pub fn c07_lines4() { total(&lines4().text, 2) }
pub fn c07_window1() { total(&window(1), ind3()) }
pub fn c07_window2() { total(&window(2), 2) }
pub fn c07_window3() { total(&window(3), 2) }
pub fn c07_window8() { total(&window8(2), 2) }
pub fn c07_window8_3() { total(&window8(3), 2) }
pub fn c07_events3() { total_events(&ascii(3), ind3()) }
pub fn c07_events_w() { total_events(&window(1), ind3()) }
pub fn c07_deep() { let n = [1, 2, 10, 60][choice(4)]; total(&nested(n, choice(6)), ind3()) }
pub fn c07_indent() { let i = [0, 1, 2, 3, 4, 7, 8, usize::MAX, 1 << 63, u32::MAX as usize][choice(10)]; total(&window(1), i) }

pub fn c11_ascii4() { within(&ascii(4), 2, false) }
pub fn c11_ascii5() { within(&ascii(5), 2, false) }
pub fn c11_lines2() { within(&lines2().text, ind3(), true) }
pub fn c11_lines3() { within(&lines3().text, 2, true) }
pub fn c11_lines3_full() { within(&lines3_full().text, 2, true) }
pub fn c11_lines4() { within(&lines4().text, 2, false) }
pub fn c11_window1() { within(&window(1), ind3(), true) }
pub fn c11_window2() { within(&window(2), 2, true) }
pub fn c11_window3() { within(&window(3), 2, true) }

pub fn c12_ascii3() { agree(&ascii(3), 2, flag()) }
pub fn c12_ascii4() { agree(&ascii(4), 2, flag()) }
pub fn c12_lines2() { agree(&lines2().text, ind3(), flag()) }
pub fn c12_lines3() { agree(&lines3().text, 2, flag()) }
pub fn c12_lines4() { agree(&lines4().text, 2, flag()) }
pub fn c12_window1() { agree(&window(1), ind3(), flag()) }
pub fn c12_window2() { agree(&window(2), 2, flag()) }
pub fn c12_defaults() { let s = if flag() { window(1) } else { lines2().text }; defaults(&s) }

pub fn c13_ascii4() { wf(&ascii(4), 2) }
pub fn c13_ascii5() { wf(&ascii(5), 2) }
pub fn c13_lines2() { wf(&lines2().text, ind3()) }
pub fn c13_lines3() { wf(&lines3().text, 2) }
pub fn c13_lines3_full() { wf(&lines3_full().text, 2) }
pub fn c13_lines4() { wf(&lines4().text, 2) }
pub fn c13_window1() { wf(&window(1), ind3()) }
pub fn c13_window2() { wf(&window(2), 2) }
pub fn c13_window3() { wf(&window(3), 2) }
pub fn c13_build5() { builder(choice(6)) }
pub fn c13_build6() { builder(6) }
pub fn c13_build7() { builder(7) }

pub fn c15_ascii3() { same_async(&ascii(3), 2) }
pub fn c15_ascii4() { same_async(&ascii(4), 2) }
pub fn c15_lines2() { same_async(&lines2().text, ind3()) }
pub fn c15_lines3() { same_async(&lines3().text, 2) }
pub fn c15_lines4() { same_async(&lines4().text, 2) }
pub fn c15_flat() {
    // flat lines first, then anything
    let mut d = Doc::new();
    d.line(0, "", [0, 20, 21][choice(3)]);
    d.line(1, INDENTS[choice(3)], [0, 20, 6, 1, 18, 2, 9, 10][choice(8)]);
    d.line(2, INDENTS[choice(4)], [0, 1, 2, 4, 7, 9, 18, 8][choice(8)]);
    d.line(3, INDENTS[choice(2)], [0, 2, 9, 18][choice(4)]);
    same_async(&d.text, 2)
}
pub fn c15_window1() { same_async(&window(1), ind3()) }
pub fn c15_window2() { same_async(&window(2), 2) }
pub fn c15_calls() { same_async_calls(&window(1), ind3()) }
pub fn c15_calls2() { same_async_calls(&lines2().text, 2) }

pub fn c25_lines2() { placed(&lines2(), ind3()) }
pub fn c25_lines3() { placed(&lines3(), 2) }
pub fn c25_lines3_full() { placed(&lines3_full(), 2) }
pub fn c25_lines4() { placed(&lines4(), 2) }
pub fn c25_marked() { let (text, must) = marked(); placed(&Doc { text, must }, ind3()) }
pub fn c07_ascii6() { total(&ascii(6), 2) }
pub fn c07_window4() { total(&window(4), 2) }

// ---- long lines and wide characters -------------------------------------------------------------------------
/// a text in which one token is long and made of wide characters
fn long_text() -> String {
    let l = long8();
    let b = ascii(1);
    let l = match choice(3) { 0 => l, 1 => [&b, &l[..]].concat(), _ => [&l, &b[..]].concat() };
    match choice(12) {
        0 => l,
        1 => ["k: ", &l].concat(),
        2 => [&l, ": v"].concat(),
        3 => ["k: 1\n", &l].concat(),
        4 => ["k: \"", &l].concat(),
        5 => ["\"", &l, "\": \"", &l, "\""].concat(),
        6 => ["[2]: x,", &l].concat(),
        7 => ["k[1]{", &l, "}:\n  1"].concat(),
        8 => ["k[1]{f}:\n  ", &l].concat(),
        9 => ["k[2]:\n  - ", &l, "\n  - ", &l, ": 1"].concat(),
        10 => ["k[", &l, "]: 1"].concat(),
        _ => [&l, "\n", &l].concat(),
    }
}
pub fn c07_long() { total(&long_text(), 2) }
pub fn c11_long() { within(&long_text(), 2, false) }
pub fn c12_long() { let s = long_text(); agree(&s, 2, flag()) }
pub fn c15_long() { let s = long_text(); same_async(&s, 2) }
