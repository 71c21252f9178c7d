//! C14 encode-side events and lines, C15 (encoding side), C18 replacer, C19 numbers.
use super::docs::*;
use super::model::*;
use super::p_decode::{block_on, Poller, dso, events, lines, value_of, well_formed};
use super::sym::*;
use super::util::*;
use asupersync::stream::Stream;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// equality that tells 0 from -0
pub fn same(a: &JsonValue, b: &JsonValue) -> bool {
    match (a, b) {
        (JsonValue::Primitive(P::Number(x)), JsonValue::Primitive(P::Number(y))) => x.to_bits() == y.to_bits(),
        (JsonValue::Primitive(x), JsonValue::Primitive(y)) => x == y,
        (JsonValue::Array(x), JsonValue::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (JsonValue::Object(x), JsonValue::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && same(&x.1, &y.1)),
        _ => false,
    }
}
/// non-finite numbers to null, negative zero to zero
pub fn normal(v: &JsonValue) -> JsonValue {
    match v {
        JsonValue::Primitive(P::Number(x)) => {
            let b = x.to_bits();
            if b << 1 >> 53 == 0x7ff { null() } else if b << 1 == 0 { num(0.0) } else { num(*x) }
        }
        JsonValue::Primitive(_) => v.clone(),
        JsonValue::Array(a) => arr(a.iter().map(normal).collect()),
        JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
    }
}

// ---- C14, C15 ---------------------------------------------------------------------------------------------------
pub fn streams(v: &JsonValue, o: Opt) {
    let ev = encode_stream_events(v.clone(), o.enc());
    reach(1);
    check(well_formed(&ev, true), 1);
    let mut i = 0;
    let w = value_of(&ev, &mut i);
    check(i == ev.len() && same(&w, &normal(v)), 2);
    for e in &ev { if let JsonStreamEvent::Key { key, was_quoted } = e { check(*was_quoted == !bare_key(key), 3); } }
    let l = encode_lines(v.clone(), o.enc());
    let s = encode(v.clone(), o.enc());
    note(&s);
    check(l.join("\n") == s, 4);
    check(l.iter().all(|l| !l.contains('\n')), 5);
    // what the decoder emits for the text (folded keys and table rows have their own order and spelling)
    if o.fold.is_none() {
        match events(&s, o.indent, true) {
            Ok(d) => check(d == encode_stream_events(as_decoded(v), o.enc()), 6),
            Err(_) => fail(7),
        }
    }
}
pub fn collect<S: Stream + Unpin>(mut s: S) -> Vec<S::Item> {
    let mut p = Poller::new();
    let w = p.waker();
    let mut cx = Context::from_waker(&w);
    let (mut out, mut ended, mut polls) = (vec![], 0, 0);
    while ended < 3 {
        polls += 1;
        check(polls < 400_000, 20);
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Ready(Some(x)) => { check(ended == 0, 21); out.push(x); }
            Poll::Ready(None) => ended += 1,
            Poll::Pending => p.pending(),
        }
    }
    out
}
pub fn same_async(v: &JsonValue, o: Opt) {
    use toon::encode::async_encode as a;
    let (l, s, e) = (encode_lines(v.clone(), o.enc()), encode(v.clone(), o.enc()), encode_stream_events(v.clone(), o.enc()));
    note(&s);
    reach(1);
    let st = toon::encode::AsyncEncodeStream::new(v.clone(), o.enc());
    check(st.len() == l.len() && st.is_empty() == l.is_empty(), 22);
    check(collect(st) == l, 23);
    check(collect(toon::encode::AsyncEncodeEventStream::new(v.clone(), o.enc())) == e, 24);
    check(block_on(toon::encode::encode_lines_async(v.clone(), o.enc())) == l, 25);
    check(block_on(toon::encode::encode_async(v.clone(), o.enc())) == s, 26);
    check(block_on(toon::encode::encode_events_async(v.clone(), o.enc())) == e, 27);
    check(matches!(block_on(a::try_encode_lines_async(v.clone(), o.enc())), Ok(x) if x == l), 28);
    check(matches!(block_on(a::try_encode_async(v.clone(), o.enc())), Ok(x) if x == s), 29);
    check(matches!(block_on(a::try_encode_events_async(v.clone(), o.enc())), Ok(x) if x == e), 30);
}
type F = fn(&JsonValue, Opt);
fn folds(o: Opt) -> Opt { Opt { fold: match choice(2) { 0 => None, _ => Some(100) }, ..o } }
fn shapes(f: F) { let o = opts(); f(&value(2, 2, 2), folds(o)) }
fn leaves(f: F) { let o = Opt::new(',', 2); f(&value(1, 2, 6), o) }
fn wraps(f: F, n: usize) {
    let o = opts();
    let mut v = if n == 1 { value(2, 2, 1) } else { value(1, 2, 1) };
    for _ in 0..n { v = wrap(choice(NWRAP), v); }
    f(&v, folds(o))
}
fn tables(f: F) { let o = opts(); let t = table(3, 3); let v = match choice(5) { 0 => t, c => wrap([0, 7, 8, 5][c - 1], t) }; f(&v, o) }
/// a symbolic string as key and as value
fn strings(f: F, n: usize) {
    let s = ascii(n);
    let o = Opt::new(delim(), 2);
    let v = match choice(5) {
        0 => JsonValue::from(s),
        1 => kv(s, num(1.0)),
        2 => arr(vec![JsonValue::from(s), num(1.0)]),
        3 => arr(vec![kv(s.clone(), JsonValue::from(s))]),
        _ => arr(vec![kv(s, arr(vec![num(1.0)]))]),
    };
    f(&v, o)
}
fn special() -> f64 { f64::from_bits([0x8000_0000_0000_0000u64, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0001, 0x3ff0_0000_0000_0000][choice(6)]) }
fn specials(f: F) { let o = opts(); let v = wrap(choice(NWRAP), wrap(choice(NWRAP), num(special()))); f(&v, o) }
fn large(f: F) { let v = big(); f(&v, Opt::new(',', 2)) }
fn mixes(f: F) { let v = mixed(2); f(&v, folds(Opt::new(',', 2))) }
pub fn c14_mixed() { mixes(streams) }
pub fn c15_enc_mixed() { mixes(same_async) }
pub fn c18_mixed() { let v = mixed(1); one(&v, 12) }
pub fn c14_shapes() { shapes(streams) }
pub fn c14_leaves() { leaves(streams) }
pub fn c14_wrap1() { wraps(streams, 1) }
pub fn c14_wrap2() { wraps(streams, 2) }
pub fn c14_tables() { tables(streams) }
pub fn c14_strings1() { strings(streams, 1) }
pub fn c14_strings2() { strings(streams, 2) }
pub fn c14_specials() { specials(streams) }
pub fn c14_large() { large(streams) }
pub fn c15_enc_shapes() { shapes(same_async) }
pub fn c15_enc_leaves() { leaves(same_async) }
pub fn c15_enc_wrap1() { wraps(same_async, 1) }
pub fn c15_enc_wrap2() { wraps(same_async, 2) }
pub fn c15_enc_tables() { tables(same_async) }
pub fn c15_enc_strings() { strings(same_async, 1) }
pub fn c15_enc_specials() { specials(same_async) }

// ---- C18 --------------------------------------------------------------------------------------------------------
type Call = (String, Vec<toon::options::PathSegment>, JsonValue, Option<JsonValue>);
#[derive(Default)]
struct Log { calls: Vec<Call>, replay: bool, at: usize, mismatch: bool }
/// an arbitrary replacer: decides at every call, remembers what it decided, and repeats it when replayed
fn any_replacer(log: &Arc<Mutex<Log>>, menu: usize) -> EncodeReplacer {
    let log = log.clone();
    Arc::new(move |k, v, p| {
        let mut g = log.lock().unwrap();
        if g.replay {
            let i = g.at;
            g.at += 1;
            let same_call = i < g.calls.len() && g.calls[i].0 == k && g.calls[i].1 == p && same(&g.calls[i].2, v);
            if !same_call { g.mismatch = true; return None; }
            return g.calls[i].3.clone();
        }
        let n = g.calls.len();
        let r = match choice(if n > 4 { 2 } else if n > 2 { menu.min(5) } else if menu > 8 { 8 } else if n > 1 { menu.min(3) } else { menu }) {
            0 => Some(v.clone()),
            1 => None,
            2 => Some(num([-0.0, f64::INFINITY][choice(2)])),
            3 => Some(st("s")),
            4 => Some(arr(vec![])),
            5 => Some(arr(vec![num(-0.0), st("e")])),
            6 => Some(obj(vec![("n", num(f64::NAN)), ("m", st("f"))])),
            _ => Some(arr(vec![v.clone()])),
        };
        g.calls.push((k.to_string(), p.to_vec(), v.clone(), r.clone()));
        r
    })
}
/// reference traversal: expects the recorded calls in order
fn expect(v: &JsonValue, path: &mut Vec<toon::options::PathSegment>, calls: &[Call], at: &mut usize) -> JsonValue {
    use toon::options::PathSegment as S;
    match v {
        JsonValue::Primitive(_) => v.clone(),
        JsonValue::Array(a) => {
            let mut out = vec![];
            for (i, x) in a.iter().enumerate() {
                path.push(S::Index(i));
                if let Some(y) = called(&i.to_string(), x, path, calls, at) { out.push(expect(&y, path, calls, at)); }
                path.pop();
            }
            arr(out)
        }
        JsonValue::Object(o) => {
            let mut out = vec![];
            for (k, x) in o {
                path.push(S::Key(k.clone()));
                if let Some(y) = called(k, x, path, calls, at) { let y = expect(&y, path, calls, at); out.push((k.clone(), y)); }
                path.pop();
            }
            JsonValue::Object(out)
        }
    }
}
fn called(k: &str, v: &JsonValue, path: &[toon::options::PathSegment], calls: &[Call], at: &mut usize) -> Option<JsonValue> {
    if *at >= calls.len() { fail(40); }
    let c = &calls[*at];
    *at += 1;
    check(c.0 == k, 41);
    check(c.1 == path, 42);
    check(same(&c.2, v), 43);
    c.3.as_ref().map(normal)
}
fn replaced(v: &JsonValue, o: Opt, menu: usize) {
    let log = Arc::new(Mutex::new(Log::default()));
    let r = any_replacer(&log, menu);
    let eo = || Some(EncodeOptions { replacer: Some(r.clone()), ..o.enc().unwrap() });
    let ev = encode_stream_events(v.clone(), eo());
    let calls = std::mem::take(&mut log.lock().unwrap().calls);
    // the calls and the resulting value
    let root = normal(v);
    let mut at = 0;
    let start = called("", &root, &[], &calls, &mut at).unwrap_or(root);
    let want = expect(&start, &mut vec![], &calls, &mut at);
    reach(1);
    check(at == calls.len(), 44);
    if calls.iter().any(|c| c.3.is_none()) { reach(2); }
    let mut i = 0;
    let got = value_of(&ev, &mut i);
    check(i == ev.len() && same(&got, &want), 45);
    // every other encoder makes the same calls and encodes the same value
    let plain = |f: fn(&JsonValue, Option<EncodeOptions>) -> Vec<String>, code: u32| {
        { let mut g = log.lock().unwrap(); g.calls = calls.clone(); g.replay = true; g.at = 0; }
        let a = f(v, eo());
        let (n, bad) = { let g = log.lock().unwrap(); (g.at, g.mismatch) };
        check(!bad && n == calls.len(), code);
        check(a == f(&want, o.enc()), code + 1);
    };
    plain(|v, o| encode_lines(v.clone(), o), 46);
    plain(|v, o| vec![encode(v.clone(), o)], 48);
    plain(|v, o| block_on(toon::encode::encode_lines_async(v.clone(), o)), 50);
    plain(|v, o| vec![block_on(toon::encode::encode_async(v.clone(), o))], 52);
    plain(|v, o| collect(toon::encode::AsyncEncodeStream::new(v.clone(), o)), 54);
    let evs = |v: &JsonValue, o: Option<EncodeOptions>, k: usize| if k == 0 { collect(toon::encode::AsyncEncodeEventStream::new(v.clone(), o)) } else { block_on(toon::encode::encode_events_async(v.clone(), o)) };
    for k in 0..2 {
        { let mut g = log.lock().unwrap(); g.calls = calls.clone(); g.replay = true; g.at = 0; }
        check(evs(v, eo(), k) == ev, 56);
    }
}
pub fn c18_shapes() { let v = value(2, 2, 1); replaced(&v, Opt::new(',', 2), 2) }
pub fn c18_shapes5() { let v = value(2, 2, 1); replaced(&v, Opt::new(',', 2), 5) }
pub fn c18_menu() { let v = value(1, 1, 2); replaced(&v, Opt::new('|', 2), 8) }
pub fn c18_menu2() { let v = value(1, 2, 2); replaced(&v, Opt::new('|', 2), 9) }
pub fn c18_wraps() { let v = wrap(choice(NWRAP), value(1, 1, 1)); replaced(&v, Opt::new(',', 2), 3) }
pub fn c18_wraps_all() { let v = wrap(choice(NWRAP), value(1, 2, 1)); let o = folds(Opt::new(',', 2)); replaced(&v, o, 9) }
pub fn c18_special() { let v = wrap(choice(NWRAP), num(special())); replaced(&v, Opt::new(',', 2), 3) }
/// arrays with more than ten elements, deep paths: drop or replace one node, whichever
pub fn c18_index() {
    let n = [9, 10, 11, 12, 100, 101][choice(6)];
    let a = arr((0..n).map(|i| if i % 2 == 0 { num(i as f64) } else { arr(vec![num(i as f64)]) }).collect());
    one(&obj(vec![("k", a), ("z", num(1.0))]), 160)
}
pub fn c18_deep4() { one(&deep(&[4]), 8) }
pub fn c18_deep() { one(&deep(&[2, 9, 33]), 40) }
pub fn c18_keys() {
    let k = ascii(1);
    one(&obj(vec![("p", arr(vec![kv(k.clone(), obj(vec![("q", num(1.0))]))])), (&k, null())]), 6)
}
/// a replacer that keeps everything but its h-th call (any h < n)
fn one(v: &JsonValue, n: usize) { one_at(v, choice(n)) }
/// the replacer changes its answer at call h only
pub fn one_at(v: &JsonValue, h: usize) {
    let log: Arc<Mutex<Vec<Call>>> = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    let r: EncodeReplacer = Arc::new(move |k, v, p| {
        let mut g = l.lock().unwrap();
        let r = if g.len() == h { match choice(3) { 0 => None, 1 => Some(num(-0.0)), _ => Some(obj(vec![("x", arr(vec![num(f64::NAN)]))])) } } else { Some(v.clone()) };
        g.push((k.to_string(), p.to_vec(), v.clone(), r.clone()));
        r
    });
    let o = Opt::new(',', 2);
    let s = encode(v.clone(), Some(EncodeOptions { replacer: Some(r), ..o.enc().unwrap() }));
    note(&s);
    let calls = log.lock().unwrap().clone();
    let root = normal(v);
    let mut at = 0;
    let start = called("", &root, &[], &calls, &mut at).unwrap_or(root);
    let want = expect(&start, &mut vec![], &calls, &mut at);
    reach(1);
    check(at == calls.len(), 60);
    check(s == encode(want, o.enc()), 61);
}

// ---- C19 --------------------------------------------------------------------------------------------------------
fn bits() -> f64 { f64::from_bits(u64::from_le_bytes([byte(), byte(), byte(), byte(), byte(), byte(), byte(), byte()])) }
fn finite(x: f64) -> bool { x.to_bits() << 1 >> 53 != 0x7ff }
/// constructor, conversions and event encoders on every bit pattern, anywhere in a value
pub fn c19_bits() {
    let x = bits();
    let want = normal(&num(x));
    reach(if finite(x) { 1 } else { 2 });
    check(same(&JsonValue::from(x), &want), 1);
    check(same(&JsonValue::Primitive(P::from_f64(x)), &want), 2);
    let (mut i, mut j) = (0, 0);
    check(same(&value_of(&encode_stream_events(num(x), None), &mut i), &want), 3);
    check(same(&value_of(&collect(toon::encode::AsyncEncodeEventStream::new(num(x), None)), &mut j), &want), 4);
}
pub fn c19_anywhere() {
    let x = bits();
    let v = wrap(choice(NWRAP), wrap(choice(NWRAP), num(x)));
    let mut i = 0;
    reach(if finite(x) { 1 } else { 2 });
    check(same(&value_of(&encode_stream_events(v.clone(), None), &mut i), &normal(&v)), 5);
}
/// text of every value that is not a finite non-zero number, anywhere
pub fn c19_nonfinite() {
    let x = bits();
    assume(!finite(x) || x.to_bits() << 1 == 0);
    let v = wrap(choice(NWRAP), wrap(choice(NWRAP), num(x)));
    let o = opts();
    reach(if finite(x) { 1 } else { 2 });
    check(encode(v.clone(), o.enc()) == encode_model(&normal(&v), o), 6);
}
/// the integers the decoder and the text can share
pub fn c19_ints() {
    let k = if flag() { byte() as i8 as i64 } else { [i64::MAX, i64::MIN, i64::MIN + 1, 0, -1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1][choice(8)] };
    let v = JsonValue::from(k);
    reach(1);
    check(matches!(v, JsonValue::Primitive(P::Number(x)) if x == k as f64 && x.to_bits() != 1 << 63), 7);
}
/// plain decimal text: optional minus, digits without redundant zeros, optional fraction without trailing zero
fn plain_decimal(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = s.split_once('.').map_or((s, None), |(i, f)| (i, Some(f)));
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    digits(i) && (i == "0" || !i.starts_with('0')) && f.is_none_or(|f| digits(f) && !f.ends_with('0'))
}
fn printed(x: f64) {
    let s = encode(num(x), None);
    note(&s);
    reach(1);
    check(plain_decimal(&s), 8);
    check(x.to_bits() << 1 != 0 || s == "0", 9);
    match try_decode(&s, dec(2, true, false)) { Ok(w) => check(same(&w, &normal(&num(x))), 10), Err(_) => fail(11) }
    // the same text in other positions
    let t = encode(obj(vec![("k", num(x)), ("l", arr(vec![num(x), num(x)])), ("t", arr(vec![obj(vec![("f", num(x)), ("g", num(x))])]))]), None);
    check(t == format!("k: {s}\nl[2]: {s},{s}\nt[1]{{f,g}}:\n  {s},{s}"), 12);
}
/// every exponent with several mantissas
pub fn c19_print() {
    let e = [0u64, 1, 2, 100, 500, 900, 960, 970, 980, 990, 1000, 1010, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1040, 1050, 1060, 1070, 1074, 1075, 1076, 1077, 1080, 1090, 1100, 1200, 1500, 2000, 2045, 2046][choice(37)];
    print_at(e)
}
pub fn c19_print_all() { let e = choice(8) * 256 + choice(256); assume(e < 2047); print_at(e as u64) }
fn print_at(e: u64) {
    let m = [0u64, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x3_3333_3333_3333, 0x5_5555_5555_5555, 0x9_21fb_5444_2d18][choice(7)];
    printed(f64::from_bits((choice(2) as u64) << 63 | e << 52 | m))
}
/// powers of ten and their neighbours
pub fn c19_print10() {
    let (t, k) = (choice(47) as i32 - 23, [-2i64, -1, 0, 1, 2][choice(5)]);
    let x: f64 = format!("{}e{t}", [1, 5, 9, 123][choice(4)]).parse().unwrap();
    printed(f64::from_bits((x.to_bits() as i64 + k) as u64))
}
/// no text decodes to a non-finite number or to negative zero
fn clean(v: &JsonValue) -> bool {
    match v {
        JsonValue::Primitive(P::Number(x)) => finite(*x) && x.to_bits() != 1 << 63,
        JsonValue::Primitive(_) => true,
        JsonValue::Array(a) => a.iter().all(clean),
        JsonValue::Object(o) => o.iter().all(|e| clean(&e.1)),
    }
}
fn decoded(t: &str) {
    let s = match choice(6) { 0 => t.to_string(), 1 => format!("k: {t}"), 2 => format!("k[2]: {t},{t}"), 3 => format!("k[1]{{f}}:\n  {t}"), 4 => format!("[1]:\n  - {t}"), _ => format!("[1]:\n  - k: {t}") };
    note(&s);
    let strict = flag();
    if let Ok(v) = try_decode(&s, dec(2, strict, !strict)) { reach(1); check(clean(&v), 13); }
    if let Ok(ev) = events(&s, 2, strict) { for e in ev { if let JsonStreamEvent::Primitive { value } = e { check(clean(&JsonValue::Primitive(value)), 14); } } }
}
pub fn c19_text3() { decoded(&ascii(3)) }
pub fn c19_text4() { let t: Vec<u8> = (0..4).map(|_| { let b = range(b'+', b'e'); assume(b"-0123456789.eE+".contains(&b)); b }).collect(); decoded(&string(t)) }
pub fn c19_minus() { let n = ascii(2); let t = ["-0", "-0.", "-0e", "-0.0", "-", "-0.00000", "-0E-"][choice(7)]; decoded(&[t, &n].concat()) }
/// magnitudes around the ends of the range
pub fn c19_range() {
    let d = between(b'0', b'9', 2);
    let h = ["1e3", "-1e3", "9.9e3", "-0e3", "1e-3", "-1e-3", "0.1e3", "-1e-9", "17976931348623157e2", "-4e-3"][choice(10)];
    decoded(&[h, &d].concat())
}
pub fn c19_digits() {
    let n = [300, 308, 309, 310, 330, 400][choice(6)];
    let d = between(b'0', b'9', 1);
    let t = match choice(3) { 0 => [&d, &"0".repeat(n)[..]].concat(), 1 => ["-0.", &"0".repeat(n), &d].concat(), _ => ["-", &"9".repeat(n), &d].concat() };
    decoded(&t)
}
