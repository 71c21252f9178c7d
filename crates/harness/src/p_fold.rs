//! C04 fold/expand round trip, C05 exact folding, C06 path expansion.
use super::model::*;
use super::sym::*;
use super::util::*;

fn dot_free(v: &JsonValue) -> bool {
    match v {
        JsonValue::Object(o) => o.iter().all(|(k, v)| !k.contains('.') && dot_free(v)),
        JsonValue::Array(a) => a.iter().all(dot_free),
        _ => true,
    }
}
pub fn restore(v: &JsonValue, o: Opt) {
    if !dot_free(v) { assume(false); }
    let e = encode(v.clone(), o.enc());
    note(&e);
    let w = try_decode(&e, o.dec(true, true));
    let raw = try_decode(&e, o.dec(true, false));
    reach(1);
    check(raw.is_ok(), 3);
    match w { Ok(w) => check(w == as_decoded(v), 2), Err(_) => fail(1) }
}
pub fn exact(v: &JsonValue, o: Opt) {
    let e = encode(v.clone(), o.enc());
    note(&e);
    let m = encode_model(v, o);
    reach(1);
    check(e == m, 4);
    if o.fold.unwrap_or(0) < 2 {
        check(e == encode(v.clone(), Opt { fold: None, ..o }.enc()), 5);
        reach(2);
    } else if e != encode_model(v, Opt { fold: None, ..o }) { reach(3); }
}
type F = fn(&JsonValue, Opt);
fn depth() -> Option<usize> { Some([usize::MAX, 2, 3, 4, 0, 1][choice(6)]) }
fn depth3() -> Option<usize> { Some([usize::MAX, 2, 3][choice(3)]) }

/// nested objects of width <= 2 with a few other leaves
fn tree(d: usize, arrays: bool) -> JsonValue {
    match choice(if d == 0 { 2 } else if arrays { 5 } else { 4 }) {
        0 => num(1.0),
        1 => obj(vec![]),
        2 => obj(vec![("a", tree(d - 1, arrays))]),
        3 => obj(vec![("a", tree(d - 1, arrays)), ("b", tree(d - 1, arrays))]),
        _ => arr(vec![tree(d - 1, arrays)]),
    }
}
fn trees(f: F, d: usize) {
    let v = obj(vec![("r", tree(d, true))]);
    f(&v, Opt { indent: 2, delim: ',', fold: depth3() });
}
/// a chain of n single-key objects below a root with siblings; one segment may be odd, one level may branch
fn chains(f: F, max: usize, dots: bool) {
    let n = 1 + choice(max);
    let odd = choice(n + 1);
    let odd_key = if odd < n { match choice(4) { 0 => ascii(2), 1 => "a b".to_string(), 2 => String::new(), _ => if dots { "x.y".to_string() } else { "9".to_string() } } } else { String::new() };
    let branch = choice(n + 1);
    let leaf = match choice(5) { 0 => num(1.0), 1 => obj(vec![]), 2 => arr(vec![num(1.0)]), 3 => arr(vec![obj(vec![("m", obj(vec![("n", num(2.0))]))])]), _ => obj(vec![("m", num(1.0)), ("n", num(2.0))]) };
    let mut v = leaf;
    for i in (0..n).rev() {
        let k = if i == odd { odd_key.clone() } else { ["a", "b", "c", "d", "e", "f", "g", "h"][i].to_string() };
        let mut o = vec![(k, v)];
        if i == branch { let at = choice(2); o.insert(at, ("s".into(), obj(vec![("t", num(3.0))]))); }
        v = JsonValue::Object(o);
    }
    let v = match choice(4) { 0 => v, 1 => obj(vec![("z", v)]), 2 => arr(vec![v.clone(), v]), _ => arr(vec![obj(vec![("z", num(0.0)), ("r", v)])]) };
    f(&v, Opt { indent: 2, delim: ',', fold: depth() });
}
/// a sibling or root key of arbitrary bytes next to a foldable chain (C05: the collisions)
fn collide(n: usize) {
    let k = ascii(n);
    let c = match choice(2) { 0 => obj(vec![("b", num(1.0))]), _ => obj(vec![("b", obj(vec![("c", num(1.0)), ("d", num(2.0))]))]) };
    let (p, q) = (("a".to_string(), c.clone()), (k.clone(), num(5.0)));
    assume(k != "a");
    let o = match choice(2) { 0 => vec![p, q], _ => vec![q, p] };
    let v = match choice(5) {
        0 => JsonValue::Object(o),
        1 => arr(vec![JsonValue::Object(o)]),
        2 => kv("z".into(), JsonValue::Object(o)),
        3 => { assume(k != "z"); JsonValue::Object(vec![(k, num(5.0)), ("z".to_string(), obj(vec![("y", num(1.0)), ("a", c)]))]) }
        _ => { assume(k != "z"); JsonValue::Object(vec![("z".to_string(), obj(vec![("a", c)])), (k, obj(vec![("e", obj(vec![("f", null())]))]))]) }
    };
    exact(&v, Opt { indent: 2, delim: ',', fold: Some([usize::MAX, 2][choice(2)]) });
}
/// chains with a symbolic segment; siblings at each level by choice
fn seg(n: usize) { seg_of(exact, ascii(n)) }
fn seg_of(f: F, k: String) {
    let i = choice(3);
    let name = |j: usize| if i == j { k.clone() } else { ["a", "b", "c"][j].to_string() };
    let v = JsonValue::Object(vec![(name(0), kv(name(1), kv(name(2), num(1.0))))]);
    let v = match choice(2) { 0 => v, _ => arr(vec![num(1.0), obj(vec![("p", num(1.0)), ("q", v)])]) };
    f(&v, Opt { indent: 2, delim: ',', fold: depth() });
}
/// a segment with a wide or odd character at its start, in its middle or at its end
fn seg8(f: F) {
    let u = utf8([1, 2, 3][choice(3)]);
    seg_of(f, match choice(3) { 0 => u, 1 => ["q", &u].concat(), _ => ["q", &u, "r"].concat() })
}
fn long_chain(f: F) {
    let n = [8, 9, 10, 16, 17, 20, 33, 60, 90][choice(9)];
    let mut v = match choice(3) { 0 => num(1.0), 1 => obj(vec![("x", num(1.0)), ("y", obj(vec![("z", num(2.0))]))]), _ => arr(vec![obj(vec![("x", obj(vec![]))])]) };
    for i in (0..n).rev() { v = kv(key_no(i), v); }
    let d = [usize::MAX, n - 1, n, n + 1, 5, 2][choice(6)];
    f(&v, Opt { indent: 1, delim: ',', fold: Some(d) });
}
fn wraps(f: F) {
    let v = obj(vec![("a", tree(2, true))]);
    let v = wrap(choice(NWRAP), v);
    f(&v, Opt { indent: [2, 1][choice(2)], delim: delim(), fold: depth() });
}
/// chains above and inside arrays of any elements
fn wraps_mixed(f: F) {
    let v = obj(vec![("r", obj(vec![("s", mixed(2))]))]);
    f(&v, Opt { indent: 2, delim: ',', fold: depth3() })
}
pub fn c04_trees() { trees(restore, 3) }
pub fn c05_trees() { trees(exact, 3) }
pub fn c04_trees2() { trees(restore, 2) }
pub fn c05_trees2() { trees(exact, 2) }
pub fn c04_chains3() { chains(restore, 3, false) }
pub fn c05_chains3() { chains(exact, 3, true) }
pub fn c04_chains() { chains(restore, 4, false) }
pub fn c05_chains() { chains(exact, 4, true) }
pub fn c04_chains6() { chains(restore, 6, false) }
pub fn c05_chains6() { chains(exact, 6, true) }
pub fn c04_long() { long_chain(restore) }
pub fn c05_long() { long_chain(exact) }
pub fn c04_wraps() { wraps(restore) }
pub fn c05_wraps() { wraps(exact) }
pub fn c05_collide() { collide(3) }
pub fn c05_collide5() { collide(5) }
pub fn c05_segment8() { seg8(exact) }
pub fn c04_segment8() { seg8(restore) }
pub fn c05_mixed() { wraps_mixed(exact) }
pub fn c04_mixed() { wraps_mixed(restore) }
pub fn c05_segment() { seg(2) }
pub fn c05_segment3() { seg(3) }

// ---- C06 ----
#[derive(Clone)]
pub enum N { V(JsonValue), A(Vec<N>), O(Vec<(String, bool, N)>) }
fn expand(n: &N, strict: bool) -> Result<JsonValue, ()> {
    Ok(match n {
        N::V(v) => v.clone(),
        N::A(a) => { let mut o = vec![]; for x in a { o.push(expand(x, strict)?); } JsonValue::Array(o) }
        N::O(f) => {
            let mut out = vec![];
            for (k, q, v) in f {
                let v = expand(v, strict)?;
                let segs: Vec<&str> = k.split('.').collect();
                if !*q && segs.len() > 1 && segs.iter().all(|s| is_ident(s)) { put(&mut out, &segs, v, strict)? } else { put(&mut out, &[k.as_str()], v, strict)? }
            }
            JsonValue::Object(out)
        }
    })
}
fn put(o: &mut Vec<(String, JsonValue)>, path: &[&str], v: JsonValue, strict: bool) -> Result<(), ()> {
    let i = match o.iter().position(|e| e.0 == path[0]) {
        Some(i) => i,
        None if path.len() == 1 => { o.push((path[0].to_string(), v)); return Ok(()); }
        None => { o.push((path[0].to_string(), obj(vec![]))); o.len() - 1 }
    };
    if path.len() == 1 {
        if let (JsonValue::Object(t), JsonValue::Object(s)) = (&mut o[i].1, &v) {
            for (k, w) in s { put(t, &[k.as_str()], w.clone(), strict)?; }
            return Ok(());
        }
        if strict { return Err(()); }
        o[i].1 = v;
        return Ok(());
    }
    if !matches!(o[i].1, JsonValue::Object(_)) {
        if strict { return Err(()); }
        o[i].1 = obj(vec![]);
    }
    match &mut o[i].1 { JsonValue::Object(t) => put(t, &path[1..], v, strict), _ => Ok(()) }
}
/// what decoding without expansion gives
fn literal(n: &N) -> JsonValue {
    match n {
        N::V(v) => v.clone(),
        N::A(a) => JsonValue::Array(a.iter().map(literal).collect()),
        N::O(f) => JsonValue::Object(f.iter().map(|(k, _, v)| (k.clone(), literal(v))).collect()),
    }
}
/// print fields as a document: numbers, nested objects, arrays of objects as list items
fn print(f: &[(String, bool, N)], depth: usize, first: &str, out: &mut Vec<String>) {
    for (i, (k, q, v)) in f.iter().enumerate() {
        let mut l = " ".repeat(2 * depth);
        if i == 0 && !first.is_empty() { l.truncate(2 * depth - 2); l.push_str(first); }
        let extra = if i == 0 && !first.is_empty() { 1 } else { 0 };
        l.push_str(&if *q { quoted(k) } else { k.clone() });
        match v {
            N::V(JsonValue::Primitive(p)) => { l.push_str(": "); l.push_str(&prim(p, ',')); out.push(l); }
            N::O(f) => { l.push(':'); out.push(l); print(f, depth + 1 + 0 * extra, "", out); }
            N::A(a) if a.iter().all(|x| matches!(x, N::V(_))) => {
                let t = encode_model(&literal(v), Opt::new(',', 2));
                l.push_str(&t);
                out.push(l);
            }
            N::A(a) => {
                l.push_str(&["[", &number(a.len() as f64), "]:"].concat());
                out.push(l);
                for x in a { if let N::O(f) = x { if f.is_empty() { out.push([&" ".repeat(2 * depth + 2), "-"].concat()) } else { print(f, depth + 2, "- ", out) } } }
            }
            N::V(_) => {}
        }
    }
}
pub fn go(f: Vec<(String, bool, N)>) {
    let mut out = vec![];
    print(&f, 0, "", &mut out);
    let doc = out.join("\n");
    note(&doc);
    let n = N::O(f);
    for strict in [true, false] {
        let got = try_decode(&doc, dec(2, strict, true));
        match (expand(&n, strict), got) {
            (Ok(m), Ok(g)) => { reach(1); check(m == g, 6) }
            (Err(()), Err(_)) => reach(2),
            (Ok(_), Err(_)) => fail(7),
            (Err(()), Ok(_)) => fail(8),
        }
        match try_decode(&doc, dec(2, strict, false)) { Ok(g) => check(g == literal(&n), 9), Err(_) => fail(10) }
    }
}
pub fn nv(i: usize) -> N { N::V(num(i as f64)) }
fn val(i: usize, kinds: usize) -> N {
    let f = |k: &str, v: N| (k.to_string(), false, v);
    match choice(kinds) {
        0 => nv(i),
        1 => N::O(vec![f("b", nv(10 + i))]),
        2 => N::O(vec![]),
        3 => N::A(vec![nv(1)]),
        4 => N::O(vec![f("b.c", nv(20 + i)), f("b.d", nv(30 + i))]),
        5 => N::A(vec![N::O(vec![f("a.b", nv(i)), f("a.c", nv(40 + i))])]),
        _ => N::O(vec![f("c", N::O(vec![f("d", nv(50 + i))]))]),
    }
}
const KEYS: [&str; 9] = ["a", "a.b", "a.b.c", "a.c", "b", "a..b", "a.1", "a.b.", "_x.Y9"];
/// two fields, all keys x quoting x values
pub fn c06_pairs() {
    let ks = [KEYS[choice(KEYS.len())], KEYS[choice(KEYS.len())]];
    let qs = [flag(), flag()];
    if ks[0] == ks[1] && qs[0] != qs[1] { assume(false); }
    go((0..2).map(|i| (ks[i].to_string(), qs[i], val(i, 7))).map(|(k, q, v)| (k, q, if let N::O(f) = &v { if f.is_empty() { v } else { v } } else { v })).collect())
}
/// three fields
pub fn c06_triples() {
    go((0..3).map(|i| (["a", "a.b", "a.b.c", "a.c"][choice(4)].to_string(), false, val(i, 3))).collect())
}
pub fn c06_triples_q() {
    let mut f = vec![];
    for i in 0..3 { f.push((["a", "a.b", "a.b.c", "b.c"][choice(4)].to_string(), flag(), val(i, 5))); }
    for i in 0..3 { for j in 0..i { if f[i].0 == f[j].0 && f[i].1 != f[j].1 { assume(false); } } }
    go(f)
}
fn word(n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|_| { let c = range(b'-', b'z'); assume(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-'); c }).collect();
    assume(b[0] != b'-' );
    string(b)
}
/// a key of arbitrary key characters next to a fixed dotted key
fn symkey(n: usize) {
    let k = word(n);
    let q = flag();
    let other = ["a.b", "a", "c"][choice(3)];
    assume(k != other || !q);
    let a = (k, q, val(1, 3));
    let b = (other.to_string(), false, val(2, 2));
    go(match choice(2) { 0 => vec![a, b], _ => vec![b, a] })
}
pub fn c06_key3() { symkey(3) }
pub fn c06_key4() { symkey(4) }
pub fn c06_key5() { symkey(5) }
/// nested position: dotted keys inside nested objects and list items, tables with dotted fields
pub fn c06_nested() {
    let mut f: Vec<(String, bool, N)> = vec![];
    for i in 0..2 { f.push((["a", "a.b", "a.b.c", "a.c"][choice(4)].to_string(), flag(), val(i, 3))); }
    if f[0].0 == f[1].0 && f[0].1 != f[1].1 { assume(false); }
    let inner = N::O(f);
    let f = |k: &str, v: N| (k.to_string(), false, v);
    go(match choice(4) {
        0 => vec![f("x", inner)],
        1 => vec![f("x.y", inner), f("x.z", nv(3))],
        2 => vec![f("x", N::A(vec![inner.clone(), N::O(vec![f("a.b", nv(1))]), inner]))],
        _ => vec![f("x.a", nv(4)), f("x", inner)],
    })
}
pub fn c06_table() {
    let ks = [["a.b", "a", "c", "a.c"][choice(4)], ["a.b", "a.b.c", "c", "a..c"][choice(4)]];
    assume(ks[0] != ks[1]);
    let q = [flag(), flag()];
    let sp = |i: usize| if q[i] { quoted(ks[i]) } else { ks[i].to_string() };
    let doc = ["x.y[1]{", &sp(0), ",", &sp(1), "}:\n  1,2\nx.z: 3"].concat();
    note(&doc);
    let row = N::O((0..2).map(|i| (ks[i].to_string(), q[i], nv(i + 1))).collect());
    let n = N::O(vec![("x.y".into(), false, N::A(vec![row])), ("x.z".into(), false, nv(3))]);
    for strict in [true, false] {
        match (expand(&n, strict), try_decode(&doc, dec(2, strict, true))) {
            (Ok(m), Ok(g)) => { reach(1); check(m == g, 6) }
            (Err(()), Err(_)) => reach(2),
            (Ok(_), Err(_)) => fail(7),
            (Err(()), Ok(_)) => fail(8),
        }
    }
}
/// arrays whose elements are of different kinds, in any order, some of them with dotted keys, at the root and in fields
fn mixed_array(n: usize) {
    let at = choice(3);
    let mut items = vec![];
    let mut doc = vec![[["k", "", "x.y"][at], "[", &number(n as f64), "]:"].concat()];
    for i in 0..n {
        let c = choice(6);
        items.push(match c {
            0 => { doc.push(format!("  - {i}")); nv(i) }
            1 => { doc.push(format!("  - [2]: {i},7")); N::A(vec![nv(i), nv(7)]) }
            2 => { doc.push(format!("  - a.b: {i}")); doc.push(format!("    a.c: {i}")); N::O(vec![("a.b".into(), false, nv(i)), ("a.c".into(), false, nv(i))]) }
            3 => { doc.push(format!("  - \"a.b\": {i}")); N::O(vec![("a.b".into(), true, nv(i))]) }
            4 => { doc.push("  - [2]:".into()); doc.push("    - 1".into()); doc.push("    - a.b: 2".into()); N::A(vec![nv(1), N::O(vec![("a.b".into(), false, nv(2))])]) }
            _ => { doc.push("  - \"a.b: 1\"".into()); N::V(JsonValue::from("a.b: 1")) }
        });
    }
    let doc = doc.join("\n");
    note(&doc);
    let n = match at { 0 => N::O(vec![("k".into(), false, N::A(items))]), 1 => N::A(items), _ => N::O(vec![("x.y".into(), false, N::A(items))]) };
    for strict in [true, false] {
        match (expand(&n, strict), try_decode(&doc, dec(2, strict, true))) {
            (Ok(m), Ok(g)) => { reach(1); check(m == g, 6) }
            (Err(()), Err(_)) => reach(2),
            (Ok(_), Err(_)) => fail(7),
            (Err(()), Ok(_)) => fail(8),
        }
        match try_decode(&doc, dec(2, strict, false)) { Ok(g) => check(g == literal(&n), 9), Err(_) => fail(10) }
    }
}
pub fn c06_items2() { mixed_array(2) }
pub fn c06_items3() { mixed_array(3) }
pub fn c06_items4() { mixed_array(4) }
/// a path of n segments, to the depth limit: either the nested object or an error
pub fn c06_deep() {
    let n = [2, 3, 10, 50, 100, 200, 240, 250, 255, 256, 257, 300, 1000][choice(13)];
    let segs: Vec<String> = (0..n).map(key_no).collect();
    let doc = [&segs.join("."), ": 1"].concat();
    let mut v = num(1.0);
    for s in segs.iter().rev() { v = kv(s.clone(), v); }
    match try_decode(&doc, dec(2, true, true)) {
        Ok(g) => { reach(1); check(g == v, 6) }
        Err(_) => { reach(2); check(n > 200, 7) }
    }
}
