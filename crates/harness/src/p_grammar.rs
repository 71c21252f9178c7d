//! C08 the decoder reads what the grammar says, C09 counts, C10 indentation and blank lines, C20 tokens,
//! C21 declared lengths.
use super::docs::*;
use super::model::*;
use super::p_decode::{events, lines, well_formed};
use super::sym::*;
use super::util::*;

// ---- a printer with optional layout ---------------------------------------------------------------------------
/// Writes a value as TOON text; at most `budget` times it departs from the canonical layout, in any way the
/// grammar allows.
pub struct Printer { pub out: Vec<String>, pub indent: usize, pub budget: usize, arrays: usize }
impl Printer {
    pub fn new(indent: usize, budget: usize) -> Printer { Printer { out: vec![], indent, budget, arrays: 0 } }
    fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 { return 0; }
        let c = choice(n + 1);
        if c > 0 { self.budget -= 1; }
        c
    }
    fn line(&mut self, depth: usize, s: String) {
        if self.arrays == 0 { match self.dev(2) { 0 => (), 1 => self.out.push(String::new()), _ => self.out.push("   ".into()) } }
        self.out.push(" ".repeat(self.indent * depth) + &s);
    }
    fn key(&mut self, k: &str) -> String { if self.dev(1) == 1 || !bare_key(k) { quoted(k) } else { k.to_string() } }
    fn prim(&mut self, p: &P, d: char) -> String {
        match p {
            P::Null => "null".into(),
            P::Bool(b) => if *b { "true".into() } else { "false".into() },
            P::Number(x) => {
                let t = number(*x);
                match self.dev(2) { 0 => t, 1 => if t.contains('.') { t + "0" } else { t + ".0" }, _ => t + "e0" }
            }
            P::String(s) => if !plain(s, d) || self.dev(1) == 1 { quoted(s) } else { s.clone() },
        }
    }
    fn delim(&mut self) -> (char, &'static str) { [(',', ""), ('|', "|"), ('\t', "\t")][self.dev(2)] }
    fn join(&mut self, v: Vec<String>, d: char) -> String {
        let sep = match self.dev(if v.len() > 1 { 2 } else { 0 }) { 0 => d.to_string(), 1 => format!("{d} "), _ => format!(" {d}") };
        v.join(&sep)
    }
    fn sep(&mut self) -> &'static str { [": ", ":", ":  "][self.dev(2)] }
    fn trail(&mut self) -> &'static str { ["", " "][self.dev(1)] }
    fn fields_of(a: &[JsonValue]) -> Option<Vec<String>> {
        let mut ks: Option<Vec<String>> = None;
        for r in a {
            match r {
                JsonValue::Object(o) if !o.is_empty() && o.iter().all(|(_, v)| matches!(v, JsonValue::Primitive(_))) => {
                    let k: Vec<String> = o.iter().map(|(k, _)| k.clone()).collect();
                    match &ks { None => ks = Some(k), Some(p) => if *p != k { return None; } }
                }
                _ => return None,
            }
        }
        ks
    }
    /// `first` is what precedes the value's first line ("", "- ", ...) at `depth`; its body goes below `below`
    fn field(&mut self, first: &str, k: &str, v: &JsonValue, depth: usize, below: usize) {
        match v {
            JsonValue::Primitive(p) => { let s = format!("{first}{}{}{}{}", self.key(k), self.sep(), self.prim(p, ','), self.trail()); self.line(depth, s); }
            JsonValue::Object(o) => {
                let s = format!("{first}{}:{}", self.key(k), self.trail());
                self.line(depth, s);
                for (k, v) in o { self.field("", k, v, below, below + 1); }
            }
            JsonValue::Array(a) => { let k = self.key(k); self.arr(&format!("{first}{k}"), a, depth, below); }
        }
    }
    fn arr(&mut self, first: &str, a: &[JsonValue], depth: usize, below: usize) {
        let n = a.len();
        let (d, ds) = self.delim();
        let prims = a.iter().all(|x| matches!(x, JsonValue::Primitive(_)));
        let fields = if prims { None } else { Self::fields_of(a) };
        let list = if prims && n > 0 || fields.is_some() { self.dev(1) == 1 } else { !prims };
        if !list && prims {
            let cells: Vec<String> = a.iter().map(|x| match x { JsonValue::Primitive(p) => self.prim(p, d), _ => String::new() }).collect();
            let s = if n == 0 { format!("{first}[{n}{ds}]:{}", self.trail()) } else { format!("{first}[{n}{ds}]{}{}{}", self.sep(), self.join(cells, d), self.trail()) };
            self.line(depth, s);
            return;
        }
        if let (false, Some(fs)) = (list, &fields) {
            let names: Vec<String> = fs.iter().map(|k| self.key(k)).collect();
            let s = format!("{first}[{n}{ds}]{{{}}}:{}", self.join(names, d), self.trail());
            self.line(depth, s);
            self.arrays += 1;
            for r in a {
                if let JsonValue::Object(o) = r {
                    let cells: Vec<String> = o.iter().map(|(_, x)| match x { JsonValue::Primitive(p) => self.prim(p, d), _ => String::new() }).collect();
                    let s = self.join(cells, d) + self.trail();
                    self.line(below, s);
                }
            }
            self.arrays -= 1;
            return;
        }
        let s = format!("{first}[{n}{ds}]:{}", self.trail());
        self.line(depth, s);
        self.arrays += 1;
        for x in a {
            match x {
                JsonValue::Primitive(p) => { let s = format!("-{}{}{}", [" ", "  "][self.dev(1)], self.prim(p, ','), self.trail()); self.line(below, s); }
                JsonValue::Array(a) => self.arr("- ", a, below, below + 1),
                JsonValue::Object(o) => {
                    if o.is_empty() { let s = ["-", "- "][self.dev(1)].to_string(); self.line(below, s); }
                    for (i, (k, v)) in o.iter().enumerate() {
                        if i == 0 { self.field("- ", k, v, below, below + 2); } else { self.field("", k, v, below + 1, below + 2); }
                    }
                }
            }
        }
        self.arrays -= 1;
    }
    pub fn root(&mut self, v: &JsonValue) -> String {
        match v {
            JsonValue::Primitive(p) => { let s = self.prim(p, ','); self.line(0, s); }
            JsonValue::Object(o) => for (k, v) in o { self.field("", k, v, 0, 1); },
            JsonValue::Array(a) => self.arr("", a, 0, 1),
        }
        match self.dev(1) { 0 => (), _ => self.out.push(String::new()) }
        self.out.join("\n")
    }
}
pub fn reads(v: &JsonValue, indent: usize, budget: usize) {
    let s = Printer::new(indent, budget).root(v);
    note(&s);
    reach(1);
    match try_decode(&s, dec(indent, true, false)) { Ok(w) => check(w == *v, 1), Err(_) => fail(2) }
    match try_decode(&s, dec(indent, false, false)) { Ok(w) => check(w == *v, 3), Err(_) => fail(4) }
}
/// strings that need quotes, with a symbolic character
fn special() -> JsonValue {
    let c = range(32, 126);
    let s = string(vec![c]);
    match choice(3) { 0 => JsonValue::from(s), 1 => JsonValue::from(["a", &s, "b"].concat()), _ => JsonValue::from([&s, "1"].concat()) }
}
fn leaf8() -> JsonValue { match choice(4) { 0 => JsonValue::from(letter()), 1 => num(2.0), 2 => null(), _ => special() } }
fn body(c: usize) -> JsonValue {
    match c {
        0 => leaf8(),
        1 => arr(vec![leaf8(), num(1.0)]),
        2 => obj(vec![("x", leaf8()), ("y", num(1.0))]),
        3 => arr(vec![]),
        4 => obj(vec![]),
        5 => arr(vec![obj(vec![("x", leaf8()), ("y", num(1.0))]), obj(vec![("x", num(3.0)), ("y", leaf8())])]),
        6 => arr(vec![obj(vec![("x", leaf8())]), num(1.0)]),
        7 => arr(vec![arr(vec![leaf8()]), obj(vec![])]),
        8 => obj(vec![("x", arr(vec![num(1.0), leaf8()])), ("y", obj(vec![]))]),
        9 => arr(vec![obj(vec![("x", arr(vec![obj(vec![("y", num(1.0))])])), ("z", leaf8())])]),
        10 => arr(vec![obj(vec![("x", obj(vec![("y", leaf8())])), ("z", num(1.0))]), obj(vec![("x", arr(vec![arr(vec![num(1.0)])])), ("z", num(1.0))])]),
        _ => arr(vec![arr(vec![obj(vec![("x", leaf8()), ("y", num(1.0))])]), arr(vec![num(1.0), num(2.0)])]),
    }
}
const NBODY: usize = 12;
fn indents() -> usize { [2, 1, 3, 4][choice(4)] }
pub fn c08_bodies() { let i = indents(); reads(&body(choice(NBODY)), i, 2) }
pub fn c08_bodies1() { let i = indents(); reads(&body(choice(NBODY)), i, 1) }
pub fn c08_bodies3() { reads(&body(choice(NBODY)), 2, 3) }
pub fn c08_wrap1() { let v = wrap(choice(NWRAP), body(choice(NBODY))); reads(&v, 2, 1) }
pub fn c08_wrap1_2() { let v = wrap(choice(NWRAP), body(choice(NBODY))); reads(&v, 2, 2) }
pub fn c08_wrap2() { let v = wrap(choice(NWRAP), wrap(choice(NWRAP), body(choice(NBODY)))); let i = [2, 3][choice(2)]; reads(&v, i, 0) }
pub fn c08_wrap2_1() { let v = wrap(choice(NWRAP), wrap(choice(NWRAP), body(choice(NBODY)))); reads(&v, 2, 1) }
pub fn c08_mixed() { reads(&mixed(2), 2, 1) }
pub fn c08_shapes() { let v = value(2, 2, 2); let i = indents(); reads(&v, i, 1) }
/// object keys made of a symbolic character in any layout
pub fn c08_keys() {
    let c = range(32, 126);
    let k = match choice(3) { 0 => string(vec![c]), 1 => string(vec![b'a', c]), _ => string(vec![c, b'a']) };
    let v = match choice(5) { 0 => num(1.0), 1 => obj(vec![("q", num(1.0))]), 2 => arr(vec![num(1.0), num(2.0)]), 3 => arr(vec![obj(vec![("q", num(1.0))])]), _ => arr(vec![obj(vec![("q", arr(vec![]))])]) };
    let v = match choice(4) { 0 => kv(k, v), 1 => obj(vec![("p", kv(k, v))]), 2 => arr(vec![kv(k, v)]), _ => arr(vec![JsonValue::Object(vec![(k, num(1.0)), ("zz".into(), num(2.0))]), obj(vec![])]) };
    reads(&v, 2, 1)
}

// ---- reference reading of single lines ------------------------------------------------------------------------
/// value of a token, or an error
pub fn ref_token(t: &str) -> Result<P, ()> {
    let t = t.trim();
    if t.starts_with('"') { return ref_quoted(t).map(P::String); }
    if t == "true" { return Ok(P::Bool(true)); }
    if t == "false" { return Ok(P::Bool(false)); }
    if t == "null" { return Ok(P::Null); }
    if json_number(t) {
        let x: f64 = t.parse().unwrap();
        if x.is_finite() { return Ok(P::Number(if x == 0.0 { 0.0 } else { x })); }
    }
    Ok(P::String(t.to_string()))
}
/// contents of a quoted string that makes up all of t
pub fn ref_quoted(t: &str) -> Result<String, ()> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 1;
    loop {
        if i >= b.len() { return Err(()); }
        match b[i] {
            b'"' => break,
            b'\\' => {
                i += 1;
                if i >= b.len() { return Err(()); }
                out.push(match b[i] { b'\\' => b'\\', b'"' => b'"', b'n' => b'\n', b'r' => b'\r', b't' => b'\t', _ => return Err(()) });
            }
            c => out.push(c),
        }
        i += 1;
    }
    if i + 1 != b.len() { return Err(()); }
    Ok(string(out))
}
/// splits at unquoted delimiters
pub fn ref_split(s: &str, d: u8) -> Vec<String> {
    let (mut out, mut cur, mut q, mut i) = (vec![], vec![], false, 0);
    let b = s.as_bytes();
    while i < b.len() {
        if q && b[i] == b'\\' && i + 1 < b.len() { cur.push(b[i]); i += 1; cur.push(b[i]); }
        else if b[i] == d && !q { out.push(string(cur)); cur = vec![]; }
        else { if b[i] == b'"' { q = !q; } cur.push(b[i]); }
        i += 1;
    }
    out.push(string(cur));
    out
}
fn ref_values(s: &str, d: u8) -> Result<Vec<JsonValue>, ()> {
    ref_split(s, d).iter().map(|t| ref_token(t).map(JsonValue::Primitive)).collect()
}
fn no_newline(s: &str) { if s.contains('\n') { assume(false); } }
/// an inline array's text, symbolic
fn inline(n: usize) {
    let (d, ds) = [(b',', ""), (b'|', "|"), (b'\t', "\t")][choice(3)];
    let t = ascii(n);
    no_newline(&t);
    if t.trim().is_empty() { assume(false); }
    let s = match choice(4) { 0 => format!("k[2{ds}]: {t}"), 1 => format!("[2{ds}]: {t}"), 2 => format!("k[1]:\n  - [2{ds}]: {t}"), _ => format!("k[1]:\n  - j[2{ds}]: {t}") };
    note(&s);
    let want = ref_values(t.trim(), d);
    let inner = |v: JsonValue| -> JsonValue {
        match v { JsonValue::Object(mut o) => o.remove(0).1, v => v }
    };
    let dig = |v: JsonValue| -> JsonValue { if s.starts_with("k[1]") { match inner(v) { JsonValue::Array(mut a) => inner(a.remove(0)), v => v } } else { inner(v) } };
    match (&want, try_decode(&s, dec(2, false, false))) { (Ok(w), Ok(g)) => { reach(1); check(arr(w.clone()) == dig(g), 5) } (Err(_), Err(_)) => reach(2), _ => fail(6) }
    match (&want, try_decode(&s, dec(2, true, false))) { (Ok(w), Ok(g)) => { check(w.len() == 2, 7); check(arr(w.clone()) == dig(g), 8) } (Ok(w), Err(_)) => check(w.len() != 2, 9), (Err(_), Err(_)) => (), _ => fail(10) }
}
/// a table row's text, symbolic
fn row(n: usize) {
    let (d, ds) = [(b',', ""), (b'|', "|"), (b'\t', "\t")][choice(3)];
    let t = ascii(n);
    no_newline(&t);
    let dc = d as char;
    let (head, pre) = [("k", "  "), ("", "  "), ("k[1]:\n  - j", "      ")][choice(3)];
    let s = format!("{head}[1{ds}]{{a{dc}b}}:\n{pre}x{t}");
    note(&s);
    let want = ref_values(&["x", &t].concat(), d);
    let got = try_decode(&s, dec(2, true, false));
    match (&want, got) {
        (Ok(w), Ok(g)) => {
            reach(1);
            check(w.len() == 2, 11);
            let row = arr(vec![obj(vec![("a", w[0].clone()), ("b", w[1].clone())])]);
            let full = match head { "k" => obj(vec![("k", row)]), "" => row, _ => obj(vec![("k", arr(vec![obj(vec![("j", row)])]))]) };
            check(g == full, 12);
        }
        (Ok(w), Err(_)) => { reach(2); check(w.len() != 2 , 13) }
        (Err(_), Err(_)) => (),
        _ => fail(14),
    }
}
/// a key's text, symbolic, without brackets
fn keyed(n: usize) {
    let t = ascii(n);
    no_newline(&t);
    if t.contains('[') || t.trim_start().len() != t.len() || t.is_empty() { assume(false); }
    let s = [&t, ": 1"].concat();
    note(&s);
    let got = try_decode(&s, dec(2, true, false));
    if t.starts_with('"') {
        // quoted: the colon has to follow the closing quote
        let all = &s[..];
        let mut i = 1;
        let b = all.as_bytes();
        while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1; } i += 1; }
        if i >= b.len() { check(got.is_err(), 15); return; }
        let k = ref_quoted(&all[..=i]);
        let rest = &all[i + 1..];
        match (k, got) {
            (Ok(k), Ok(g)) => if rest.starts_with(':') {
                let v = ref_token(&rest[1..]);
                check(v.is_ok(), 16);
                if let Ok(v) = v { reach(1); check(g == JsonValue::Object(vec![(k, JsonValue::Primitive(v))]), 17) }
            } else { fail(18) },
            (_, Err(_)) => { reach(2); if rest.starts_with(": ") { check(ref_quoted(&all[..=i]).is_err(), 19) } }
            (Err(_), Ok(_)) => fail(20),
        }
    } else {
        let c = s.as_bytes().iter().position(|x| *x == b':').unwrap();
        let v = ref_token(&s[c + 1..]);
        match (v, got) {
            (Ok(v), Ok(g)) => { reach(3); check(g == JsonValue::Object(vec![(s[..c].trim().to_string(), JsonValue::Primitive(v))]), 21) }
            (Err(_), Err(_)) => (),
            _ => fail(22),
        }
    }
}
pub fn c08_inline3() { inline(3) }
pub fn c08_inline4() { inline(4) }
pub fn c08_row3() { row(3) }
pub fn c08_row4() { row(4) }
pub fn c08_key3() { keyed(3) }
pub fn c08_key4() { keyed(4) }

// ---- C20 --------------------------------------------------------------------------------------------------------
fn token_in(t: &str, c: usize) {
    // positions where the token stands alone
    let s = match c { 0 => ["k: ", t].concat(), 1 => t.to_string(), 2 => ["[1]:\n  - ", t].concat(), 3 => ["k[1]: ", t].concat(), 4 => ["k[1]{a}:\n  ", t].concat(), _ => ["k:\n  j:", t].concat() };
    note(&s);
    let want = ref_token(t);
    let got = try_decode(&s, dec(2, true, false)).map(|v| {
        let mut v = v;
        loop { v = match v { JsonValue::Object(mut o) if o.len() == 1 => o.remove(0).1, JsonValue::Array(mut a) if a.len() == 1 => a.remove(0), v => return v } }
    });
    match (want, got) {
        (Ok(w), Ok(g)) => {
            match w { P::Number(_) => reach(1), P::String(_) => reach(2), _ => reach(3) }
            check(g == JsonValue::Primitive(w), 1)
        }
        (Err(_), Err(_)) => reach(4),
        (Ok(_), Err(_)) => fail(2),
        (Err(_), Ok(_)) => fail(3),
    }
}
fn token(t: &str, all: bool) {
    // exclude what makes the line something else than one token
    if t.contains('\n') || t.trim().is_empty() { assume(false); }
    if !t.starts_with('"') && (t.contains(':') || t.contains(',') || t.contains('"')) { assume(false); }
    if t.starts_with(' ') || t.starts_with('\t') { assume(false); }
    if t.starts_with('"') && t.contains(':') && ref_token(t).is_err() { token_in(t, 0); return; }
    token_in(t, if all { choice(6) } else { 0 });
}
/// quoted token with symbolic inside; contained delimiters and colons are text
fn quoted_token(n: usize) {
    let t = ["\"", &ascii(n), "\""].concat();
    if t.contains('\n') { assume(false); }
    let want = ref_token(&t);
    // after an early closing quote the line means something else in most positions
    if want.is_err() && t.as_bytes()[1..].iter().filter(|b| **b == b'"').count() > 1 { token_in(&t, 0); return; }
    token_in(&t, choice(6));
}
/// numbers: pieces with symbolic digits and symbolic separators
fn numeric(n: usize) {
    let t = string((0..n).map(|_| { let b = byte(); assume((b >= b'+') & (b <= b'9') & (b != b',') | (b == b'e') | (b == b'E')); b }).collect());
    token(&t, false);
}
/// numbers of many digits, and the same with one byte out of place
fn long_number(wild: bool) {
    let digits = |n: usize| if wild { "70412".repeat(2)[..n].to_string() } else { between(b'0', b'9', n) };
    let mut t = String::new();
    if flag() { t.push('-'); }
    t += &digits([1, 2, 5, 9][choice(4)]);
    let nf = [0, 1, 4, 8][choice(4)];
    if nf > 0 { t.push('.'); t += &digits(nf); }
    let ne = [0, 1, 2, 4, 6][choice(5)];
    if ne > 0 { t.push(['e', 'E'][choice(2)]); t += ["", "+", "-"][choice(3)]; let z = choice(2); t += &"0".repeat(ne - 1); t += &if z == 0 { digits(1) } else { "12".to_string() }; }
    if wild { let at = choice(t.len() + 1); t.insert(at, range(33, 126) as char); }
    token(&t, false);
}
pub fn c20_long() { long_number(false) }
pub fn c20_long1() { long_number(true) }
pub fn c20_ascii2() { token(&ascii(2), true) }
pub fn c20_ascii3() { token(&ascii(3), true) }
pub fn c20_ascii4() { token(&ascii(4), false) }
pub fn c20_ascii5() { token(&ascii(5), false) }
pub fn c20_utf8() { token(&utf8(3), true) }
pub fn c20_quoted2() { quoted_token(2) }
pub fn c20_quoted3() { quoted_token(3) }
pub fn c20_quoted4() { quoted_token(4) }
pub fn c20_numeric4() { numeric(4) }
pub fn c20_numeric5() { numeric(5) }
pub fn c20_numeric6() { numeric(6) }
pub fn c20_around() {
    const W: [&str; 22] = ["true", "false", "null", "0", "-0", "1", "-1", "10", "01", "-01", "1.5", "1.", ".5", "1e5", "1e+5", "1E-5", "1e", "1e999", "-1e999", "0.0", "00", "1.5e3"];
    let w = W[choice(W.len())];
    let t = match choice(3) { 0 => [w, &ascii(1)].concat(), 1 => [&ascii(1), w].concat(), _ => { let m = w.len() / 2; [&w[..m], &ascii(1), &w[m..]].concat() } };
    token(&t, true)
}

// ---- C09 --------------------------------------------------------------------------------------------------------
/// an array of `n` elements declared as `d`, form f, at depth `at` lines start with; returns lines
fn counted(f: usize, key: &str, d: &str, n: usize, first: &str, depth: usize, below: usize) -> Vec<String> {
    let pad = |x: usize| " ".repeat(2 * x);
    let head = format!("{}{first}{key}", pad(depth));
    let mut out = vec![];
    match f {
        0 => { let v: Vec<String> = (0..n).map(|i| format!("{i}")).collect(); out.push(if n == 0 { format!("{head}[{d}]:") } else { format!("{head}[{d}]: {}", v.join(",")) }); }
        1 => { out.push(format!("{head}[{d}]{{a,b}}:")); for i in 0..n { out.push(format!("{}{i},x", pad(below))); } }
        2 => { out.push(format!("{head}[{d}]:")); for i in 0..n { out.push(format!("{}- {i}", pad(below))); } }
        3 => { out.push(format!("{head}[{d}]:")); for i in 0..n { out.push(format!("{}- a: {i}", pad(below))); out.push(format!("{}b: x", pad(below + 1))); } }
        4 => { out.push(format!("{head}[{d}]:")); for i in 0..n { out.push(format!("{}- [1]: {i}", pad(below))); } }
        5 => { out.push(format!("{head}[{d}|]{{a}}:")); for i in 0..n { out.push(format!("{}{i}", pad(below))); } }
        6 => { out.push(format!("{head}[{d}]:")); for i in 0..n { out.push(format!("{}-", pad(below))); } }
        _ => { out.push(format!("{head}[{d}]:")); for i in 0..n { out.push(format!("{}- a[1]{{x}}:", pad(below))); out.push(format!("{}{i}", pad(below + 2))); out.push(format!("{}b: 1", pad(below + 1))); } }
    }
    out
}
pub const FORMS: usize = 8;
pub const PLACES: usize = 8;
pub fn placed(f: usize, d: &str, n: usize, c: usize) -> String {
    let mut out: Vec<String> = vec![];
    match c {
        0 => out.extend(counted(f, "k", d, n, "", 0, 1)),
        1 => out.extend(counted(f, "", d, n, "", 0, 1)),
        2 => { out.push("o:".into()); out.extend(counted(f, "k", d, n, "", 1, 2)); out.push("  q: 1".into()); out.push("r: 2".into()); }
        3 => { out.push("l[2]:".into()); out.extend(counted(f, "k", d, n, "- ", 1, 3)); out.push("    q: 1".into()); out.push("  - 5".into()); }
        4 => { out.push("l[1]:".into()); out.push("  - p: 1".into()); out.extend(counted(f, "k", d, n, "", 2, 3)); out.push("z: 1".into()); }
        5 => { out.push("l[2]:".into()); out.extend(counted(f, "", d, n, "- ", 1, 2)); out.push("  - 7".into()); }
        6 => { out.push("p: 1".into()); out.extend(counted(f, "\"k k\"", d, n, "", 0, 1)); out.push("q[1]: 5".into()); }
        _ => { out.push("[2]:".into()); out.push("  - 1".into()); out.extend(counted(f, "k", d, n, "- ", 1, 3)); }
    }
    out.join("\n")
}
fn counts(digits: usize, n: usize) {
    let f = choice(FORMS);
    let d = between(b'0', b'9', digits);
    let c = choice(PLACES);
    let s = placed(f, &d, n, c);
    note(&s);
    let declared = d.bytes().fold(0usize, |a, b| a * 10 + (b - b'0') as usize);
    let strict = try_decode(&s, dec(2, true, false));
    if declared == n { reach(1); check(strict.is_ok(), 1) } else { reach(2); check(strict.is_err(), 2) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 3);
}
pub fn c09_counts() { let n = choice(4); counts(1, n) }
pub fn c09_counts2() { let n = [1, 9, 10, 11, 12][choice(5)]; counts(2, n) }
pub fn c09_large() {
    let n = [64, 100, 128, 255, 256, 257][choice(6)];
    let d = [n - 1, n, n + 1][choice(3)];
    let f = choice(FORMS);
    let s = placed(f, &d.to_string(), n, choice(PLACES));
    let strict = try_decode(&s, dec(2, true, false));
    if d == n { reach(1); check(strict.is_ok(), 4) } else { reach(2); check(strict.is_err(), 5) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 6);
}
/// cells of one row
pub fn c09_cells() {
    let (dc, ds) = [(',', ""), ('|', "|"), ('\t', "\t")][choice(3)];
    let nf = 1 + choice(3);
    let rows = 1 + choice(3);
    let bad = choice(rows);
    let cells = choice(5);
    let sp = |n: usize, p: &str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>().join(&dc.to_string());
    let (head, pad, tail) = [("k", "  ", ""), ("", "  ", ""), ("o:\n  k", "    ", "\nz: 1"), ("l[1]:\n  - k", "      ", "\n    q: 1"), ("l[1]:\n  - ", "    ", "")][choice(5)];
    let mut s = format!("{head}[{rows}{ds}]{{{}}}:", sp(nf, "f"));
    for r in 0..rows { s += &format!("\n{pad}{}", if r == bad { if cells == 0 { "\"\"".to_string() } else { sp(cells, "v") } } else { sp(nf, "v") }); }
    s += tail;
    note(&s);
    let n = cells.max(1);
    let strict = try_decode(&s, dec(2, true, false));
    if n == nf { reach(1); check(strict.is_ok(), 7) } else { reach(2); check(strict.is_err(), 8) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 9);
}
/// values with nothing in them, first, last or in between, count like any other
pub fn c09_empties() {
    let (dc, ds) = [(",", ""), ("|", "|"), ("\t", "\t")][choice(3)];
    let n = [1, 2, 3, 7, 8, 9, 10, 16, 17, 33, 65][choice(11)];
    let hole = [flag(), n > 1 && flag(), n > 2 && flag()];
    let mut cells: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
    if hole[0] { cells[0].clear(); }
    if hole[1] { cells[n - 1].clear(); }
    if hole[2] { cells[n / 2].clear(); }
    assume(n > 1 || !hole[0]);
    let row = cells.join(dc);
    let d = [n - 1, n, n + 1, n + 2][choice(4)];
    let names = (0..d).map(|i| format!("f{i}")).collect::<Vec<_>>().join(dc);
    assume(d > 0);
    // a tab at either end of a line is whitespace (in a row only at the beginning)
    let place = choice(4);
    assume(dc != "\t" || !hole[0] && (!hole[1] || place == 3));
    let s = match place {
        0 => format!("k[{d}{ds}]: {row}"),
        1 => format!("[{d}{ds}]: {row}"),
        2 => format!("l[2]:\n  - [{d}{ds}]: {row}\n  - 1"),
        _ => format!("k[2{ds}]{{{names}}}:\n  {}\n  {row}\nz: 1", (0..d).map(|i| format!("{i}")).collect::<Vec<_>>().join(dc)),
    };
    note(&s);
    let strict = try_decode(&s, dec(2, true, false));
    if d == n { reach(1); check(strict.is_ok(), 13) } else { reach(2); check(strict.is_err(), 14) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 15);
}
/// two arrays, one of them off
pub fn c09_two() {
    let (f, g) = (choice(FORMS), choice(FORMS));
    let (n, m) = (choice(3), 1 + choice(2));
    let (d, e) = (between(b'0', b'3', 1), between(b'0', b'3', 1));
    let mut out = vec![];
    match choice(3) {
        0 => { out.extend(counted(f, "k", &d, n, "", 0, 1)); out.extend(counted(g, "l", &e, m, "", 0, 1)); }
        1 => { out.push("a[1]:".to_string()); out.extend(counted(f, "k", &d, n, "- ", 1, 3)); out.extend(counted(g, "l", &e, m, "", 2, 3)); }
        _ => { out.push("[2]:".to_string()); out.extend(counted(f, "", &d, n, "- ", 1, 2)); out.extend(counted(g, "", &e, m, "- ", 1, 2)); }
    }
    let s = out.join("\n");
    note(&s);
    let ok = d == n.to_string() && e == m.to_string();
    let strict = try_decode(&s, dec(2, true, false));
    if ok { reach(1); check(strict.is_ok(), 10) } else { reach(2); check(strict.is_err(), 11) }
    check(try_decode(&s, dec(2, false, false)).is_ok(), 12);
}

// ---- C10 --------------------------------------------------------------------------------------------------------
/// a document in levels: (depth, text); and the ranges [first, last] of lines that are rows or items of an array
struct Lay { lines: &'static [(usize, &'static str)], spans: &'static [(usize, usize)] }
const LAYS: [Lay; 10] = [
    Lay { lines: &[(0, "a: 1"), (0, "b:"), (1, "c: 2"), (1, "d:"), (2, "e: 3"), (0, "f: 4")], spans: &[] },
    Lay { lines: &[(0, "a[2]{x,y}:"), (1, "1,2"), (1, "3,4"), (0, "b: 1")], spans: &[(1, 2)] },
    Lay { lines: &[(0, "a[3]:"), (1, "- 1"), (1, "- x: 2"), (2, "y: 3"), (1, "- [2]: 1,2"), (0, "b: 1")], spans: &[(1, 4)] },
    Lay { lines: &[(0, "[2]:"), (1, "- a[1]{x}:"), (3, "1"), (2, "b: 2"), (1, "- 5")], spans: &[(1, 4)] },
    Lay { lines: &[(0, "a[1]:"), (1, "- b[2]:"), (3, "- 1"), (3, "- 2"), (2, "c:"), (3, "d: 1"), (0, "e: 1")], spans: &[(1, 5)] },
    Lay { lines: &[(0, "o:"), (1, "a[2]: 1,2"), (1, "b[2]{x}:"), (2, "1"), (2, "2"), (1, "c: 3")], spans: &[(3, 4)] },
    Lay { lines: &[(0, "[2]{x,y}:"), (1, "1,2"), (1, "3,4")], spans: &[(1, 2)] },
    Lay { lines: &[(0, "a[1]{x}:"), (1, "1"), (0, "b[1]{x}:"), (1, "2"), (0, "c[1]:"), (1, "- 3")], spans: &[] },
    Lay { lines: &[(0, "a: 1"), (0, "b[2]: 1,2"), (0, "c: x")], spans: &[] },
    Lay { lines: &[(0, "[1]:"), (1, "- [2]:"), (2, "- 1"), (2, "- a:"), (4, "b: 1")], spans: &[(1, 4)] },
];
fn render(l: &Lay, indent: usize) -> Vec<String> { l.lines.iter().map(|(d, t)| " ".repeat(d * indent) + t).collect() }
pub fn names(e: &toon::error::ToonError, line: usize) -> bool {
    let t = e.to_string();
    let want = format!("ine {line}");
    // the number is followed by something that is not a digit
    t.match_indices(&want).any(|(i, m)| !t[i + m.len()..].starts_with(|c: char| c.is_ascii_digit()))
}
fn base(l: &Lay, indent: usize) -> JsonValue {
    match try_decode(&render(l, indent).join("\n"), dec(indent, true, false)) { Ok(v) => v, Err(_) => fail(1) }
}
/// blank lines: up to two, anywhere
fn blanks(two: bool) {
    let l = &LAYS[choice(LAYS.len())];
    let indent = [2, 1, 4][choice(3)];
    let want = base(l, indent);
    let n = l.lines.len();
    let mut out = render(l, indent);
    let k = if two { ascii(2) } else { ["", " ", "  ", "      "][choice(4)].to_string() };
    if k.contains('\n') || !k.trim().is_empty() { assume(false); }
    let at = choice(n + 1);
    let bad = |g: usize| l.spans.iter().any(|(a, b)| g > *a && g <= *b);
    // the numbers of the offending lines
    let mut wrong = vec![];
    if bad(at) { wrong.push(at + 1); }
    if two {
        let at2 = at + choice(n + 1 - at);
        out.insert(at2, String::new());
        if bad(at2) { wrong.push(at2 + 2); }
    }
    out.insert(at, k);
    let s = out.join("\n");
    note(&s);
    match (wrong.is_empty(), try_decode(&s, dec(indent, true, false))) {
        (true, Ok(v)) => { reach(1); check(v == want, 2) }
        (true, Err(_)) => fail(3),
        (false, Ok(_)) => fail(4),
        (false, Err(e)) => { reach(2); check(wrong.iter().any(|l| names(&e, *l)), 5) }
    }
    match try_decode(&s, dec(indent, false, false)) { Ok(v) => check(v == want, 6), Err(_) => fail(7) }
}
/// a blank line anywhere in the text of a value
fn blank_in(v: &JsonValue, indent: usize) {
    let (mut out, spans) = encode_spans_model(v, Opt::new(',', indent));
    let at = choice(out.len() + 1);
    let wrong = spans.iter().any(|(a, b)| at > *a && at <= *b);
    out.insert(at, ["", "   "][choice(2)].to_string());
    let s = out.join("\n");
    note(&s);
    let want = as_decoded(v);
    match (wrong, try_decode(&s, dec(indent, true, false))) {
        (false, Ok(v)) => { reach(1); check(v == want, 23) }
        (false, Err(_)) => fail(24),
        (true, Ok(_)) => fail(25),
        (true, Err(e)) => { reach(2); check(names(&e, at + 1), 26) }
    }
    match try_decode(&s, dec(indent, false, false)) { Ok(v) => check(v == want, 27), Err(_) => fail(28) }
}
pub fn c10_blank_mixed() { blank_in(&mixed(2), 2) }
pub fn c10_blank_many() {
    // arrays of n rows or items: every gap
    let n = [3, 4, 5, 10, 11][choice(5)];
    let c = choice(6);
    let v = arr((0..n).map(|i| match c { 0 => obj(vec![("x", num(i as f64))]), 1 => arr(vec![num(1.0)]), 2 => obj(vec![("a", arr(vec![])), ("b", num(1.0))]), 3 => if i == 0 { obj(vec![]) } else { num(1.0) }, 4 => obj(vec![("a", obj(vec![("b", num(1.0))]))]), _ => arr(vec![arr(vec![]), num(1.0)]) }).collect());
    let v = match choice(3) { 0 => v, 1 => obj(vec![("k", v), ("l", num(1.0))]), _ => arr(vec![obj(vec![("k", v), ("l", num(1.0))])]) };
    blank_in(&v, 2)
}
/// one line indented by an odd number of spaces
pub fn c10_odd() {
    let l = &LAYS[choice(LAYS.len())];
    let indent = 2 + choice(3);
    let want = base(l, indent);
    let mut out = render(l, indent);
    let i = choice(out.len());
    let extra = 1 + choice(indent - 1);
    out[i] = " ".repeat(extra) + &out[i];
    let s = out.join("\n");
    note(&s);
    match try_decode(&s, dec(indent, true, false)) { Ok(_) => fail(8), Err(e) => { reach(1); check(names(&e, i + 1), 9) } }
    match try_decode(&s, dec(indent, false, false)) { Ok(v) => check(v == want, 10), Err(_) => fail(11) }
}
/// several lines indented oddly: strict names the first, lax sees no difference
pub fn c10_odds() {
    let l = &LAYS[choice(LAYS.len())];
    let indent = 3;
    let want = base(l, indent);
    let mut out = render(l, indent);
    let (i, j) = (choice(out.len()), choice(out.len()));
    out[i] = " ".to_string() + &out[i];
    if i != j { out[j] = "  ".to_string() + &out[j]; }
    let s = out.join("\n");
    note(&s);
    match try_decode(&s, dec(indent, true, false)) { Ok(_) => fail(12), Err(e) => { reach(1); check(names(&e, i.min(j) + 1), 13) } }
    match try_decode(&s, dec(indent, false, false)) { Ok(v) => check(v == want, 14), Err(_) => fail(15) }
}
/// a tab in one line's indentation; what precedes and follows it is symbolic
pub fn c10_tab() {
    let l = &LAYS[choice(LAYS.len())];
    let indent = [2, 1, 4][choice(3)];
    let mut out = render(l, indent);
    let i = choice(out.len());
    let n = choice(4);
    let ws = string((0..n).map(|_| range(9, 32)).collect());
    let m = choice(3);
    let ws2 = string((0..m).map(|_| range(9, 32)).collect());
    if !ws.bytes().all(|b| b == 9 || b == 32) || !ws2.bytes().all(|b| b == 9 || b == 32) { assume(false); }
    let text = l.lines[i].1;
    out[i] = [&ws, "\t", &ws2, text].concat();
    let s = out.join("\n");
    note(&s);
    match try_decode(&s, dec(indent, true, false)) { Ok(_) => fail(16), Err(e) => { reach(1); check(names(&e, i + 1), 17) } }
}
/// tabs that are not indentation are text
pub fn c10_tab_ok() {
    let t = between(b'a', b'z', 1);
    let s = match choice(3) { 0 => format!("k:\t{t}"), 1 => format!("k: {t}\t"), _ => format!("k[2\t]: {t}\tb") };
    reach(1);
    check(try_decode(&s, dec(2, true, false)).is_ok(), 18);
}
/// whole documents at every indent: the indent option is what counts
pub fn c10_units() {
    let l = &LAYS[choice(LAYS.len())];
    let (a, b) = (1 + choice(4), 1 + choice(4));
    let s = render(l, a).join("\n");
    note(&s);
    let deep = l.lines.iter().any(|(d, _)| (d * a) % b != 0);
    let r = try_decode(&s, dec(b, true, false));
    if a == b { reach(1); check(r.is_ok(), 19); } else if deep { reach(2); check(r.is_err(), 20); }
    match try_decode(&render(l, a).join("\n"), dec(a, true, false)) { Ok(v) => check(v == base(l, 2), 21), Err(_) => fail(22) }
}
pub fn c10_blank() { blanks(false) }
pub fn c10_blank2() { blanks(true) }

// ---- C21 --------------------------------------------------------------------------------------------------------
/// bracket content decides: digits and one delimiter
fn bracket(t: &str, key: &str, tail: &str) {
    if t.contains('\n') || t.contains(']') || t.contains('[') || t.contains('"') || t.contains(':') { assume(false); }
    let s = [key, "[", t, "]", tail].concat();
    note(&s);
    let digits = t.strip_suffix('|').or(t.strip_suffix('\t')).unwrap_or(t);
    let header = !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit());
    let e = events(&s, 2, false);
    let outer = if key.starts_with('l') { 1 } else { 0 };
    let starts = |e: &[JsonStreamEvent]| e.iter().filter_map(|x| match x { JsonStreamEvent::StartArray { length } => Some(*length), _ => None }).nth(outer);
    if !header {
        reach(1);
        // then it is a plain key (or text)
        match e { Ok(e) => { check(starts(&e).is_none(), 1); } Err(_) => () }
        return;
    }
    let sig = digits.trim_start_matches('0');
    let n: u64 = if sig.len() > 9 { u64::MAX } else { sig.bytes().fold(0, |n, b| n * 10 + (b - b'0') as u64) };
    if n > 100_000_000 { reach(2); check(e.is_err(), 2); check(events(&s, 2, true).is_err(), 3); }
    else { reach(3); match e { Ok(e) => check(starts(&e) == Some(n as usize), 4), Err(_) => fail(5) } }
}
pub fn c21_ascii2() { bracket(&ascii(2), ["k", "", "l[1]:\n  - k", "l[1]:\n  - "][choice(4)], [": 1,2", ":", "{a,b}:"][choice(3)]) }
pub fn c21_ascii3() { bracket(&ascii(3), ["k", ""][choice(2)], [": 1,2", "{a,b}:"][choice(2)]) }
pub fn c21_ascii4() { bracket(&ascii(4), "k", ": 1,2") }
/// long digit strings around the cap and the word size
pub fn c21_long() {
    const L: [&str; 12] = ["99999999", "100000000", "10000000", "1000000000", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "18446744073709551617", "184467440737095516160", "00000000000000000000000002", "340282366920938463463374607431768211456"];
    let w = L[choice(L.len())];
    let t = match choice(4) { 0 => w.to_string(), 1 => [w, &ascii(1)].concat(), 2 => { let n = w.len() - 1; [&w[..n], &between(b'0', b'9', 1)].concat() } _ => [&between(b'0', b'9', 1), &w[1..]].concat() };
    bracket(&t, ["k", "", "l[1]:\n  - k"][choice(3)], [":", ": 1", "{a}:"][choice(3)])
}
/// two symbolic digits anywhere in a number next to the cap
pub fn c21_digits() {
    let mut b = [*b"100000000", *b"099999999", *b"000000000"][choice(3)].to_vec();
    let i = choice(9);
    let j = choice(9);
    b[i] = range(b'0', b'9');
    b[j] = range(b'0', b'9');
    bracket(&string(b), "k", ": 1")
}
/// a large declaration costs nothing: decoding ends within the step limit, with few events
pub fn c21_cost() {
    let d = [1000usize, 1_000_000, 100_000_000][choice(3)];
    let s = [format!("k[{d}]:"), format!("k[{d}]: 1"), format!("k[{d}]{{a,b}}:\n  1,2"), format!("[{d}]:\n  - 1"), format!("l[1]:\n  - [{d}]:"), format!("[{d}|]{{a}}:")][choice(6)].clone();
    note(&s);
    check(try_decode(&s, dec(2, true, false)).is_err(), 6);
    match events(&s, 2, false) { Ok(e) => { reach(1); check(e.len() < 12, 7); check(well_formed(&e, false), 8) } Err(_) => fail(9) }
}
