//! Reference model of the TOON format, written from its rules (README, fixtures), not from the implementation.
use super::util::*;

pub fn is_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && !b[0].is_ascii_digit() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
/// keys that need no quotes: identifier characters and dots, not starting with a digit or a dot
pub fn bare_key(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && !b[0].is_ascii_digit() && b[0] != b'.' && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')
}
/// -? digits (. digits)? ([eE] [+-]? digits)?, and anything starting with -?0digit
pub fn numberish(s: &str) -> bool {
    let b = s.as_bytes();
    let b = b.strip_prefix(b"-").unwrap_or(b);
    let d = |b: &[u8]| b.iter().take_while(|c| c.is_ascii_digit()).count();
    let n = d(b);
    if n == 0 { return false; }
    if n > 1 && b[0] == b'0' { return true; }
    let mut b = &b[n..];
    if let [b'.', r @ ..] = b { let n = d(r); if n == 0 { return false; } b = &r[n..]; }
    if let [b'e' | b'E', r @ ..] = b {
        let r = if let [b'+' | b'-', q @ ..] = r { q } else { r };
        let n = d(r);
        if n == 0 { return false; }
        b = &r[n..];
    }
    b.is_empty()
}
/// the JSON number grammar
pub fn json_number(s: &str) -> bool {
    let b = s.strip_prefix('-').unwrap_or(s).as_bytes();
    numberish(s) && !(b.len() > 1 && b[0] == b'0' && b[1].is_ascii_digit())
}
pub fn plain(s: &str, delim: char) -> bool {
    if s.is_empty() || s.trim().len() != s.len() { return false; }
    if s == "true" || s == "false" || s == "null" || numberish(s) { return false; }
    let b = s.as_bytes();
    if b[0] == b'-' { return false; }
    !b.iter().any(|c| matches!(c, b':' | b'"' | b'\\' | b'[' | b']' | b'{' | b'}' | b'\n' | b'\r' | b'\t') || *c == delim as u8)
}
pub fn quoted(s: &str) -> String {
    let mut o = vec![b'"'];
    for &c in s.as_bytes() {
        match c {
            b'\\' => o.extend(b"\\\\"),
            b'"' => o.extend(b"\\\""),
            b'\n' => o.extend(b"\\n"),
            b'\r' => o.extend(b"\\r"),
            b'\t' => o.extend(b"\\t"),
            _ => o.push(c),
        }
    }
    o.push(b'"');
    string(o)
}
pub fn text(s: &str, delim: char) -> String { if plain(s, delim) { s.to_string() } else { quoted(s) } }
pub fn key(s: &str) -> String { if bare_key(s) { s.to_string() } else { quoted(s) } }
pub fn number(x: f64) -> String {
    if x == 0.0 { return "0".into(); }
    if x == x.trunc() && x.abs() < 1e15 {
        let mut n = x.abs() as u64;
        let mut d = vec![];
        while n > 0 { d.push(b'0' + (n % 10) as u8); n /= 10; }
        if x < 0.0 { d.push(b'-'); }
        d.reverse();
        return string(d);
    }
    // the few fractions used as leaves
    for (v, t) in [(-1.5, "-1.5"), (0.5, "0.5"), (2.25, "2.25"), (1e21, "1000000000000000000000"), (1e-7, "0.0000001")] { if x == v { return t.into(); } }
    panic!("model: number outside the leaf set")
}
pub fn prim(p: &P, delim: char) -> String {
    match p {
        P::String(s) => text(s, delim),
        P::Number(x) if x.is_finite() => number(*x),
        P::Bool(true) => "true".into(),
        P::Bool(false) => "false".into(),
        _ => "null".into(),
    }
}

struct Enc { o: Opt, out: Vec<String>, root_dotted: Vec<String>, spans: Vec<(usize, usize)> }
#[derive(Clone)]
struct Ctx { path: Option<String>, budget: usize, in_list: bool }

fn is_prim(v: &JsonValue) -> bool { matches!(v, JsonValue::Primitive(_)) }
/// the field list when the array is written as a table
pub fn fields(a: &[JsonValue]) -> Option<Vec<String>> {
    let Some(JsonValue::Object(first)) = a.first() else { return None };
    if first.is_empty() { return None; }
    for r in a {
        let JsonValue::Object(r) = r else { return None };
        if r.len() != first.len() || r.iter().any(|(_, v)| !is_prim(v)) { return None; }
        if first.iter().any(|(k, _)| !r.iter().any(|(q, _)| q == k)) { return None; }
    }
    Some(first.iter().map(|(k, _)| k.clone()).collect())
}
impl Enc {
    fn line(&mut self, depth: usize, s: String) { let mut l = " ".repeat(depth * self.o.indent); l.push_str(&s); self.out.push(l); }
    fn header(&self, n: usize, f: Option<&[String]>) -> String {
        let mut h = String::from("[");
        h.push_str(&number(n as f64));
        if self.o.delim != ',' { h.push(self.o.delim); }
        h.push(']');
        if let Some(f) = f {
            h.push('{');
            h.push_str(&f.iter().map(|k| key(k)).collect::<Vec<_>>().join(&self.o.delim.to_string()));
            h.push('}');
        }
        h.push(':');
        h
    }
    fn join(&self, v: &[&JsonValue]) -> String {
        v.iter().map(|v| match v { JsonValue::Primitive(p) => prim(p, self.o.delim), _ => panic!("model") }).collect::<Vec<_>>().join(&self.o.delim.to_string())
    }
    fn object(&mut self, o: &[(String, JsonValue)], names: &[&str], depth: usize, c: &Ctx) {
        for (k, v) in o { self.field("", k, v, names, depth, 0, c); }
    }
    /// one field; `pre` is "" or "- ", and nested lines sit `extra` levels deeper than usual
    fn field(&mut self, pre: &str, k: &str, v: &JsonValue, names: &[&str], depth: usize, extra: usize, c: &Ctx) {
        let mut name = k.to_string();
        let mut v = v;
        let mut c2 = Ctx { path: Some(c.path.as_ref().map_or(k.to_string(), |p| [p.as_str(), k].join("."))), ..c.clone() };
        if pre.is_empty() && self.o.fold.is_some() {
            let mut segs = vec![k];
            let mut w = v;
            while let JsonValue::Object(o) = w {
                if o.len() != 1 || segs.len() >= c.budget { break; }
                segs.push(&o[0].0);
                w = &o[0].1;
            }
            let dotted = segs.join(".");
            let abs = c.path.as_ref().map_or(dotted.clone(), |p| [p.as_str(), &dotted].join("."));
            if segs.len() >= 2 && segs.iter().all(|s| is_ident(s)) && !names.contains(&dotted.as_str()) && !(!c.in_list && self.root_dotted.contains(&abs)) {
                c2 = Ctx { path: Some(abs), budget: c.budget - segs.len(), in_list: c.in_list };
                name = dotted;
                v = w;
            }
        } else if !pre.is_empty() {
            c2 = Ctx { path: None, budget: self.o.fold.unwrap_or(0), in_list: true };
        }
        let mut head = String::from(pre);
        head.push_str(&key(&name));
        match v {
            JsonValue::Primitive(p) => { head.push_str(": "); head.push_str(&prim(p, self.o.delim)); self.line(depth, head); }
            JsonValue::Object(o) => {
                head.push(':');
                self.line(depth, head);
                let names: Vec<&str> = o.iter().map(|e| e.0.as_str()).collect();
                self.object(o, &names, depth + 1 + extra, &c2);
            }
            JsonValue::Array(a) => self.array(head, a, depth, extra),
        }
    }
    fn array(&mut self, mut head: String, a: &[JsonValue], depth: usize, extra: usize) {
        if a.iter().all(is_prim) {
            head.push_str(&self.header(a.len(), None));
            if !a.is_empty() { head.push(' '); head.push_str(&self.join(&a.iter().collect::<Vec<_>>())); }
            return self.line(depth, head);
        }
        if let Some(f) = fields(a) {
            head.push_str(&self.header(a.len(), Some(&f)));
            self.line(depth, head);
            self.spans.push((self.out.len(), self.out.len() + a.len() - 1));
            for r in a {
                let JsonValue::Object(r) = r else { panic!("model") };
                let cells: Vec<&JsonValue> = f.iter().map(|k| &r.iter().find(|e| e.0 == *k).unwrap().1).collect();
                let l = self.join(&cells);
                self.line(depth + 1 + extra, l);
            }
            return;
        }
        head.push_str(&self.header(a.len(), None));
        self.line(depth, head);
        let first = self.out.len();
        for v in a { self.item(v, depth + 1 + extra); }
        self.spans.push((first, self.out.len() - 1));
    }
    fn item(&mut self, v: &JsonValue, depth: usize) {
        match v {
            JsonValue::Primitive(p) => { let t = ["- ", &prim(p, self.o.delim)].concat(); self.line(depth, t) }
            JsonValue::Array(a) => {
                // an array directly inside a list is never a table
                if a.iter().all(is_prim) { return self.array("- ".into(), a, depth, 0); }
                let h = ["- ", &self.header(a.len(), None)].concat();
                self.line(depth, h);
                let first = self.out.len();
                for v in a { self.item(v, depth + 1); }
                self.spans.push((first, self.out.len() - 1));
            }
            JsonValue::Object(o) if o.is_empty() => self.line(depth, "-".into()),
            JsonValue::Object(o) => {
                let c = Ctx { path: None, budget: self.o.fold.unwrap_or(0), in_list: true };
                let names: Vec<&str> = o.iter().map(|e| e.0.as_str()).collect();
                self.field("- ", &o[0].0, &o[0].1, &names, depth, 1, &c);
                self.object(&o[1..], &names, depth + 1, &c);
            }
        }
    }
}
pub fn encode_lines_model(v: &JsonValue, o: Opt) -> Vec<String> { encode_spans_model(v, o).0 }
/// the lines, and for each array the range [first, last] of the lines of its rows or items
pub fn encode_spans_model(v: &JsonValue, o: Opt) -> (Vec<String>, Vec<(usize, usize)>) {
    let mut e = Enc { o, out: vec![], root_dotted: vec![], spans: vec![] };
    match v {
        JsonValue::Primitive(p) => { let t = prim(p, o.delim); e.line(0, t) }
        JsonValue::Array(a) => e.array(String::new(), a, 0, 0),
        JsonValue::Object(ob) => {
            e.root_dotted = ob.iter().map(|x| x.0.clone()).filter(|k| k.contains('.')).collect();
            let names: Vec<&str> = ob.iter().map(|e| e.0.as_str()).collect();
            e.object(ob, &names, 0, &Ctx { path: None, budget: o.fold.unwrap_or(0), in_list: false });
        }
    }
    (e.out, e.spans)
}
pub fn encode_model(v: &JsonValue, o: Opt) -> String { encode_lines_model(v, o).join("\n") }

/// What a decoder returns for the encoded value: rows of tables take the first row's field order.
pub fn as_decoded(v: &JsonValue) -> JsonValue { ordered(v, false) }
fn ordered(v: &JsonValue, item: bool) -> JsonValue {
    match v {
        JsonValue::Primitive(P::Number(x)) if !x.is_finite() => null(),
        JsonValue::Primitive(P::Number(x)) if *x == 0.0 => num(0.0),
        JsonValue::Primitive(_) => v.clone(),
        JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), ordered(v, false))).collect()),
        JsonValue::Array(a) => {
            if let (false, Some(f)) = (item, fields(a)) {
                return JsonValue::Array(a.iter().map(|r| {
                    let JsonValue::Object(r) = r else { panic!("model") };
                    JsonValue::Object(f.iter().map(|k| (k.clone(), ordered(&r.iter().find(|e| e.0 == *k).unwrap().1, false))).collect())
                }).collect());
            }
            JsonValue::Array(a.iter().map(|v| ordered(v, true)).collect())
        }
    }
}
