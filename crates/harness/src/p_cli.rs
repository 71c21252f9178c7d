//! C22 options of the command, C23 input and output of the command: the program's main function on a model of
//! files, standard streams and arguments (io.rs).
use super::io::*;
use super::p_json::{read_json, suffix};
use super::sym::*;
use super::util::*;
use toon::cli::json_stringify::json_stringify_lines;

struct Want { err: Option<String>, text: Option<Vec<u8>>, out: Option<String>, old: Option<Vec<u8>>, input: Option<(String, Vec<u8>)>, value: Option<JsonValue> }
static mut WANT: Want = Want { err: None, value: None, text: None, out: None, old: None, input: None };
fn want() -> &'static mut Want { unsafe { &mut *(&raw mut WANT) } }
/// JSON of the same value and layout (the escapes of control characters differ between the JSON writers)
fn same(dest: Option<&[u8]>) -> bool {
    let (Some(v), Some([t @ .., b'\n'])) = (&want().value, dest) else { return false };
    std::str::from_utf8(t).is_ok_and(|t| read_json(t, Some(2)).as_ref() == Some(v))
}
fn finish(success: bool) {
    let (o, w) = (os(), want());
    let file = |p: &str| o.find(p).map(|i| o.files[i].1.clone());
    let dest = match &w.out { Some(p) => file(p), None => Some(o.stdout.clone()) };
    if w.out.is_some() { check(o.stdout.is_empty(), 7); }
    if !success { check(!o.stderr.is_empty(), 8); }
    if let Some(e) = &w.err {
        if success { check(o.stderr == e.as_bytes(), 10); }
        else { check(!has(&o.stderr, b"coded `") && !has(&o.stderr, b"Token estimates") && !has(&o.stderr, b"Saved"), 11); }
    }
    if o.hard { reach(2); check(!success, 5); }
    match &w.text {
        Some(t) => {
            if success { reach(1); check(dest.as_ref() == Some(t) || same(dest.as_deref()), 6); }
            if !o.hard { check(success, 1); }
        }
        None => { reach(3); check(!success, 3); check(if w.out.is_some() { dest == w.old } else { o.stdout.is_empty() }, 4); }
    }
    if let Some((p, c)) = &w.input { if w.out.as_ref() != Some(p) { check(file(p).as_ref() == Some(c), 9); } }
}
fn has(s: &[u8], t: &[u8]) -> bool { s.windows(t.len()).any(|w| w == t) }
/// one run of the command. `text` is the output that is expected, None when it has to fail without touching any output.
fn command(args: &[&str], input: Option<(&str, &[u8])>, stdin: &[u8], out: Option<&str>, old: Option<&[u8]>, text: Option<Vec<u8>>) -> ! {
    note(&args.join(" "));
    let o = os();
    if let Some((p, c)) = input { o.files.push((p.to_string(), c.to_vec())); }
    if let (Some(p), Some(c)) = (out, old) { if o.find(p).is_none() { o.files.push((p.to_string(), c.to_vec())); } }
    o.stdin = stdin.to_vec();
    o.finish = Some(finish);
    *want() = Want { err: want().err.take(), value: want().value.take(), text, out: out.map(|s| s.to_string()), old: match (out, input) { (Some(p), Some((q, c))) if p == q => Some(c.to_vec()), _ => old.map(|c| c.to_vec()) }, input: input.map(|(p, c)| (p.to_string(), c.to_vec())) };
    let mut v = vec!["toon"];
    v.extend_from_slice(args);
    set_args(&v);
    vf_direct();
    o.on = true;
    let success = super::real::go();
    // what the runtime does at the end of the process
    let _ = std::io::Write::flush(&mut std::io::stdout());
    end(success)
}
unsafe extern "C-unwind" {
    safe fn vf_direct();
}
fn encoded(json: &[u8], o: EncodeOptions) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(json).ok()?;
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    let mut t = encode(JsonValue::from(v), Some(o)).into_bytes();
    t.push(b'\n');
    Some(t)
}
fn decoded(text: &[u8], indent: usize, strict: bool, expand: bool) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(text).ok()?;
    let v = try_decode(s, dec(indent, strict, expand)).ok()?;
    let mut t = json_stringify_lines(&v, indent).concat().into_bytes();
    t.push(b'\n');
    Some(t)
}
fn plain() -> EncodeOptions { EncodeOptions { indent: Some(2), delimiter: Some(','), key_folding: Some(KeyFoldingMode::Off), flatten_depth: None, replacer: None } }

// ---- C23 --------------------------------------------------------------------------------------------------------
const JSONS: [&[u8]; 4] = [b"{\"a\":1,\"b\":[\"x\",\"\xc3\xa9\"]}", b"[{\"a\":1,\"b\":\"u v\"},{\"a\":2,\"b\":\"\"}]", b"{}", b"  {\"k\"            :\n    \"s\"}  "];
const TOONS: [&[u8]; 4] = [b"a: 1\nb[2]: x,\xc3\xa9\n", b"[2]{a,b}:\n  1,u v\n  2,\"\"", b"", b"k:                         v\n\n"];
/// larger than the buffers of the readers and writers
fn large(toon: bool, c: usize) -> Vec<u8> {
    match (toon, c) {
        // one line longer than any buffer
        (false, 0) => ["\"", &"abcdefghij".repeat(900), "\""].concat().into_bytes(),
        (true, 0) => "abcdefghij".repeat(900).into_bytes(),
        // many lines
        (false, _) => ["[{}", &",[1]".repeat(700), "]"].concat().into_bytes(),
        (true, _) => (0..700).map(|i| format!("{}: 1\n", key_no(i))).collect::<String>().into_bytes(),
    }
}
/// larger than a pipe, or two
pub fn c23_vast() {
    let toon = flag();
    let (l, c) = (letter(), choice(3));
    let n = [70_000, 140_000][choice(2)];
    let c = match (toon, c) {
        (false, 0) => ["[\"", &"x".repeat(n), &l, "\"]"].concat(),
        (true, 0) => ["x".repeat(n), l].concat(),
        (false, 1) => ["[1", &",1".repeat(n / 2), ",\"", &l, "\"]"].concat(),
        (true, 1) => ["k: \"", &"\u{2603}".repeat(n / 3), &l, "\""].concat(),
        (false, _) => ["{\"k\":{}", &" ".repeat(n), ",\"l\":\"", &l, "\"}"].concat(),
        (true, _) => ["k: 1", &"\n".repeat(n), "l: ", &l].concat(),
    }.into_bytes();
    os().budget = 0;
    let text = if toon { decoded(&c, 2, true, false) } else { encoded(&c, plain()) };
    route_of(toon, &c, text, &[], true)
}
/// where input comes from and output goes to
fn route(toon: bool, content: &[u8], text: Option<Vec<u8>>, extra: &[&str]) -> ! { route_of(toon, content, text, extra, false) }
fn route_of(toon: bool, content: &[u8], text: Option<Vec<u8>>, extra: &[&str], few: bool) -> ! {
    let mut args: Vec<&str> = extra.to_vec();
    let name = if toon { "i.toon" } else { "i.json" };
    let flag = if toon { "-d" } else { "-e" };
    let input = match choice(if few { 2 } else { 3 }) {
        0 => { args.push(name); Some((name, content)) }
        1 => { args.push(flag); None }
        _ => { args.push(flag); args.push("-"); None }
    };
    let (out, old): (Option<&str>, Option<&[u8]>) = match choice(if few { 2 } else { 4 }) { 0 => (None, None), 1 => (Some("o.txt"), None), 2 => (Some("o.txt"), Some(b"old")), _ => (Some(if input.is_some() { name } else { "o.txt" }), None) };
    let long = vec![b'#'; 9500];
    let old = if old.is_some() && choice(2) == 1 { Some(&long[..]) } else { old };
    if let Some(p) = out { args.push("-o"); args.push(p); }
    command(&args, input, if input.is_some() { b"" } else { content }, out, old, text)
}
fn small(budget: usize, trickle: bool) {
    let toon = flag();
    let c = if toon { TOONS } else { JSONS }[choice(4)];
    os().budget = budget;
    os().trickle = trickle;
    if trickle { let n = 80 * choice(3); os().window = (n, n + 80); }
    let text = if toon { decoded(c, 2, true, false) } else { encoded(c, plain()) };
    let extra: &[&str] = if flag() { &["--stats"] } else { &[] };
    route(toon, c, text, extra)
}
pub fn c23_faults1() { small(1, false) }
pub fn c23_faults2() { small(2, false) }
pub fn c23_faults3() { small(3, false) }
pub fn c23_faults4() { small(4, false) }
pub fn c23_trickle() { small(1, true) }
pub fn c23_large() {
    let toon = flag();
    let c = large(toon, choice(2));
    os().budget = 1;
    let n = 85 * choice(22);
    os().window = (n, n + 85);
    let text = if toon { decoded(&c, 2, true, false) } else { encoded(&c, plain()) };
    let extra: &[&str] = if flag() { &["--stats"] } else { &[] };
    route_of(toon, &c, text, extra, true)
}
/// input that cannot be converted: any two bytes, also ones that are not UTF-8, inside a document
pub fn c23_reject() {
    let toon = flag();
    let b = [byte(), byte()];
    assume(!b[0].is_ascii_digit() && !b[1].is_ascii_digit()); // not numbers
    let c = match (toon, choice(2)) {
        (false, 0) => [b"{\"a\":", &b[..], b"}"].concat(),
        (false, _) => [b"{\"a\":\"", &b[..], b"\"}"].concat(),
        (true, 0) => [b"k[2]: a,", &b[..], b"\n"].concat(),
        (true, _) => [b"a: 1\n", &b[..], b"b: 1"].concat(),
    };
    let text = if toon { decoded(&c, 2, true, false) } else { encoded(&c, plain()) };
    if toon { want().value = std::str::from_utf8(&c).ok().and_then(|s| try_decode(s, dec(2, true, false)).ok()); }
    route(toon, &c, text, &[])
}
/// any small document through the whole command
pub fn c23_docs() {
    let toon = flag();
    let c = if toon {
        match choice(3) { 0 => ascii(3), 1 => ["k: ", &ascii(2)].concat(), _ => ["a:\n  ", &ascii(3), "\n  c: 1"].concat() }
    } else {
        match choice(3) { 0 => ascii(2), 1 => ["[", &ascii(2), "]"].concat(), _ => ["{\"k\":\"", &ascii(2), "\"}"].concat() }
    };
    let c = c.as_bytes();
    let text = if toon { decoded(c, 2, true, false) } else { encoded(c, plain()) };
    if toon { want().value = std::str::from_utf8(c).ok().and_then(|s| try_decode(s, dec(2, true, false)).ok()); }
    let old: Option<&[u8]> = Some(b"old");
    let name = if toon { "d.toon" } else { "d.json" };
    if flag() { command(&[name], Some((name, c)), b"", None, None, text) } else { command(&[if toon { "-d" } else { "-e" }, "-o", "o"], None, c, Some("o"), old, text) }
}
/// no such input file
pub fn c23_missing() {
    let out = flag();
    let args: &[&str] = if out { &["no.json", "-o", "o.txt"] } else { &["no.json"] };
    command(args, None, b"{}", if out { Some("o.txt") } else { None }, if flag() { Some(b"old") } else { None }, None)
}

// ---- C22 --------------------------------------------------------------------------------------------------------
const VALUE: &[u8] = b"{\"a\":{\"b\":{\"c\":{\"d\":1}}},\"l\":[1,\"x,y\",\"p|q\"],\"t\":[{\"m\":1,\"n\":\"u\"},{\"n\":\"\",\"m\":2}]}";
const DOCS: [&[u8]; 5] = [b"a.b: 1\na.c:\n  - x\nd.e[1]: 2\n", b"a.b: 1\na.c: 2\nm:\n  n[1]{p}:\n    1", b"a.b: 1\na: 2", b"l[3]: 1,2", b"a:\n    b: 1\n    c:\n        d: 2"];
fn opt_delim() -> (Vec<&'static str>, char) {
    match choice(9) {
        0 => (vec![], ','), 1 => (vec!["--delimiter", ","], ','), 2 => (vec!["--delimiter", "comma"], ','), 3 => (vec!["--delimiter", "|"], '|'), 4 => (vec!["--delimiter=pipe"], '|'),
        5 => (vec!["--delimiter", "\t"], '\t'), 6 => (vec!["--delimiter", "\\t"], '\t'), 7 => (vec!["--delimiter", "tab"], '\t'), _ => (vec!["--delimiter=|"], '|'),
    }
}
fn opt_indent(all: bool) -> (Vec<&'static str>, usize) {
    const N: [&str; 17] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16"];
    if all { let i = choice(17); return (vec!["--indent", N[i]], i); }
    match choice(5) { 0 => (vec![], 2), 1 => (vec!["--indent", "0"], 0), 2 => (vec!["--indent=4"], 4), 3 => (vec!["--indent", "16"], 16), _ => (vec!["--indent", "3"], 3) }
}
fn opt_fold() -> (Vec<&'static str>, KeyFoldingMode) {
    match choice(4) { 0 => (vec![], KeyFoldingMode::Off), 1 => (vec!["--key-folding", "off"], KeyFoldingMode::Off), 2 => (vec!["--key-folding", "safe"], KeyFoldingMode::Safe), _ => (vec!["--key-folding=safe"], KeyFoldingMode::Safe) }
}
fn opt_depth() -> (Vec<&'static str>, Option<usize>) {
    match choice(6) { 0 => (vec![], None), 1 => (vec!["--flatten-depth", "0"], Some(0)), 2 => (vec!["--flatten-depth", "1"], Some(1)), 3 => (vec!["--flatten-depth=2"], Some(2)), 4 => (vec!["--flatten-depth", "3"], Some(3)), _ => (vec!["--flatten-depth", "18446744073709551615"], Some(usize::MAX)) }
}
fn opt_expand() -> (Vec<&'static str>, bool) { match choice(3) { 0 => (vec![], false), 1 => (vec!["--expand-paths", "off"], false), _ => (vec!["--expand-paths=safe"], true) } }
fn encodes(d: (Vec<&'static str>, char), i: (Vec<&'static str>, usize), f: (Vec<&'static str>, KeyFoldingMode), n: (Vec<&'static str>, Option<usize>), extra: &[&str]) {
    let text = encoded(VALUE, EncodeOptions { indent: Some(i.1), delimiter: Some(d.1), key_folding: Some(f.1), flatten_depth: n.1, replacer: None });
    let mut a: Vec<&str> = [d.0, i.0, f.0, n.0].concat();
    a.extend_from_slice(extra);
    match choice(3) {
        0 => { a.push("x.json"); command(&a, Some(("x.json", VALUE)), b"", None, None, text) }
        1 => { a.insert(0, "x.toon"); a.push("--encode"); command(&a, Some(("x.toon", VALUE)), b"", None, None, text) }
        _ => { a.push("--output=y.json"); command(&a, None, VALUE, Some("y.json"), None, text) }
    }
}
pub fn c22_enc_opts() {
    let extra = [&[][..], &["--stats"], &["--no-strict", "--expand-paths", "safe"]][choice(3)];
    encodes(opt_delim(), opt_indent(false), opt_fold(), opt_depth(), extra)
}
pub fn c22_indents() {
    if flag() { return encodes((vec![], ','), opt_indent(true), opt_fold(), (vec![], None), &[]); }
    let (i, x) = (opt_indent(true), opt_expand());
    let doc = [" ".repeat(i.1).as_bytes(), b"b: 1"].concat();
    let doc = [b"a:\n", &doc[..], b"\nc.d[1]:\n", &doc[..i.1], b"- ", b"x"].concat();
    let mut a: Vec<&str> = [i.0, x.0].concat();
    a.push("x.toon");
    command(&a, Some(("x.toon", &doc)), b"", None, None, decoded(&doc, i.1, true, x.1))
}
pub fn c22_dec_opts() {
    let doc = DOCS[choice(5)];
    let (i, x) = (opt_indent(false), opt_expand());
    let lax = flag();
    let text = decoded(doc, i.1, !lax, x.1);
    let mut a: Vec<&str> = [i.0, x.0].concat();
    if lax { a.push("--no-strict"); }
    if flag() { a.push("--stats"); }
    match choice(4) {
        0 => { a.push("x.toon"); command(&a, Some(("x.toon", doc)), b"", None, None, text) }
        1 => { a.insert(0, "x.json"); a.push("--decode"); command(&a, Some(("x.json", doc)), b"", None, None, text) }
        2 => { a.extend(["-d", "--output", "y.toon"]); command(&a, None, doc, Some("y.toon"), None, text) }
        _ => { a.extend(["-d", "--delimiter", "pipe", "--key-folding=safe", "--flatten-depth", "2"]); command(&a, None, doc, None, None, text) }
    }
}
/// option values of symbolic bytes, and arguments that contradict each other
pub fn c22_refuse() {
    let text = |i: usize, d: char| encoded(VALUE, EncodeOptions { indent: Some(i), delimiter: Some(d), ..plain() });
    let c = choice(12);
    if c < 2 {
        let v = ascii(1 + c);
        assume(v.bytes().all(|b| b != 0) && !v.starts_with('-'));
        let d = match &v[..] { "," => Some(','), "|" => Some('|'), "\t" | "\\t" => Some('\t'), _ => None };
        return command(&["--delimiter", &v], None, VALUE, None, None, d.and_then(|d| text(2, d)));
    }
    if c < 4 {
        let v = ascii(c - 1);
        assume(v.bytes().all(|b| b != 0) && !v.starts_with(['-', '+']));
        let digits = v.bytes().all(|b| b.is_ascii_digit());
        let n = if digits { v.bytes().fold(0usize, |n, b| n * 10 + (b - b'0') as usize) } else { 99 };
        return command(&["--indent", &v], None, VALUE, None, None, if n <= 16 { text(n, ',') } else { None });
    }
    let a: &[&str] = match c {
        4 => &["-e", "-d"], 5 => &["--decode", "--encode"], 6 => &["a.json", "b.json"], 7 => &["--indent", "017x"], 8 => &["--key-folding", "Safe"], 9 => &["--expand-paths", "on"],
        10 => &["--flatten-depth", "-1"], _ => &["--flatten-depth", "18446744073709551616"],
    };
    let out = flag();
    let a: Vec<&str> = if out { [a, &["-o", "o.txt"]].concat() } else { a.to_vec() };
    command(&a, Some(("a.json", VALUE)), VALUE, if out { Some("o.txt") } else { None }, Some(b"old"), None)
}
/// a symbolic file name selects the direction
pub fn c22_run() {
    let e = ["toon", "json"][choice(2)];
    let (i, c) = (choice(4), range(33, 126));
    assume(c != b'/');
    let mut b = e.as_bytes().to_vec();
    b[i] = c;
    let name = ["a.", &string(b)].concat();
    // both a TOON and a JSON document
    let doc = b"\"x\"";
    let text = if suffix(&name) == "toon" { decoded(b"\"x\"", 2, true, false) } else { encoded(b"\"x\"", plain()) };
    command(&[&name], Some((&name, doc)), b"", None, None, text)
}

// ---- C28 --------------------------------------------------------------------------------------------------------
/// the documented estimate: a quarter of the visible characters, at least the number of words, at least one
fn tokens(s: &str) -> usize {
    let (mut visible, mut words, mut inside) = (0, 0, false);
    for c in s.chars() {
        if c.is_whitespace() { inside = false; } else { visible += 1; if !inside { words += 1; } inside = true; }
    }
    (visible / 4).max(words).max(1)
}
fn report(toon: bool, from: Option<&str>, to: Option<&str>, stats: Option<(&str, &str)>) -> String {
    let mut e = String::new();
    if let Some((json, text)) = stats {
        let (a, b) = (tokens(json), tokens(text));
        e += &format!("\nToken estimates: ~{a} (JSON) \u{2192} ~{b} (TOON)\n");
        if a > b { e += &format!("Saved ~{} tokens (-{:.1}%)\n", a - b, (a - b) as f64 / a as f64 * 100.0); }
    }
    if let Some(to) = to { e += &format!("{} `{}` \u{2192} `{}`\n", if toon { "Decoded" } else { "Encoded" }, from.unwrap_or("stdin"), to); }
    e
}
fn messages(toon: bool, doc: String, faults: usize) -> ! {
    let (stats, fold) = (flag(), flag());
    let (from, arg) = [(Some("in put.json"), Some("in put.json")), (None, Some("-")), (None, None)][choice(3)];
    let to = [None, Some("o.txt"), Some("o\u{e9} x.toon")][choice(3)];
    let mut a = vec![if toon { "-d" } else { "-e" }];
    a.extend(arg);
    if stats { a.push("--stats"); }
    if fold { a.extend(["--key-folding", "safe", "--delimiter", "|"]); }
    if let Some(t) = to { a.extend(["-o", t]); }
    os().budget = faults;
    let o = EncodeOptions { key_folding: Some(if fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }), delimiter: Some(if fold { '|' } else { ',' }), ..plain() };
    let text = if toon { decoded(doc.as_bytes(), 2, true, false) } else { encoded(doc.as_bytes(), o) };
    let t = text.as_ref().map(|t| String::from_utf8_lossy(&t[..t.len() - 1]).into_owned()).unwrap_or_default();
    want().err = Some(report(toon, from, to, if stats && !toon { Some((&doc, &t)) } else { None }));
    command(&a, from.map(|f| (f, doc.as_bytes())), if from.is_some() { b"" } else { doc.as_bytes() }, to, None, text)
}
fn row(i: usize, l: &str) -> String { format!("  {{ \"id\" : {i}, \"name\" : \"n{l}\" }}") }
pub fn c28_stats() {
    let l = letter();
    let doc = match choice(9) {
        0 => "{}".to_string(), 1 => format!("{{\"{l}\":1}}"), 2 => format!("\"{l}\""), 3 => format!("[\n{},\n{}\n]\n", row(1, &l), row(2, &l)),
        4 => format!("[{}]", (0..40).map(|i| row(i, if i < 3 { &l } else { "ame" })).collect::<Vec<_>>().join(",\n")),
        5 => format!("{{\"a\":{{\"b\":{{\"c\":[\"{l}\",\"x y\"]}}}}}}"),
        6 => format!("{{\"{l}\":"), 7 => format!("[{}]", ["1", &l][0]), _ => format!("{}\"{} {l}\"", " ".repeat(30), "word ".repeat(20)),
    };
    messages(false, doc, 0)
}
/// white space and characters of several bytes
pub fn c28_text() { let t = utf8(2); assume(t.bytes().all(|b| b >= 32 && b != b'"' && b != b'\\')); messages(false, format!("[\"a{t}b\",\n\"{t}\"]"), 0) }
pub fn c28_large() { let l = letter(); let n = [300, 1100][choice(2)]; messages(false, format!("[{}]", (0..n).map(|i| row(i, if i == n - 1 { &l } else { "ame" })).collect::<Vec<_>>().join(",")), 0) }
pub fn c28_decode() { let l = letter(); messages(true, [format!("a: {l}"), format!("[2]: {l}"), format!("k[2]{{a,b}}:\n  1,{l}\n  2,x"), String::new(), format!("\"{l}")][choice(5)].clone(), 0) }
/// no success is reported when something failed
pub fn c28_faults() { let toon = flag(); let l = letter(); messages(toon, if toon { format!("a: {l}\nb: 1") } else { format!("{{\"a\":\"{l}\",\"b\":[1]}}") }, 1) }
