//! Generators of TOON texts, well formed and not.
use super::sym::*;
use super::util::*;

/// content of line i, and the strings that have to appear in a result that includes the line
pub const NMENU: usize = 22;
pub fn content(i: usize, c: usize) -> (String, Vec<String>) {
    let k = ["kq", "kr", "ks", "kt"][i];
    let v = ["Vq", "Vr", "Vs", "Vt"][i];
    let w = ["Wq", "Wr", "Ws", "Wt"][i];
    let d = || string(vec![range(b'0', b'2')]);
    let (s, t): (String, Vec<&str>) = match c {
        0 => (format!("{k}: {v}"), vec![k, v]),
        1 => (format!("{k}:"), vec![k]),
        2 => (format!("- {v}"), vec![v]),
        3 => ("-".to_string(), vec![]),
        4 => (format!("- {k}: {v}"), vec![k, v]),
        5 => (format!("- {k}:"), vec![k]),
        6 => (format!("{k}[{}]: {v}", d()), vec![k, v]),
        7 => (format!("{k}[{}]:", d()), vec![k]),
        8 => (format!("{k}[{}]{{f,g}}:", d()), vec![k]),
        9 => (format!("{v},{w}"), vec![v, w]),
        10 => (v.to_string(), vec![v]),
        11 => (format!("- [{}]: {v},{w}", d()), vec![v, w]),
        12 => (format!("- {k}[{}]:", d()), vec![k]),
        13 => (format!("- {k}[{}]{{f,g}}:", d()), vec![k]),
        14 => (format!("- [{}]:", d()), vec![]),
        15 => (format!("[{}]:", d()), vec![]),
        16 => (format!("[{}]{{f,g}}:", d()), vec![]),
        17 => (format!("[{}]: {v},{w}", d()), vec![v, w]),
        18 => (String::new(), vec![]),
        19 => (format!("{k}[{}|]{{f|g}}:", d()), vec![k]),
        20 => (format!("\"{k}.x\": {v}"), vec![v]),
        _ => (format!("{k}.x.y: {v}"), vec![v]),
    };
    (s, t.into_iter().map(|x| x.to_string()).collect())
}
pub const INDENTS: [&str; 6] = ["", "  ", "    ", "\t", " ", "      "];
pub struct Doc { pub text: String, pub must: Vec<String> }
impl Doc {
    pub fn new() -> Doc { Doc { text: String::new(), must: vec![] } }
    pub fn line(&mut self, i: usize, indent: &str, c: usize) {
        let (s, m) = content(i, c);
        if i > 0 { self.text.push('\n'); }
        self.text.push_str(indent);
        self.text.push_str(&s);
        self.must.extend(m);
    }
}
/// two lines, everything
pub fn lines2() -> Doc {
    let mut d = Doc::new();
    d.line(0, INDENTS[choice(5)], choice(NMENU));
    d.line(1, INDENTS[choice(5)], choice(NMENU));
    d
}
const HEADS: [usize; 9] = [7, 8, 15, 16, 1, 0, 19, 6, 17];
/// an opening line and two lines below it
pub fn lines3() -> Doc {
    let mut d = Doc::new();
    d.line(0, "", HEADS[choice(HEADS.len())]);
    d.line(1, INDENTS[choice(2)], [0, 1, 2, 4, 5, 7, 9, 11, 12, 13, 14, 18, 3][choice(13)]);
    d.line(2, INDENTS[choice(3)], [0, 2, 4, 9, 3, 7, 18, 10][choice(8)]);
    d
}
pub fn lines3_full() -> Doc {
    let mut d = Doc::new();
    d.line(0, "", HEADS[choice(HEADS.len())]);
    d.line(1, INDENTS[choice(4)], choice(NMENU));
    d.line(2, INDENTS[choice(5)], choice(NMENU));
    d
}
/// header, list item that opens something, and two lines below
pub fn lines4() -> Doc {
    let mut d = Doc::new();
    d.line(0, "", [7, 15, 1][choice(3)]);
    d.line(1, "  ", [4, 5, 12, 13, 14, 11, 7, 8][choice(8)]);
    d.line(2, [INDENTS[1], INDENTS[2], INDENTS[5]][choice(3)], [0, 1, 2, 4, 9, 7, 18][choice(7)]);
    d.line(3, [INDENTS[0], INDENTS[1], INDENTS[2], INDENTS[5]][choice(4)], [0, 2, 9, 3][choice(4)]);
    d
}
pub const TPL: [(&str, &str); 24] = [
    ("k: ", ""), ("k: x\n", "\nl: y"), ("k[", "]: 1,2"), ("k[2", ": 1,2"), ("k[2]: 1", "2"),
    ("k[2]{a", "}:\n  1,2\n  3,4"), ("k[2]{a,b}:\n  1,2\n", "3,4"), ("k[2]{a,b}:\n  1,2\n  3", "4"), ("k[2]:\n  - 1\n", "- 2"), ("k[2]:\n  - 1\n  ", "2"),
    ("k[1]:\n  - a: 1\n", "b: 2"), ("k:\n", "a: 1\nl: 2"), ("\"k", "\": 1"), ("k: \"a", "\""), ("k.", "b: 1\nk.c: 2"),
    ("[1]:\n  - ", "x"), ("- ", "x"), ("k[1]:\n  - [2]", "1,2"), ("k[1]:\n  - a[1]{b}", "\n      1\n    c: 2"), ("a:\n  b:\n    c: 1", "\nd: 2"),
    ("a: 1\n  ", "b: 2"), ("[", "2]: 1,2"), ("k[1]{\"a", "\"}:\n  1"), ("k[1]:\n  - [1]{a", "}:\n    1"),
];
/// a document with a hole of n arbitrary ASCII bytes
pub fn window(n: usize) -> String {
    let (a, b) = TPL[choice(TPL.len())];
    let h = ascii(n);
    [a, &h, b].concat()
}
/// the same with a hole of valid UTF-8
pub fn window8(n: usize) -> String {
    let (a, b) = TPL[choice(TPL.len())];
    let h = utf8(n);
    [a, &h, b].concat()
}
/// documents nested deeply
pub fn nested(n: usize, c: usize) -> String {
    let mut s = String::new();
    match c {
        0 => for i in 0..n { s.push_str(&" ".repeat(2 * i)); s.push_str("k:\n"); },
        1 => { s.push_str("k[1]:\n"); for i in 0..n { s.push_str(&" ".repeat(2 * i + 2)); s.push_str("- [1]:\n"); } }
        2 => { s.push_str("k[1]:\n"); for i in 0..n { s.push_str(&" ".repeat(4 * i + 2)); s.push_str("- a[1]:\n"); } }
        3 => { for _ in 0..n { s.push_str("k."); } s.push_str("k: 1"); }
        4 => { for _ in 0..n { s.push_str("- "); } s.push_str("1"); }
        _ => { for _ in 0..n { s.push('['); } s.push_str(": 1"); }
    }
    s
}
