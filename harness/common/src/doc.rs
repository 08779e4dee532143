//! Random well-formed documents: a model value and a rendering of it with random syntax choices.
//! The renderings follow docs/content/reference/spec; every model document is valid.
use crate::source::*;
use crate::lex;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Unit,
    S(String),
    /// name, payload (None renders as `@name`)
    T(String, Option<Box<M>>),
    Seq(Vec<M>),
    /// key, value, doc comment
    Obj(Vec<E>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct E { pub key: Key, pub val: M, pub doc: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub enum Key { Unit, S(String), T(String, Option<String>) }

pub fn bare_ok(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() { return false }
    let (k, e, _, _) = lex::tok(&c, 0, &None);
    k == lex::K::Bare && e == c.len()
}

const WORDS: &[&str] = &["a", "b", "host", "x1", "1", "-2.5", "true", "foo-bar", "a=b", "http://e/x?q=1", "r", "rx", "_", "é", "日本", "a@b", "/", "a//b", "#", "\\", "~", "[x]", "a:b", "<", "a<<B", "null", ".5", "..", "a.b.c", "EOF", "\u{1F600}"];
const ODD: &[&str] = &["", " ", "a b", "q\"q", "back\\slash", "tab\there", "nl\nnl", "cr\rx", "crlf\r\n", "\u{0}", "\u{7}", "\u{7f}", "{x}", "(y)", "a,b", "a>b", ">", "@t", "=v", "// no", "r#\"x\"#", "<<EOF", "\"#", "\"##", "trail ", " lead", "\u{a0}", "\u{2028}", "a\u{85}b", "l1\nl2\nl3\n", "  i\n\ti\n\n", "EOF\nx\n", "\n", "\n\n\n", "x\n  EOF\n", "\u{feff}", "a\u{301}", "\u{b}x", "\u{c}", "\u{2003}em", "\u{3000}", "A", "B b", "ß"];
const TAGS: &[&str] = &["t", "ok", "tag-x", "_u", "T9", "r", "or", "env"];

pub fn scalar(c: &mut Ch) -> String {
    match c.below(9) {
        0..=3 => c.word(WORDS).to_string(),
        4 | 5 => c.word(ODD).to_string(),
        8 => { let w = if c.one_in(2) { *c.pick(ODD) } else { *c.pick(WORDS) }; w.repeat(*c.pick(&[2usize, 3, 5, 8, 17, 33, 70])) }
        6 => { let n = c.below(4); (0..n).map(|_| if c.one_in(2) { *c.pick(ODD) } else { *c.pick(WORDS) }).collect() }
        _ => { let n = c.below(6); (0..n).map(|_| *c.pick(&['a', ' ', '"', '\\', '\n', '#', '\t', 'é', '}', '=', 'r', '/', '<', 'E', '.'])).collect() }
    }
}
pub fn value(c: &mut Ch, depth: usize) -> M {
    match c.below(if depth == 0 { 4 } else { 8 }) {
        0 | 1 => M::S(scalar(c)),
        2 => M::Unit,
        3 => {
            let n = c.pick(TAGS).to_string();
            let p = match c.below(4) {
                0 => None,
                1 => Some(M::S(scalar(c))),
                2 if depth > 0 => Some(seq(c, depth - 1)),
                3 if depth > 0 => Some(obj(c, depth - 1, 3)),
                _ => None,
            };
            M::T(n, p.map(Box::new))
        }
        4 | 5 => seq(c, depth - 1),
        _ => obj(c, depth - 1, 4),
    }
}
fn seq(c: &mut Ch, depth: usize) -> M { let n = c.below(4); M::Seq((0..n).map(|_| value(c, depth)).collect()) }
pub fn key(c: &mut Ch) -> Key {
    match c.below(10) {
        0 => Key::Unit,
        1 => Key::T(c.pick(TAGS).to_string(), None),
        2 => Key::T(c.pick(TAGS).to_string(), Some(scalar(c))),
        3 | 4 => Key::S(scalar(c)),
        _ => Key::S(c.word(WORDS).to_string()),
    }
}
pub fn obj(c: &mut Ch, depth: usize, max: usize) -> M {
    let n = c.below(max + 1);
    let mut v: Vec<E> = vec![];
    for _ in 0..n {
        let k = key(c);
        if v.iter().any(|e| e.key == k) { continue }
        let doc = c.one_in(6).then(|| c.pick(&["doc", "a longer doc", "d1\nd2", "x // y {"]).to_string());
        v.push(E { key: k, val: value(c, depth), doc });
    }
    M::Obj(v)
}

pub fn quoted(s: &str, c: &mut Ch) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"", '\\' => o += "\\\\",
            '\n' if !c.one_in(4) => o += "\\n", '\r' if !c.one_in(4) => o += "\\r", '\t' if !c.one_in(4) => o += "\\t",
            ch if c.one_in(12) => { if (ch as u32) < 0x10000 && c.one_in(2) { o += &format!("\\u{:04X}", ch as u32) } else { o += &format!("\\u{{{:x}}}", ch as u32) } }
            ch => o.push(ch),
        }
    }
    o + "\""
}
pub fn raw(s: &str) -> Option<String> {
    for n in 0..4 {
        let h = "#".repeat(n);
        if !s.contains(&format!("\"{h}")) { return Some(format!("r{h}\"{s}\"{h}")) }
    }
    None
}
/// What may surround a scalar at this place.
#[derive(Clone, Copy, PartialEq)]
pub enum At { Key, Value, Payload, AttrVal, Item }
pub fn rscalar(s: &str, at: At, c: &mut Ch) -> String {
    let bare = bare_ok(s) && at != At::Payload && !(at == At::Key && s.contains('.'));
    if bare && !c.one_in(4) { return s.to_string() }
    if c.one_in(4) { if let Some(r) = raw(s) { return if at == At::Payload && r.starts_with("r\"") { if s.contains("\"#") { quoted(s, c) } else { format!("r#\"{s}\"#") } } else { r } } }
    quoted(s, c)
}
/// Heredoc for a value that ends its line: `s` is empty or ends in a line break and no line of it is the delimiter.
pub fn heredoc(s: &str, c: &mut Ch) -> Option<String> {
    if s.contains('\r') || !(s.is_empty() || s.ends_with('\n')) { return None }
    let d = *c.pick(&["EOF", "E", "TXT_1", "ABCDEFGHIJKLMNOP"]);
    if s.lines().any(|l| l.trim_start_matches([' ', '\t']) == d) { return None }
    let lang = if c.one_in(4) { ",rust" } else { "" };
    let ind = c.below(3);
    let pad = " ".repeat(ind);
    let body: String = s.split_inclusive('\n').map(|l| format!("{pad}{l}")).collect();
    Some(format!("<<{d}{lang}\n{body}{pad}{d}"))
}
fn attr_ok(m: &M) -> bool { matches!(m, M::Obj(v) if !v.is_empty() && v.iter().all(|e| e.doc.is_none() && matches!(&e.key, Key::S(s) if bare_ok(s)) && !matches!(&e.val, M::Obj(w) if !w.is_empty()))) }
pub fn render(m: &M, at: At, ind: usize, line_end: bool, c: &mut Ch) -> String {
    match m {
        M::Unit => "@".into(),
        M::S(s) => {
            if line_end && at == At::Value && c.one_in(5) { if let Some(h) = heredoc(s, c) { return h } }
            rscalar(s, at, c)
        }
        M::T(n, None) => if c.one_in(8) && at != At::Payload { format!("@{n}@") } else { format!("@{n}") },
        M::T(n, Some(p)) => format!("@{n}{}", render(p, At::Payload, ind, false, c)),
        M::Seq(v) => {
            let sep = |c: &mut Ch| match c.below(4) { 0 => "\n".to_string(), 1 => "  ".into(), 2 if true => "\n  // c\n".into(), _ => " ".into() };
            let mut o = String::from("(");
            for (i, x) in v.iter().enumerate() {
                if i > 0 || c.one_in(4) { let s = if i == 0 { " ".to_string() } else { sep(c) }; o += &s }
                o += &render(x, At::Item, ind + 1, false, c);
            }
            if c.one_in(5) { o += " " }
            o + ")"
        }
        M::Obj(v) => {
            if at == At::Value && line_end && attr_ok(m) && c.one_in(3) {
                let p: Vec<String> = v.iter().map(|e| { let Key::S(k) = &e.key else { unreachable!() }; format!("{k}>{}", render(&e.val, At::AttrVal, ind, false, c)) }).collect();
                return p.join(" ");
            }
            if v.iter().all(|e| e.doc.is_none()) && !c.one_in(2) {
                let p: Vec<String> = v.iter().map(|e| entry(e, ind, false, c)).collect();
                let pad = if c.one_in(3) { " " } else { "" };
                format!("{{{pad}{}{pad}}}", p.join(if c.one_in(3) { "," } else { ", " }))
            } else {
                let i2 = "  ".repeat(ind + 1);
                let mut o = String::from("{\n");
                for e in v { o += &docs(e, &i2, c); o += &i2; o += &entry(e, ind + 1, true, c); o += nl(c) }
                o + &"  ".repeat(ind) + "}"
            }
        }
    }
}
fn nl(c: &mut Ch) -> &'static str { *c.pick(&["\n", "\n", "\n", "\n\n", "\r\n"]) }
fn docs(e: &E, ind: &str, c: &mut Ch) -> String { e.doc.iter().flat_map(|d| d.split('\n')).map(|l| format!("{ind}/// {l}\n{}", if c.one_in(12) { format!("{ind}// between\n") } else { String::new() })).collect() }
pub fn rkey(k: &Key, c: &mut Ch) -> String {
    match k {
        Key::Unit => "@".into(),
        Key::S(s) => rscalar(s, At::Key, c),
        Key::T(n, None) => format!("@{n}"),
        Key::T(n, Some(p)) => format!("@{n}{}", rscalar(p, At::Payload, c)),
    }
}
fn entry(e: &E, ind: usize, line_end: bool, c: &mut Ch) -> String {
    let k = rkey(&e.key, c);
    if e.val == M::Unit && c.one_in(2) { return k }
    let sp = *c.pick(&[" ", " ", "  ", "\t"]);
    format!("{k}{sp}{}", render(&e.val, At::Value, ind, line_end, c))
}
/// A document whose root object is `m`.
pub fn document(m: &M, c: &mut Ch) -> String {
    let M::Obj(v) = m else { unreachable!() };
    if c.one_in(6) { return format!("{}{}{}", c.pick(&["", "\n", "// head\n"]), render(m, At::Item, 0, false, c), c.pick(&["", "\n", "\n// tail\n"])) }
    let mut o = String::new();
    for e in v {
        if c.one_in(6) { o += "// note {\n" }
        o += &docs(e, "", c);
        o += &entry(e, 0, true, c);
        if e.doc.is_none() && c.one_in(8) && !o.lines().last().is_some_and(|l| l.trim_start().chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())) { o += " // same line" }
        o += nl(c);
    }
    if c.one_in(3) { while o.ends_with(['\n', '\r']) && !v.is_empty() { o.pop(); } }
    o
}
pub fn any_doc(c: &mut Ch) -> String { let m = obj(c, 3, 5); document(&m, c) }
