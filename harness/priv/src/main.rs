#[allow(dead_code)]
mod gen_lev;
mod gen_lev2;
#[allow(dead_code)]
mod gen_pos;
#[allow(dead_code, private_interfaces)]
mod gen_sem;
use searchkit::{source::*, *};
macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }
const CH: &[&str] = &["a", "b", "\n", "\n", "\r\n", "\t", "é", "日", "😀", "\u{a0}", "\u{301}", " ", "\u{10ffff}", "\u{ffff}"];
fn text(c: &mut Ch, m: usize) -> String { let n = c.below(m); (0..n).map(|_| c.word(CH)).collect::<String>().chars().take(120).collect() }
fn want(s: &str, b: usize) -> (u32, u32) {
    let h = &s[..b];
    let l = h.matches('\n').count() as u32;
    let t = h.rsplit('\n').next().unwrap();
    (l, t.encode_utf16().count() as u32)
}
fn p15(c: &mut Ch) -> (String, R) {
    let s = text(c, 24);
    let (l, k) = (c.below(8) as u32, c.below(12) as u32);
    (format!("text {s:?}, position {l}:{k}"), check15(&s, l, k))
}
fn check15(s: &str, l: u32, k: u32) -> R {
    for b in 0..=s.len() {
        if !s.is_char_boundary(b) { gen_pos::offset_to_position(s, b); continue }
        let p = gen_pos::offset_to_position(s, b);
        if (p.line, p.character) != want(s, b) { bad!("offset {b} gives {}:{}, expected {:?}", p.line, p.character, want(s, b)) }
        let q = gen_sem::offset_to_line_col(s, b);
        if q != want(s, b) { bad!("highlighting: offset {b} gives {q:?}, expected {:?}", want(s, b)) }
        let r = gen_pos::position_to_offset(s, p);
        if r != b { bad!("offset {b} -> {}:{} -> {r}", p.line, p.character) }
    }
    let p = gen_pos::offset_to_position(s, s.len() + 3);
    if (p.line, p.character) != want(s, s.len()) { bad!("offset behind the end gives {}:{}", p.line, p.character) }
    // any position
    let r = gen_pos::position_to_offset(s, gen_pos::Position::new(l, k));
    let mut e = s.len();
    let mut at = 0;
    for (i, line) in s.split('\n').enumerate() {
        if i as u32 == l {
            e = at + line.len();
            let mut u = 0;
            for (j, ch) in line.char_indices() { if u >= k { e = at + j; break } u += ch.len_utf16() as u32; }
        }
        at += line.len() + 1;
    }
    if r != e { bad!("position {l}:{k} gives offset {r}, expected {e}") }
    Ok(s.contains('\n'))
}
fn p16(c: &mut Ch) -> (String, R) {
    use gen_sem::TokenType::*;
    let kinds = [(Comment, 0), (String, 1), (Number, 2), (Keyword, 3), (Type, 4), (EnumMember, 5), (Property, 6), (Operator, 7)];
    let n = c.below(9);
    let (mut l, mut s) = (0u32, 0u32);
    let mut v = vec![];
    for _ in 0..n {
        let dl = *c.pick(&[0u32, 0, 0, 1, 1, 2, 7, 1 << 20]);
        let ds = *c.pick(&[0u32, 1, 2, 3, 5, 40, 1 << 20]);
        if dl > 0 { l += dl; s = ds } else { s += ds }
        let k = *c.pick(&kinds);
        v.push((l, s, *c.pick(&[0u32, 1, 2, 9, u32::MAX]), k, *c.pick(&[0u32, 1, 3])));
    }
    let shown = format!("{:?}", v.iter().map(|t| (t.0, t.1, t.2, t.3.1, t.4)).collect::<Vec<_>>());
    let raw: Vec<_> = v.iter().map(|t| gen_sem::raw(t.0, t.1, t.2, t.3.0, t.4)).collect();
    let r = match guard(|| gen_sem::encode_tokens(&raw)) { Ok(r) => r, Err(e) => return (shown, Err(e)) };
    let ok = (|| {
        if r.len() != v.len() { bad!("{} tokens encoded as {}", v.len(), r.len()) }
        let (mut l, mut s) = (0u64, 0u64);
        for (x, t) in r.iter().zip(&v) {
            if x.delta_line > 0 { l += x.delta_line as u64; s = 0 }
            s += x.delta_start as u64;
            if (l, s, x.length, x.token_type, x.token_modifiers_bitset) != (t.0 as u64, t.1 as u64, t.2, t.3.1, t.4) { bad!("token {t:?} decodes to {l}:{s} {x:?}", t = (t.0, t.1, t.2, t.3.1, t.4)) }
        }
        Ok(v.len() > 1)
    })();
    (shown, ok)
}
fn dist(a: &[char], b: &[char], memo: &mut std::collections::HashMap<(usize, usize), usize>) -> usize {
    if a.is_empty() { return b.len() }
    if b.is_empty() { return a.len() }
    if let Some(&x) = memo.get(&(a.len(), b.len())) { return x }
    let (i, j) = (a.len() - 1, b.len() - 1);
    let r = if a[i] == b[j] { dist(&a[..i], &b[..j], memo) } else { 1 + dist(&a[..i], b, memo).min(dist(a, &b[..j], memo)).min(dist(&a[..i], &b[..j], memo)) };
    memo.insert((a.len(), b.len()), r);
    r
}
fn p18(c: &mut Ch) -> (String, R) {
    let cs = ["a", "b", "c", "é", "日", "😀"];
    let (n, m) = (c.below(9), c.below(9));
    let a: String = (0..n).map(|_| c.word(&cs)).collect::<String>().chars().take(36).collect();
    let b: String = (0..m).map(|_| c.word(&cs)).collect::<String>().chars().take(36).collect();
    let w = dist(&a.chars().collect::<Vec<_>>(), &b.chars().collect::<Vec<_>>(), &mut Default::default());
    let r = guard(|| (gen_lev::levenshtein(&a, &b), gen_lev2::levenshtein(&a, &b)));
    let v = match r {
        Err(e) => Err(e),
        Ok((x, _)) if x != w => Err(format!("validator: {x}, the edit distance is {w}")),
        Ok((_, x)) if x != w => Err(format!("language server: {x}, the edit distance is {w}")),
        _ => Ok(n > 0 && m > 0),
    };
    (format!("{a:?} {b:?}"), v)
}
fn none() -> Vec<String> { vec![] }
fn main() {
    let p = |id, rule, f| Prop { id, rule, text: None, exhaustive: (0, 0), extra: none, structured: Some(f), single: None };
    run(vec![p("P15", "more than one line", p15 as fn(&mut Ch) -> (String, R)), p("P16", "at least two tokens", p16), p("P18", "neither text empty", p18)], |_| {})
}
