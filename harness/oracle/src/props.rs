//! The properties as executable predicates over the real crates' public behaviour.

use searchkit::{Prop, R, doc, lex, source::*};
use styx_parse::{Event, EventKind, Lexeme, Lexer, ParseErrorKind, Parser, ScalarKind, Span, TokenKind, Tokenizer};

pub fn show(s: &str) {
    println!("== {s:?}");
    for e in Parser::new(s).parse_to_vec() { println!("{:?}", e) }
    println!("tree: {:?}", styx_tree::parse(s));
    println!("fmt: {:?}", styx_format::format_source(s, Default::default()));
}
fn none() -> Vec<String> { vec![] }
macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }
fn events(s: &str) -> Result<Vec<Event<'_>>, String> {
    let mut p = Parser::new(s);
    let mut v = vec![];
    let cap = 64 + 40 * s.len();
    while let Some(e) = p.next_event() { v.push(e); if v.len() > cap { bad!("more than {cap} events from {} bytes", s.len()) } }
    Ok(v)
}
fn tokens(s: &str) -> Result<Vec<styx_parse::Token<'_>>, String> {
    let mut t = Tokenizer::new(s);
    let mut v = vec![];
    loop {
        let k = t.next_token();
        let eof = k.kind == TokenKind::Eof;
        v.push(k);
        if eof { return Ok(v) }
        if v.len() > s.len() + 8 { bad!("{} tokens from {} bytes and no end", v.len(), s.len()) }
    }
}
// ---------------------------------------------------------------- P01
fn p01(s: &str) -> R {
    let v = tokens(s)?;
    let mut at = 0usize;
    for t in &v {
        let (a, b) = (t.span.start as usize, t.span.end as usize);
        if a != at || b < a || b > s.len() { bad!("token {:?} at {a}..{b}, previous end {at}, source length {}", t.kind, s.len()) }
        if s.get(a..b) != Some(t.text) { bad!("token {:?} text {:?} is not the source at {a}..{b}", t.kind, t.text) }
    if t.kind != TokenKind::Eof && a == b && a < s.len() { bad!("empty token {:?} at {a}", t.kind) }
        at = b;
    }
    if at != s.len() { bad!("tokens end at {at} of {}", s.len()) }
    if s.is_empty() { return Ok(false) }
    // a second pass over the same tokenizer keeps saying end of input
    let mut t = Tokenizer::new(s);
    for _ in 0..v.len() { t.next_token(); }
    let e = t.next_token();
    if e.kind != TokenKind::Eof || !e.text.is_empty() { bad!("after the end: {:?}", e) }
    let mut it = Tokenizer::new(s);
    for (k, t) in v[..v.len() - 1].iter().enumerate() {
        match it.next() { Some(u) if u.kind == t.kind && u.span == t.span && u.text == t.text => {}
            u => bad!("token {k} is {:?}, the iterator gives {:?}", t, u) }
    }
    if let Some(u) = it.next() { bad!("the iterator goes on after the end with {:?}", u) }
    Ok(v.len() > 2)
}
// ---------------------------------------------------------------- P02
fn kind(k: lex::K) -> TokenKind {
    use lex::K::*;
    match k { LBrace => TokenKind::LBrace, RBrace => TokenKind::RBrace, LParen => TokenKind::LParen, RParen => TokenKind::RParen, Comma => TokenKind::Comma, Gt => TokenKind::Gt,
        At => TokenKind::At, Tag => TokenKind::Tag, Bare => TokenKind::BareScalar, Quoted => TokenKind::QuotedScalar, Raw => TokenKind::RawScalar, HdStart => TokenKind::HeredocStart,
        HdContent => TokenKind::HeredocContent, HdEnd => TokenKind::HeredocEnd, LineComment => TokenKind::LineComment, DocComment => TokenKind::DocComment, Ws => TokenKind::Whitespace,
        Nl => TokenKind::Newline, Eof => TokenKind::Eof, Error => TokenKind::Error }
}
/// reference tokens: kind, byte start, byte end, closing indent
fn reference(s: &str) -> Vec<(lex::K, usize, usize, usize)> {
    let c: Vec<char> = s.chars().collect();
    let mut off = vec![0usize];
    for ch in &c { off.push(off.last().unwrap() + ch.len_utf8()) }
    let (mut i, mut hs, mut v) = (0, None, vec![]);
    loop {
        let (k, e, h, ind) = lex::tok(&c, i, &hs);
        v.push((k, off[i], off[e], ind));
        if k == lex::K::Eof { return v }
        i = e;
        hs = h;
    }
}
fn p02(s: &str) -> R {
    let v = tokens(s)?;
    let r = reference(s);
    for (i, (k, a, b, _)) in r.iter().enumerate() {
        let Some(t) = v.get(i) else { bad!("token {i} missing, expected {k:?} at {a}..{b}") };
        if t.kind != kind(*k) || t.span.start as usize != *a || t.span.end as usize != *b {
            bad!("token {i}: expected {k:?} at {a}..{b} ({:?}), got {:?} at {}..{}", &s[*a..*b], t.kind, t.span.start, t.span.end)
        }
    }
    if v.len() != r.len() { bad!("{} tokens, expected {}", v.len(), r.len()) }
    Ok(r.len() > 2)
}
// ---------------------------------------------------------------- P03 / P04
/// the scalars a lexer yields with a syntax of the given kinds, invalid ones as None
fn lexed(s: &str, want: impl Fn(ScalarKind) -> bool) -> Vec<(usize, Option<String>)> {
    let mut v = vec![];
    let mut l = Lexer::new(s);
    let mut n = 0;
    loop {
        match l.next_lexeme() {
            Lexeme::Eof => return v,
            Lexeme::Scalar { span, value, kind } if want(kind) => v.push((span.start as usize, Some(value.into_owned()))),
            Lexeme::Error { span, .. } => v.push((span.start as usize, None)),
            _ => {}
        }
        n += 1;
        if n > s.len() + 8 { return v }
    }
}
fn p03(s: &str) -> R {
    let mut want = vec![];
    for (k, a, b, _) in reference(s) {
        if k == lex::K::Quoted { want.push((a, lex::unescape(&s[a + 1..b - 1]).ok())) }
    }
    let got = lexed(s, |k| k == ScalarKind::Quoted);
    for w in &want { if !got.contains(w) { bad!("quoted scalar at byte {}: expected {:?}, got {:?}", w.0, w.1, got.iter().find(|g| g.0 == w.0)) } }
    for g in &got { if g.1.is_some() && !want.contains(g) { bad!("unexpected quoted scalar {g:?}") } }
    Ok(s.contains('\\') && !want.is_empty())
}
fn esc_inner(c: &mut Ch) -> String {
    let n = c.below(5);
    (0..n).map(|_| match c.below(4) {
        0 => (*c.pick(&["\\n", "\\r", "\\t", "\\\\", "\\\"", "\\u00e9", "\\u{1F600}", "\\u{a}", "\\u{000041}", "\\u{10FFFF}", "\\u0000", "\\uFFFF", "\\u{0000000041}"])).to_string(),
        1 => (*c.pick(&["a", "é", "日本", " ", "\n", "/", "{", "}", "u", "n", "\u{1F600}", "\r\n"])).to_string(),
        2 => (*c.pick(&["\\q", "\\u", "\\u{", "\\u{}", "\\u{zz}", "\\u{D800}", "\\u{110000}", "\\uD800", "\\u12", "\\u12é", "\\uéabc", "\\u{FFFFFFFFF}", "\\u{12", "\\u{ 41}", "\\u{+41}", "\\u+041", "\\é", "\\ ", "\\x41", "\\0", "\\'", "\\/", "\\b", "\\f", "\\U0041", "\\N"])).to_string(),
        _ => { let k = c.below(6); let mut s = String::from(*c.pick(&["\\u", "\\u{", "a"])); for _ in 0..k { s.push(*c.pick(&['0', '9', 'a', 'F', 'g', '}', '{', 'é', ' ', '+'])) } s }
    }).collect()
}
fn p03s(c: &mut Ch) -> (String, R) {
    let mut inner = esc_inner(c);
    // keep it one quoted token: an odd run of backslashes at the end would swallow the quote
    let tail = inner.chars().rev().take_while(|&x| x == '\\').count();
    if tail % 2 == 1 { inner.push('n') }
    let place = c.below(7);
    let q = format!("\"{inner}\"");
    let src = match place { 0 => format!("k {q}"), 1 => format!("{q} v"), 2 => format!("k @t{q}"), 3 => format!("k x>{q}"), 4 => format!("k ({q})"), 5 => format!("k {{{q} v}}"), _ => format!("@t{q} v") };
    let want = lex::unescape(&inner).ok();
    (src.clone(), (|| {
        let ev = events(&src)?;
        let errs: Vec<_> = ev.iter().filter_map(|e| match &e.kind { EventKind::Error { kind } => Some((kind, e.span)), _ => None }).collect();
        for (k, sp) in &errs {
            if sp.start > sp.end || src.get(sp.start as usize..sp.end as usize).is_none() { bad!("error {k:?} at {sp:?} is not a range of the source") }
        }
        match want {
            None => if errs.is_empty() { bad!("invalid escape in {q} is not reported") },
            Some(w) => {
                if !errs.is_empty() { bad!("valid {q} is reported: {errs:?}") }
                let ok = ev.iter().any(|e| match &e.kind {
                    EventKind::Scalar { value, kind: ScalarKind::Quoted } => *value == w,
                    EventKind::Key { payload: Some(p), kind: ScalarKind::Quoted, .. } => *p == w,
                    _ => false });
                if !ok { bad!("{q} should read as {w:?}: {ev:?}") }
            }
        }
        Ok(inner.contains('\\'))
    })())
}
fn p04(s: &str) -> R {
    let mut want: Vec<(usize, Option<String>)> = vec![];
    let r = reference(s);
    let mut i = 0;
    while i < r.len() {
        let (k, a, b, _) = r[i];
        match k {
            lex::K::Raw => { let h = s[a + 1..].chars().take_while(|&c| c == '#').count(); want.push((a, Some(s[a + 2 + h..b - 1 - h].into()))) }
            lex::K::HdStart => {
                let (mut content, mut ind) = (String::new(), 0);
                i += 1;
                loop {
                    let (k, a2, b2, n) = r[i];
                    match k {
                        lex::K::HdContent => { content += &s[a2..b2]; ind = n }
                        lex::K::HdEnd => { want.push((a, Some(lex::dedent(&content, ind)))); break }
                        lex::K::Eof => { want.push((a, None)); break }
                        _ => { want.push((a2, None)); break }
                    }
                    i += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    let got = lexed(s, |k| matches!(k, ScalarKind::Raw | ScalarKind::Heredoc));
    for w in &want { if !got.contains(w) { bad!("raw or heredoc scalar at byte {}: expected {:?}, got {:?}", w.0, w.1, got.iter().find(|g| g.0 == w.0)) } }
    for g in &got { if g.1.is_some() && !want.contains(g) { bad!("unexpected raw or heredoc scalar {g:?}") } }
    Ok(want.iter().any(|w| w.1.is_some()))
}
fn p04s(c: &mut Ch) -> (String, R) {
    let n = c.below(6);
    let body: String = (0..n).map(|_| c.word(&["a", "\n", "\n", " ", "\t", "\"", "#", "\"#", "E", "\\", "\r\n", "é", "  x\n", "EOF", " E\n", "日", "\u{2003}"])).collect();
    let hd = c.one_in(2);
    let (src, want) = if hd {
        // content lines may not be the delimiter line
        let ind = c.below(4);
        let pad: String = (0..ind).map(|_| *c.pick(&[' ', '\t'])).collect();
        let mut text = body.clone();
        if !text.is_empty() && !text.ends_with('\n') { text.push('\n') }
        let d = *c.pick(&["EOF", "E", "A_9"]);
        if text.split('\n').any(|l| l.trim_start_matches([' ', '\t']).trim_end_matches('\r') == d) { return ("(skip)".into(), Ok(false)) }
        let lang = *c.pick(&["", ",x", ",a-b.c_1"]);
        let tail = *c.pick(&["", "\n", "\r\n", "\nk2 v"]);
        // an empty body leaves the end delimiter on the first line, where its indent does not matter
        let w = if text.is_empty() { String::new() } else { lex::dedent(&text, ind) };
        (format!("k <<{d}{lang}\n{text}{pad}{d}{tail}"), w)
    } else {
        let Some(r) = doc::raw(&body) else { return ("(skip)".into(), Ok(false)) };
        (format!("k {r}"), body.clone())
    };
    (src.clone(), (|| {
        let ev = events(&src)?;
        if let Some(e) = ev.iter().find(|e| matches!(e.kind, EventKind::Error { .. })) { bad!("valid text is reported: {e:?}") }
        let ok = ev.iter().any(|e| matches!(&e.kind, EventKind::Scalar { value, kind: ScalarKind::Raw | ScalarKind::Heredoc } if *value == want));
        if !ok { bad!("should read as {want:?}: {ev:?}") }
        Ok(!body.is_empty())
    })())
}
// ---------------------------------------------------------------- P05
fn read(s: &str, want: &[(bool, &str)]) -> Result<(), String> {
    let ev = events(s)?;
    if let Some(e) = ev.iter().find(|e| matches!(e.kind, EventKind::Error { .. })) { bad!("{s:?} has the error {e:?}") }
    let got: Vec<(bool, String)> = ev.iter().filter_map(|e| match &e.kind {
        EventKind::Key { tag, payload, .. } => Some((true, format!("{}{}", tag.map(|t| format!("@{t}")).unwrap_or_default(), payload.as_deref().unwrap_or_default()))),
        EventKind::Scalar { value, .. } => Some((false, value.to_string())),
        _ => None }).collect();
    if got.len() != want.len() || got.iter().zip(want).any(|(g, w)| g.0 != w.0 || g.1 != w.1) { bad!("written as {s:?}, read as {got:?}, expected {want:?}") }
    Ok(())
}
fn p05(s: &str) -> R {
    use styx_format::{FormatOptions, StyxWriter};
    let k = |t| (true, t);
    let v = |t| (false, t);
    if styx_format::can_be_bare(s) {
        let src = format!("k {s}\n");
        let one = lexed(&src, |_| true);
        if one != [(0, Some("k".to_string())), (2, Some(s.to_string()))] { bad!("{s:?} may be bare, but is read as {one:?}") }
    }
    let e = styx_format::escape_quoted(s);
    let u = styx_format::unescape_quoted(&e);
    if u != s { bad!("{s:?} quoted is {e:?}, unquoted again {u:?}") }
    read(&format!("k \"{e}\""), &[k("k"), v(s)])?;
    let base = FormatOptions::default();
    let opts = [base.clone(), base.clone().inline(), base.clone().multiline(), FormatOptions { heredoc_line_threshold: 0, ..base.clone() }, FormatOptions { heredoc_line_threshold: 1, min_inline_width: 80, ..base.clone().indent("\t") }, FormatOptions { heredoc_line_threshold: 1, ..base.clone().inline() }];
    for o in opts {
        let root = |f: &dyn Fn(&mut StyxWriter)| { let mut w = StyxWriter::with_options(o.clone()); w.begin_struct(true); f(&mut w); w.end_struct().unwrap(); String::from_utf8(w.finish_document()).map_err(|e| format!("{e}")) };
        read(&root(&|w| { w.field_key("k").unwrap(); w.write_string(s); w.field_key("z").unwrap(); w.write_scalar(s); w.field_key("n").unwrap(); w.write_null(); })?, &[k("k"), v(s), k("z"), v(s), k("n")])?;
        read(&root(&|w| { w.field_key(s).unwrap(); w.write_string("e"); w.field_key("zz").unwrap(); w.write_string(s); })?, &if s == "zz" { return Ok(false) } else { [k(s), v("e"), k("zz"), v(s)] })?;
        read(&root(&|w| { w.field_key("k").unwrap(); w.begin_seq(); w.write_string(s); w.write_string(s); w.end_seq().unwrap(); })?, &[k("k"), v(s), v(s)])?;
        for force in [false, true] {
            read(&root(&|w| { w.field_key("k").unwrap(); w.begin_struct_with_options(false, force); w.field_key("a").unwrap(); w.write_string(s); w.field_key("b").unwrap(); w.begin_seq(); w.write_string(s); w.end_seq().unwrap(); w.end_struct().unwrap(); })?, &[k("k"), k("a"), v(s), k("b"), v(s)])?;
            read(&root(&|w| { w.field_key("k").unwrap(); w.begin_struct_with_options(false, force); w.field_key(s).unwrap(); w.begin_struct_with_options(false, force); w.field_key("b").unwrap(); w.write_string(s); w.end_struct().unwrap(); w.end_struct().unwrap(); })?, &[k("k"), k(s), k("b"), v(s)])?;
        }
        read(&root(&|w| { w.field_key("k").unwrap(); w.write_tag("t"); w.write_string(s); w.field_key("l").unwrap(); w.begin_seq(); w.write_tag("t"); w.write_string(s); w.write_string(s); w.end_seq().unwrap(); })?, &[k("k"), v(s), k("l"), v(s), v(s)])?;
        read(&root(&|w| { w.write_doc_comment_and_key("doc\nmore", s); w.write_string(s); })?, &[k(s), v(s)])?;
        if s.chars().count() == 1 { read(&root(&|w| { w.field_key("k").unwrap(); w.write_char(s.chars().next().unwrap()); })?, &[k("k"), v(s)])?; }
    }
    Ok(s.len() > 2)
}
fn p05s(c: &mut Ch) -> (String, R) {
    let n = 1 + c.below(7);
    let s: String = (0..n).map(|_| match c.below(3) {
        0 => (c.word(&["\"", "\"#", "\"##", "#", "r", "r#", "r\"", "\\", "\\\\", "/", "//", "<", "<<", "<<EOF", "TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT", "=", "@", ">", ",", "{", "}", "(", ")", ".", ":"])).to_string(),
        1 => (*c.pick(&["\n", "\n\n", "\r\n", "\r", "\t", " ", "  ", "\u{0}", "\u{1}", "\u{7f}", "\u{1f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{200b}", "\u{feff}", "\nTEXT\n", "\n  END\n"])).to_string(),
        _ => (c.word(&["a", "bc", "1", "é", "日本", "\u{1F600}", "true", "null", "n", "u0041", "{41}", "_", "-"])).to_string(),
    }).collect();
    let s = if c.one_in(3) { s + "\n" } else { s };
    let r = p05(&s);
    (format!("{s:?}"), r)
}
// ---------------------------------------------------------------- P06
#[derive(Debug, Clone, Copy, PartialEq)]
enum F { Doc, Obj, Seq, Entry(u8), Tag(u8) }
/// value slot: entry needs key then one value; tag takes at most one payload
fn value_slot(st: &mut [F], errored: bool) -> Result<(), String> {
    match st.last_mut() {
        Some(F::Seq) => Ok(()),
        Some(F::Entry(n)) if *n == 1 => { *n = 2; Ok(()) }
        Some(F::Tag(n)) if *n == 0 => { *n = 1; Ok(()) }
        // a key that is not allowed as a key is reported instead of being emitted
        Some(F::Entry(n)) if *n == 0 && errored => { *n = 2; Ok(()) }
        o => Err(format!("value where {o:?} takes none")),
    }
}
pub fn balanced(ev: &[Event]) -> Result<usize, String> {
    let mut st: Vec<F> = vec![];
    let mut done = false;
    let mut max = 0;
    let mut errored = false;
    for (i, e) in ev.iter().enumerate() {
        let ctx = |m: String| format!("event {i} {:?}: {m}", e.kind);
        if i == 0 && e.kind != EventKind::DocumentStart { return Err(ctx("stream does not start with document start".into())) }
        if done && !matches!(e.kind, EventKind::Error { .. }) { return Err(ctx("after document end".into())) }
        match &e.kind {
            EventKind::DocumentStart => { if i != 0 { return Err(ctx("second document start".into())) } st.push(F::Doc) }
            EventKind::DocumentEnd => { if st.pop() != Some(F::Doc) || !st.is_empty() { return Err(ctx("document end inside a structure".into())) } done = true }
            EventKind::ObjectStart => { if st.last() != Some(&F::Doc) { value_slot(&mut st, errored).map_err(ctx)? } st.push(F::Obj) }
            EventKind::SequenceStart => { value_slot(&mut st, errored).map_err(ctx)?; st.push(F::Seq) }
            EventKind::TagStart { .. } => { value_slot(&mut st, errored).map_err(ctx)?; st.push(F::Tag(0)) }
            EventKind::ObjectEnd => if st.pop() != Some(F::Obj) { return Err(ctx("does not close an object".into())) },
            EventKind::SequenceEnd => if st.pop() != Some(F::Seq) { return Err(ctx("does not close a sequence".into())) },
            EventKind::TagEnd => if !matches!(st.pop(), Some(F::Tag(_))) { return Err(ctx("does not close a tag".into())) },
            EventKind::EntryStart => { if st.last() != Some(&F::Obj) { return Err(ctx(format!("entry in {:?}", st.last()))) } st.push(F::Entry(0)); errored = false }
            EventKind::EntryEnd => match st.pop() {
                Some(F::Entry(2)) => {}
                Some(F::Entry(_)) if errored || ev[..i].iter().rev().take(3).any(|e| matches!(e.kind, EventKind::Error { .. })) => {}
                o => return Err(ctx(format!("closes {o:?}"))),
            },
            EventKind::Key { .. } => match st.last_mut() { Some(F::Entry(n)) if *n == 0 => *n = 1, o => return Err(ctx(format!("key in {o:?}"))) },
            EventKind::Scalar { .. } | EventKind::Unit => value_slot(&mut st, errored).map_err(ctx)?,
            EventKind::Comment { .. } => if st.is_empty() { return Err(ctx("outside the document".into())) },
            EventKind::DocComment { .. } => if !matches!(st.last(), Some(F::Obj | F::Doc)) { return Err(ctx(format!("doc comment in {:?}", st.last()))) },
            EventKind::Error { .. } => errored = true,
        }
        max = max.max(st.len());
    }
    if !done { return Err("no document end".into()) }
    Ok(max)
}
fn p06(s: &str) -> R { let ev = events(s)?; Ok(balanced(&ev)? > 2) }
// ---------------------------------------------------------------- P07
fn p07(s: &str) -> R {
    let ev = events(s)?;
    let dotted = |sp: Span| s.get(sp.start as usize..sp.end as usize);
    for e in &ev {
        let sp = e.span;
        let Some(t) = dotted(sp) else { bad!("{:?} has span {}..{}, not a range of the {} byte source", e.kind, sp.start, sp.end, s.len()) };
        match &e.kind {
            EventKind::Scalar { value, kind } | EventKind::Key { tag: None, payload: Some(value), kind } => {
                let ok = match kind {
                    ScalarKind::Bare => t == value.as_ref(),
                    ScalarKind::Quoted => t.len() >= 2 && t.starts_with('"') && t.ends_with('"'),
                    ScalarKind::Raw => t.starts_with('r') && t.contains(value.as_ref()),
                    ScalarKind::Heredoc => t.starts_with("<<"),
                };
                if !ok { bad!("{:?} has span {}..{} = {t:?}", e.kind, sp.start, sp.end) }
            }
            EventKind::Comment { text } => if t != *text { bad!("comment {text:?} has span {t:?}") },
            EventKind::DocComment { lines } => if lines.len() == 1 && !t.contains(lines[0]) { bad!("doc comment {lines:?} has span {t:?}") },
            EventKind::TagStart { name } => if !t.strip_prefix('@').is_some_and(|r| r.starts_with(name)) { bad!("tag {name:?} has span {t:?}") },
            EventKind::Error { kind: ParseErrorKind::DuplicateKey { original } } => if dotted(*original).is_none() || original.start > sp.start { bad!("duplicate key at {sp:?} says first at {original:?}") },
            _ => {}
        }
    }
    Ok(ev.len() > 4)
}
// ---------------------------------------------------------------- P08
/// every path given twice in one object has an error at its second place
fn p08(s: &str) -> R {
    let ev = events(s)?;
    let about = |e: &Event| matches!(&e.kind, EventKind::Error { kind: ParseErrorKind::DuplicateKey { .. } | ParseErrorKind::ReopenedPath { .. } | ParseErrorKind::NestIntoTerminal { .. } });
    if ev.iter().any(|e| matches!(e.kind, EventKind::Error { .. }) && !about(e)) { return Ok(false) }
    struct Frame { what: &'static str, seen: Vec<(Vec<String>, u32)> }
    let mut st: Vec<Option<Frame>> = vec![]; // None: an object that is part of a dotted path
    let mut path: Vec<(usize, String, u32)> = vec![]; // frame depth, key, start
    let mut n = 0;
    let mut dotted = false;
    for e in &ev {
        match &e.kind {
            EventKind::ObjectStart => {
                let at = s.as_bytes().get(e.span.start as usize).copied();
                let root = st.is_empty();
                if dotted { st.push(None) } else {
                    path.clear();
                    st.push(Some(Frame { what: if root && at == Some(b'{') && e.span.start < e.span.end { "braced root" } else if root { "root" } else if at == Some(b'{') { "object" } else { "attributes" }, seen: vec![] }))
                }
                dotted = false;
            }
            EventKind::ObjectEnd => { st.pop(); path.clear(); }
            EventKind::EntryStart => if !dotted && !matches!(st.last(), Some(None)) { path.clear() },
            EventKind::Key { tag, payload, .. } => {
                n += 1;
                path.push((st.len(), format!("{tag:?} {payload:?}"), e.span.start));
                dotted = tag.is_none() && s.as_bytes().get(e.span.end as usize) == Some(&b'.');
                if !dotted {
                    let p: Vec<String> = path.iter().map(|x| x.1.clone()).collect();
                    let start = path[0].2;
                    path.clear();
                    let Some(f) = st.iter_mut().rev().find_map(|f| f.as_mut()) else { continue };
                    if f.seen.iter().any(|(q, _)| *q == p) && !ev.iter().any(|e| about(e) && e.span.start == start) {
                        let c = if f.what == "attributes" { "[attributes] " } else if f.what == "braced root" && p.len() > 1 { "[braced-path] " } else { "" };
                        bad!("{c}{p:?} at {start} was given before in this {} and is not reported", f.what)
                    }
                    f.seen.push((p, start));
                }
            }
            _ => {}
        }
    }
    Ok(n > 1)
}
fn p08s(c: &mut Ch) -> (String, R) {
    // a document of scalar/object entries under dotted or simple keys at the root, or simple keys in a nested object
    const K: &[&str] = &["a", "b", "c", "\"a\"", "r\"b\"", "@", "@a", "@a\"a\"", "@b\"a\"", "\"@\"", "\"@a\"", "\"a.b\"", "\"\\u0061\""];
    let nested = c.one_in(3);
    let n = 1 + c.below(6);
    let mut src = String::new();
    // paths are sequences of key identities
    let mut seen: Vec<(Vec<String>, bool)> = vec![]; // path, is object value
    let mut expect: Option<String> = None;
    if nested { src.push_str(if c.one_in(2) { "o {\n" } else { "o @t{\n" }) }
    for _ in 0..n {
        let (text, path): (String, Vec<String>) = if !nested && c.one_in(2) {
            let d = 2 + c.below(3);
            let p: Vec<String> = (0..d).map(|_| c.pick(&["a", "b", "c"]).to_string()).collect();
            (p.join("."), p.iter().map(|s| format!("s:{s}")).collect())
        } else {
            let k = *c.pick(K);
            let id = match k { "\"a\"" | "\"\\u0061\"" | "a" => "s:a".into(), "r\"b\"" | "b" => "s:b".into(), "@a\"a\"" => "t:a:a".into(), "@b\"a\"" => "t:b:a".into(), "\"@\"" => "s:@".into(), "\"@a\"" => "s:@a".into(), "\"a.b\"" => "s:a.b".into(), "@" => "u".into(), "@a" => "t:a".into(), k => format!("s:{k}") };
            (k.to_string(), vec![id])
        };
        let isobj = c.one_in(4);
        src.push_str(&text);
        src.push_str(if isobj { " {z 1}\n" } else { " 1\n" });
        if expect.is_none() {
            // duplicate: an earlier entry has exactly this path, or a proper prefix relation that is no sibling continuation
            let last = seen.last().cloned();
            let common = |p: &[String], q: &[String]| p.iter().zip(q).take_while(|(a, b)| a == b).count();
            for (q, _) in &seen { if *q == path { expect = Some(format!("duplicate path {path:?}")) } }
            if expect.is_none() {
                for (q, _qobj) in &seen {
                    let k = common(q, &path);
                    if k == 0 { continue }
                    if k == path.len() { expect = Some(format!("{path:?} is already an object")); break }
                    if k == q.len() {
                        // nesting into an explicit value: an error for terminals; for explicit objects left open by the specification
                        expect = Some(if _qobj == &true { "?".into() } else { format!("nests into the value of {q:?}") });
                        break;
                    }
                    let l = common(&last.as_ref().unwrap().0, &path);
                    if k > l { expect = Some(format!("reopens {:?}", &path[..k])); break }
                }
            }
            if expect.is_none() { seen.push((path, isobj)) }
        }
    }
    if nested { src.push_str("}\n") }
    (src.clone(), (|| {
        let ev = events(&src)?;
        let errs: Vec<_> = ev.iter().filter_map(|e| match &e.kind { EventKind::Error { kind } => Some(kind), _ => None }).collect();
        match expect.as_deref() {
            Some("?") => return Ok(false),
            Some(w) => if !errs.iter().any(|k| matches!(k, ParseErrorKind::DuplicateKey { .. } | ParseErrorKind::ReopenedPath { .. } | ParseErrorKind::NestIntoTerminal { .. })) { bad!("{w} is not reported: {errs:?}") },
            None => if !errs.is_empty() { bad!("no path is given twice, but {errs:?}") },
        }
        Ok(n > 1)
    })())
}
// ---------------------------------------------------------------- P09
fn p09(s: &str) -> R {
    let p = styx_cst::parse(s);
    let t = p.syntax();
    if t.text().to_string() != s { bad!("tree text {:?} is not the source", t.text().to_string()) }
    let mut out = String::new();
    for n in t.descendants_with_tokens() { if let Some(k) = n.as_token() { out.push_str(k.text()) } }
    if out != s { bad!("leaf texts {out:?} are not the source") }
    for n in t.descendants_with_tokens() { let k = n.kind(); if styx_cst::SyntaxKind::from_raw(k as u16) != Some(k) { bad!("{k:?} does not convert back from {}", k as u16) } }
    for e in p.errors() { if e.offset as usize > s.len() { bad!("error offset {} of {}", e.offset, s.len()) } }
    let toks: Vec<_> = t.descendants_with_tokens().filter_map(|n| n.into_token()).collect();
    Ok(toks.len() > 2)
}
fn p09x() -> (String, R, u64) {
    use styx_cst::SyntaxKind;
    let r = (|| {
        let mut n = 0;
        for raw in 0..=u16::MAX {
            if let Some(k) = SyntaxKind::from_raw(raw) {
                n += 1;
                if k as u16 != raw { bad!("number {raw} converts to {k:?}, whose number is {}", k as u16) }
            }
        }
        if n != SyntaxKind::ATTRIBUTE as u16 { bad!("{n} of the {} kinds convert back from their numbers", SyntaxKind::ATTRIBUTE as u16) }
        Ok(true)
    })();
    ("all kind numbers".into(), r, 65536)
}
// ---------------------------------------------------------------- tree helpers
use styx_tree::{Payload, Value};
fn tval(v: &Value) -> doc::M {
    let inner = match &v.payload {
        None => None,
        Some(Payload::Scalar(s)) => Some(doc::M::S(s.text.clone())),
        Some(Payload::Sequence(s)) => Some(doc::M::Seq(s.items.iter().map(tval).collect())),
        Some(Payload::Object(o)) => Some(doc::M::Obj(o.entries.iter().map(|e| doc::E {
            key: match (&e.key.tag, &e.key.payload) {
                (None, None) => doc::Key::Unit,
                (None, Some(Payload::Scalar(s))) => doc::Key::S(s.text.clone()),
                (Some(t), None) => doc::Key::T(t.name.clone(), None),
                (Some(t), Some(Payload::Scalar(s))) => doc::Key::T(t.name.clone(), Some(s.text.clone())),
                _ => doc::Key::S(format!("?{:?}", e.key)),
            },
            val: tval(&e.value),
            doc: e.doc_comment.clone(),
        }).collect())),
    };
    match (&v.tag, inner) { (Some(t), p) => doc::M::T(t.name.clone(), p.map(Box::new)), (None, Some(p)) => p, (None, None) => doc::M::Unit }
}
/// the tree the events of an error-free document denote (a second builder, by recursive descent)
fn denoted(ev: &[Event]) -> Result<doc::M, String> {
    fn value(ev: &[Event], i: &mut usize) -> Result<Option<doc::M>, String> {
        let Some(e) = ev.get(*i) else { bad!("events end early") };
        Ok(Some(match &e.kind {
            EventKind::Scalar { value, .. } => { *i += 1; doc::M::S(value.to_string()) }
            EventKind::Unit => { *i += 1; doc::M::Unit }
            EventKind::TagStart { name } => {
                *i += 1;
                let p = value(ev, i)?;
                if !matches!(ev[*i].kind, EventKind::TagEnd) { bad!("tag not closed at event {i}") }
                *i += 1;
                if matches!(p, Some(doc::M::T(..))) { bad!("[chained-tags] a tag right inside a tag: @{name}") }
                doc::M::T(name.to_string(), match p { Some(doc::M::Unit) => None, p => p.map(Box::new) })
            }
            EventKind::SequenceStart => {
                *i += 1;
                let mut v = vec![];
                loop {
                    match &ev[*i].kind {
                        EventKind::SequenceEnd => { *i += 1; break }
                        EventKind::Comment { .. } => *i += 1,
                        _ => v.push(value(ev, i)?.ok_or("no value in a sequence")?),
                    }
                }
                doc::M::Seq(v)
            }
            EventKind::ObjectStart => {
                *i += 1;
                let mut v = vec![];
                let mut d: Option<String> = None;
                loop {
                    match &ev[*i].kind {
                        EventKind::ObjectEnd => { *i += 1; break }
                        EventKind::Comment { .. } => *i += 1,
                        EventKind::DocComment { lines } => { let l = lines.join("\n"); d = Some(match d { Some(o) => format!("{o}\n{l}"), None => l }); *i += 1 }
                        EventKind::EntryStart => {
                            *i += 1;
                            let EventKind::Key { tag, payload, .. } = &ev[*i].kind else { bad!("entry without key: {:?}", ev[*i].kind) };
                            let key = match (tag, payload) { (None, None) => doc::Key::Unit, (None, Some(p)) => doc::Key::S(p.to_string()), (Some(t), p) => doc::Key::T(t.to_string(), p.as_ref().map(|p| p.to_string())) };
                            *i += 1;
                            let val = value(ev, i)?.ok_or("entry without value")?;
                            if !matches!(ev[*i].kind, EventKind::EntryEnd) { bad!("entry with more than one value: {:?}", ev[*i].kind) }
                            *i += 1;
                            v.push(doc::E { key, val, doc: d.take() });
                        }
                        k => bad!("{k:?} in an object"),
                    }
                }
                doc::M::Obj(v)
            }
            _ => return Ok(None),
        }))
    }
    let mut i = 0;
    while matches!(ev.get(i).map(|e| &e.kind), Some(EventKind::DocumentStart | EventKind::Comment { .. })) { i += 1 }
    if matches!(ev.get(i).map(|e| &e.kind), Some(EventKind::DocumentEnd)) { return Ok(doc::M::Obj(vec![])) }
    value(ev, &mut i)?.ok_or("no root value".to_string())
}
/// of tags right inside each other only the outermost (the recorded finding)
fn outermost(m: &doc::M) -> doc::M {
    use doc::M;
    match m {
        M::T(n, Some(p)) => { let mut p = p; while let M::T(_, Some(q)) = &**p { p = q } M::T(n.clone(), if let M::T(_, None) = **p { None } else { Some(Box::new(outermost(p))) }) }
        M::Seq(v) => M::Seq(v.iter().map(outermost).collect()),
        M::Obj(v) => M::Obj(v.iter().map(|e| doc::E { val: outermost(&e.val), ..e.clone() }).collect()),
        m => m.clone(),
    }
}
fn p10(s: &str) -> R {
    let ev = events(s)?;
    let err = ev.iter().find(|e| matches!(e.kind, EventKind::Error { .. }));
    match (styx_tree::parse(s), err) {
        (Err(_), Some(e)) => {
            let w = crate::meaning::meaning(s, &reference(s));
            if !w.wrong && !w.dotted && !w.attr_twice { bad!("the text is well-formed, {e:?} is reported") }
            Ok(false)
        }
        (Err(e), None) => bad!("well-formed document rejected: {e}"),
        (Ok(v), Some(e)) => bad!("the text has the error {e:?}, the tree is {:?}", tval(&v)),
        (Ok(v), None) => {
            let g = tval(&v);
            let w = crate::meaning::meaning(s, &reference(s));
            if w.wrong { bad!("the text is not well-formed, the tree is {g:?}") }
            if g != if w.chained { outermost(&w.root) } else { w.root.clone() } { bad!("the text means\n  {:?}\nthe tree is\n  {g:?}", w.root) }
            let m = denoted(&ev)?;
            if g != m { bad!("document denotes\n  {m:?}\ntree is\n  {g:?}") }
            Ok(matches!(&m, doc::M::Obj(v) if v.len() > 1))
        }
    }
}
fn p10s(c: &mut Ch) -> (String, R) {
    let m = doc::obj(c, 3, 5);
    let src = doc::document(&m, c);
    (src.clone(), (|| {
        match styx_tree::parse(&src) {
            Err(e) => bad!("valid document rejected: {e}"),
            Ok(v) => { let g = tval(&v); if g != m { bad!("document denotes\n  {m:?}\ntree is\n  {g:?}") } }
        }
        Ok(matches!(&m, doc::M::Obj(v) if v.len() > 1))
    })())
}
// ---------------------------------------------------------------- P14
fn blob(magic: &[u8], dl: u32, hash: &[u8], comp: &[u8], cl: u32) -> Vec<u8> {
    let mut v = magic.to_vec();
    v.extend(dl.to_le_bytes());
    v.extend(cl.to_le_bytes());
    v.extend(hash);
    v.extend(comp);
    v
}
const M2: &[u8; 16] = b"STYX_SCHEMA_V2\0\0";
const M1: &[u8; 16] = b"STYX_SCHEMAS_V1\0";
fn schema_text(c: &mut Ch) -> String {
    let n = c.below(4);
    let mut s = String::new();
    for _ in 0..n { s.push_str(c.word(&["meta { id a }\n", "schema {\n", "}", "é", "STYX_SCHEMA_V2\0\0", "日本", "@string\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\0", "STYX"])) }
    s
}
fn intact(t: &str) -> Vec<u8> {
    let comp = lz4_flex::compress_prepend_size(t.as_bytes());
    blob(M2, t.len() as u32, blake3::hash(t.as_bytes()).as_bytes(), &comp, comp.len() as u32)
}
/// data with embedded texts: what extraction must return (second: from legacy blobs)
fn p14data(c: &mut Ch) -> (Vec<u8>, Vec<String>) {
    let (mut d, mut want, mut legacy) = (vec![], vec![], vec![]);
    for _ in 0..c.below(6) {
        let t = schema_text(c);
        let comp = lz4_flex::compress_prepend_size(t.as_bytes());
        let hash = *blake3::hash(t.as_bytes()).as_bytes();
        let (n, m) = (t.len() as u32, comp.len() as u32);
        // a text that holds a magic shows up in the payload; what follows it there is not intact
        match c.below(16) {
            0..=4 => { d.extend(intact(&t)); want.push(t) }
            5 => { d.extend(styx_embed::build_embedded_blob(&t)); want.push(t) }
            6 => d.extend(&M2[..c.below(17)]),
            7 => { let k = c.below(9); d.extend((0..k).map(|i| [0u8, 0xff, b'S', 0x7f][(i + k) % 4])) }
            8 => { let b = intact(&t); let k = c.below(b.len()); d.extend(&b[..k]); d.extend(b"....") }
            9 => { let mut h = hash; h[c.below(32)] ^= 1 << c.below(8); d.extend(blob(M2, n, &h, &comp, m)) }
            10 => d.extend(blob(M2, n.wrapping_add(1 + c.below(3) as u32), &hash, &comp, m)),
            11 => d.extend(blob(M2, n, &hash, &comp, *c.pick(&[u32::MAX, u32::MAX - 40, 1 << 31, 0, 3, m + 1]))),
            12 => { let x = [t.as_bytes(), &[0xff, 0xfe]].concat(); let comp = lz4_flex::compress_prepend_size(&x); d.extend(blob(M2, x.len() as u32, blake3::hash(&x).as_bytes(), &comp, comp.len() as u32)) }
            13 => { let k = c.below(3); let mut b = M1.to_vec(); b.extend((k as u16).to_le_bytes()); let mut l = vec![]; for _ in 0..k { let t = schema_text(c); b.extend(&intact(&t)[16..]); l.push(t) } d.extend(b); legacy.extend(l) }
            14 => { let mut b = M1.to_vec(); b.extend([2, 0]); b.extend(&intact(&t)[16..]); d.extend(b); if c.one_in(2) { d.push(0) } else { d.extend([0u8; 40]) } }
            _ => { d.extend(M1); d.extend([0xff; 2][..c.below(3)].iter()) }
        }
    }
    want.extend(legacy);
    (d, want)
}
fn extracted(r: Result<Vec<String>, styx_embed::ExtractError>) -> Vec<String> { r.unwrap_or_default() }
/// reference: every magic with an intact blob behind it, current format first
fn p14ref(d: &[u8]) -> Vec<String> {
    let u32at = |i: usize| d.get(i..i + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize);
    let entry = |i: usize| -> Option<(String, usize)> {
        let (n, m) = (u32at(i)?, u32at(i + 4)?);
        let h = d.get(i + 8..i + 40)?;
        let x = lz4_flex::decompress_size_prepended(d.get(i + 40..(i + 40).checked_add(m)?)?).ok()?;
        if x.len() != n || blake3::hash(&x).as_bytes() != h { return None }
        Some((String::from_utf8(x).ok()?, i + 40 + m))
    };
    let mut v = vec![];
    for i in 0..d.len() { if d[i..].starts_with(M2) { if let Some((t, _)) = entry(i + 16) { v.push(t) } } }
    for i in 0..d.len() {
        if d[i..].starts_with(M1) && i + 18 <= d.len() {
            let n = u16::from_le_bytes([d[i + 16], d[i + 17]]);
            let (mut at, mut l, mut ok) = (i + 18, vec![], true);
            for _ in 0..n { match entry(at) { Some((t, e)) => { l.push(t); at = e } None => { ok = false; break } } }
            if ok { v.extend(l) }
        }
    }
    v
}
fn elf(section: &[u8], off: u64, size: u64, name: &str, pad: usize) -> Vec<u8> {
    let strtab = format!("\0{name}\0.shstrtab\0");
    let mut d = vec![0u8; 64];
    d[..8].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0]);
    d[16] = 2; d[18] = 0x3e; d[20] = 1;
    let data_at = d.len() + pad;
    d.resize(data_at, 0);
    d.extend(section);
    let str_at = d.len();
    d.extend(strtab.as_bytes());
    while d.len() % 8 != 0 { d.push(0) }
    let sh = d.len();
    let hdr = |name: u32, ty: u32, off: u64, size: u64| { let mut h = vec![]; h.extend(name.to_le_bytes()); h.extend(ty.to_le_bytes()); h.extend(0u64.to_le_bytes()); h.extend(0u64.to_le_bytes()); h.extend(off.to_le_bytes()); h.extend(size.to_le_bytes()); h.extend([0u8; 24]); h };
    d.extend(hdr(0, 0, 0, 0));
    d.extend(hdr(1, 1, if off == 0 { data_at as u64 } else { off }, size));
    d.extend(hdr(2 + name.len() as u32, 3, str_at as u64, strtab.len() as u64));
    d[40..48].copy_from_slice(&(sh as u64).to_le_bytes());
    d[52] = 64; d[58] = 64; d[60] = 3; d[62] = 2;
    d
}
fn pe(section: &[u8], off: u32, size: u32, name: &str, pad: usize) -> Vec<u8> {
    let mut d = vec![0u8; 0x40];
    d[0] = b'M'; d[1] = b'Z'; d[0x3c] = 0x40;
    d.extend(b"PE\0\0");
    d.extend([0x64, 0x86, 1, 0]);
    d.extend([0u8; 12]);
    d.extend([0, 0, 0, 0]);
    let mut n = [0u8; 8];
    n[..name.len()].copy_from_slice(name.as_bytes());
    let at = d.len() + 40 + pad;
    d.extend(n);
    d.extend((section.len() as u32).to_le_bytes());
    d.extend(0x1000u32.to_le_bytes());
    d.extend(size.to_le_bytes());
    d.extend((if off == 0 { at as u32 } else { off }).to_le_bytes());
    d.extend([0u8; 16]);
    d.resize(at, 0);
    d.extend(section);
    d
}
fn macho(section: &[u8], off: u32, size: u64, name: &str, pad: usize) -> Vec<u8> {
    let mut d = vec![0xcf, 0xfa, 0xed, 0xfe, 7, 0, 0, 1, 3, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 152, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let at = d.len() + 152 + pad;
    let pad16 = |s: &str| { let mut v = s.as_bytes().to_vec(); v.resize(16, 0); v };
    d.extend(0x19u32.to_le_bytes()); d.extend(152u32.to_le_bytes());
    d.extend(pad16("__DATA"));
    d.extend([0u8; 16]); // vmaddr, vmsize
    d.extend((at as u64).to_le_bytes()); d.extend((section.len() as u64).to_le_bytes()); // fileoff, filesize
    d.extend([0u8; 8]); d.extend(1u32.to_le_bytes()); d.extend([0u8; 4]);
    d.extend(pad16(name)); d.extend(pad16("__DATA"));
    d.extend(0u64.to_le_bytes()); d.extend(size.to_le_bytes());
    d.extend((if off == 0 { at as u32 } else { off }).to_le_bytes());
    d.extend([0u8; 28]);
    d.resize(at, 0);
    d.extend(section);
    d
}
fn p14s(c: &mut Ch) -> (String, R) {
    let (d, want) = p14data(c);
    let rf = p14ref(&d);
    let n = want.len();
    let how = c.below(5);
    if how < 2 || rf != want {
        return (format!("{d:?}"), (|| {
            let got = extracted(styx_embed::extract_schemas(&d));
            if got != rf { bad!("intact schemas {rf:?}, extracted {got:?}") }
            let got = extracted(styx_embed::extract_schemas_from_object(&d));
            if got != rf { bad!("intact schemas {rf:?}, extracted as an object {got:?}") }
            Ok(n > 0)
        })());
    }
    // an object file around it: section data, then bytes outside the section with a blob of their own
    let pad = c.below(9);
    let outside = c.one_in(2);
    let odd = c.below(4) == 3;
    let big = *c.pick(&[u64::MAX, u64::MAX - 7, 1 << 63, 1 << 32, (1 << 32) - 1, 1 << 20]);
    let right = !c.one_in(4);
    let (off, size) = if odd { if c.one_in(2) { (big, d.len() as u64) } else { (0, big) } } else { (0, d.len() as u64) };
    let mut o = match how {
        2 => elf(&d, off, size, if right { ".styx_schemas" } else { ".styx" }, pad),
        3 => pe(&d, off as u32, size as u32, if right { ".styx" } else { ".text" }, pad),
        _ => macho(&d, off as u32, size, if right { "__styx_schemas" } else { "__text" }, pad),
    };
    let plain = p14ref(&o);
    if outside { o.extend(intact("outside")) }
    let all = p14ref(&o);
    (format!("{o:?}"), (|| {
        let got = extracted(styx_embed::extract_schemas_from_object(&o));
        let ok = if plain != rf { true } else if !odd && right { got == rf || got == all } else { got == all || (odd && (got.is_empty() || got == rf)) };
        if !ok { bad!("intact schemas in the section {rf:?}, in the file {all:?}, extracted {got:?}") }
        Ok(n > 0)
    })())
}
mod embedded {
    styx_embed::embed_inline!("meta {id harness-one, version 1}\nschema {@ @object{name @string}}\n");
    styx_embed::embed_inline!(r#"meta {id "harness/two é"}
schema {@ @seq(@string)}
"#);
}
fn p14x() -> (String, R, u64) {
    let mut want = ["meta {id harness-one, version 1}\nschema {@ @object{name @string}}\n", "meta {id \"harness/two é\"}\nschema {@ @seq(@string)}\n"];
    let r = (|| {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut got = styx_embed::extract_schemas_from_file(&exe).map_err(|e| format!("two schemas are embedded in the running program, extraction says: {e}"))?;
        got.sort();
        want.sort();
        if got != want { bad!("embedded in the running program {want:?}, extracted {got:?}") }
        Ok(true)
    })();
    ("the schemas embedded in this program".into(), r, 1)
}
// ---------------------------------------------------------------- P11
fn p11s(c: &mut Ch) -> (String, R) {
    use styx_tree::{Entry, Object, Payload, ScalarKind, Scalar, Sequence, Tag};
    let mut log = String::new();
    const T: &[&str] = &["a", "b", "", "@", "a.b", "[0]", "é", "A", " a"];
    fn key(c: &mut Ch) -> Value {
        let sc = |s: &str, k| Value { tag: None, payload: Some(Payload::Scalar(Scalar { text: s.into(), kind: k, span: None })), span: None };
        let k = *c.pick(&[ScalarKind::Bare, ScalarKind::Quoted, ScalarKind::Raw]);
        let t = c.word(T);
        match c.below(6) {
            0 => Value::unit(),
            1 => Value { tag: Some(Tag { name: t.into(), span: None }), payload: None, span: None },
            2 => Value { tag: Some(Tag { name: "t".into(), span: None }), ..sc(t, k) },
            3 => Value { tag: None, payload: Some(Payload::Sequence(Sequence { items: vec![sc(t, k)], span: None })), span: None },
            _ => sc(t, k),
        }
    }
    let plain = |v: &Value| match (&v.tag, &v.payload) { (None, Some(Payload::Scalar(s))) => Some(s.text.clone()), _ => None };
    let unit = |v: &Value| v.tag.is_none() && v.payload.is_none();
    let n = c.below(6);
    let mut o = Object { entries: vec![], span: None };
    let mut cnt = 0;
    let mut val = |c: &mut Ch| { cnt += 1; let k = cnt; if c.one_in(4) { Value::seq(vec![Value::scalar(format!("v{k}")), Value::scalar(format!("w{k}"))]) } else { Value::scalar(format!("v{k}")) } };
    for _ in 0..n { let k = key(c); let v = val(c); o.entries.push(Entry { key: k, value: v, doc_comment: if c.one_in(3) { Some("d".into()) } else { None } }) }
    log += &format!("entries {:?}\n", o.entries);
    let m = 1 + c.below(4);
    let r = (|| {
        for _ in 0..m {
            let before = o.entries.clone();
            let v = val(c);
            let t = *c.pick(T);
            let mut want = before.clone();
            match c.below(4) {
                0 => {
                    log += &format!("insert_unit {v:?}\n");
                    match want.iter_mut().find(|e| unit(&e.key)) { Some(e) => e.value = v.clone(), None => want.push(Entry { key: Value::unit(), value: v.clone(), doc_comment: None }) }
                    o.insert_unit(v.clone());
                    if o.get_unit() != Some(&v) { bad!("the unit key reads {:?} after inserting {v:?}", o.get_unit()) }
                }
                1 => {
                    log += &format!("get_mut {t:?} = {v:?}\n");
                    let w = want.iter_mut().find(|e| plain(&e.key).as_deref() == Some(t));
                    match (o.get_mut(t), w) { (Some(x), Some(e)) => { if *x != e.value { bad!("get_mut({t:?}) is {x:?}") } *x = v.clone(); e.value = v.clone() } (None, None) => {} (a, b) => bad!("get_mut({t:?}) is {a:?}, the entry is {b:?}") }
                }
                2 => {
                    log += &format!("get_unit_mut = {v:?}\n");
                    let w = want.iter_mut().find(|e| unit(&e.key));
                    match (o.get_unit_mut(), w) { (Some(x), Some(e)) => { if *x != e.value { bad!("get_unit_mut is {x:?}") } *x = v.clone(); e.value = v.clone() } (None, None) => {} (a, b) => bad!("get_unit_mut is {a:?}, the entry is {b:?}") }
                }
                _ => {
                    log += &format!("insert {t:?} {v:?}\n");
                    match want.iter_mut().find(|e| plain(&e.key).as_deref() == Some(t)) { Some(e) => e.value = v.clone(), None => want.push(Entry { key: Value::scalar(t), value: v.clone(), doc_comment: None }) }
                    o.insert(t, v.clone());
                    if o.get(t) != Some(&v) { bad!("{t:?} reads {:?} after inserting {v:?}", o.get(t)) }
                }
            }
            if o.entries != want { bad!("entries are {:?}, expected {want:?}", o.entries) }
            for t in T {
                let w = want.iter().find(|e| plain(&e.key).as_deref() == Some(t)).map(|e| &e.value);
                if o.get(t) != w { bad!("get({t:?}) is {:?}, the entry is {w:?}", o.get(t)) }
                if o.contains_key(t) != w.is_some() { bad!("contains_key({t:?}) is {}", o.contains_key(t)) }
            }
            let w = want.iter().find(|e| unit(&e.key)).map(|e| &e.value);
            if o.get_unit() != w || o.contains_unit_key() != w.is_some() { bad!("get_unit is {:?}, the entry is {w:?}", o.get_unit()) }
        }
        // paths
        let mut root = Value { tag: None, payload: Some(Payload::Object(o.clone())), span: None };
        for _ in 0..c.below(3) {
            let name = c.word(&["a", "b", "é", ""]);
            root = if c.one_in(2) { let mut x = Object { entries: vec![], span: None }; x.insert(name, root); if c.one_in(2) { x.insert("a", Value::scalar("z")) } Value { tag: if c.one_in(2) { Some(Tag { name: "t".into(), span: None }) } else { None }, payload: Some(Payload::Object(x)), span: None } }
                else { let k = c.below(3); let mut items = vec![Value::scalar("p"), Value::scalar("q")]; items.insert(k, root); Value::seq(items) };
        }
        let mut path = String::new();
        let mut at = Some(&root);
        for _ in 0..c.below(5) {
            if c.one_in(2) {
                let k = c.word(&["a", "b", "é", "zz", ""]);
                if k.contains(['.', '[', ']']) { continue }
                if k.is_empty() && path.is_empty() { continue }
                if !path.is_empty() { path.push('.') }
                path.push_str(k);
                at = at.and_then(|v| match &v.payload { Some(Payload::Object(o)) => o.entries.iter().find(|e| plain(&e.key).as_deref() == Some(k)).map(|e| &e.value), _ => None });
            } else {
                let k = *c.pick(&["0", "1", "2", "3", "00", "18446744073709551616", "x", "-1", ""]);
                if path.ends_with('.') { path.push('.') }
                path.push_str(&format!("[{k}]"));
                at = at.and_then(|v| match &v.payload { Some(Payload::Sequence(s)) => k.parse::<usize>().ok().and_then(|i| s.items.get(i)),
                    Some(Payload::Object(o)) => o.entries.iter().find(|e| plain(&e.key) == Some(format!("[{k}]"))).map(|e| &e.value), _ => None });
            }
        }
        if path.ends_with('.') { path.push_str(".a"); at = at.and_then(|v| match &v.payload { Some(Payload::Object(o)) => o.entries.iter().find(|e| plain(&e.key).as_deref() == Some("a")).map(|e| &e.value), _ => None }); }
        log += &format!("path {path:?} in {root:?}\n");
        if root.get(&path) != at { bad!("get({path:?}) is {:?}, expected {at:?}", root.get(&path)) }
        if let Some(Payload::Object(o)) = &root.payload {
            let d = styx_tree::Document { root: o.clone(), leading_comments: vec![] };
            let w = if path.is_empty() { None } else { at };
            if d.get(&path) != w { bad!("Document::get({path:?}) is {:?}, expected {w:?}", d.get(&path)) }
        }
        let at = at.cloned();
        let mut copy = root.clone();
        if copy.get_mut(&path).map(|v| v.clone()) != at { bad!("get_mut({path:?}) is not {at:?}") }
        if let Some(x) = copy.get_mut(&path) { *x = Value::scalar("new") }
        if at.is_some() && copy.get(&path) != Some(&Value::scalar("new")) { bad!("{path:?} reads {:?} after it was set", copy.get(&path)) }
        if at.is_none() && copy != root { bad!("get_mut({path:?}) changed the value") }
        Ok(n > 0)
    })();
    (log, r)
}
// ---------------------------------------------------------------- P12
fn built(m: &doc::M) -> Value {
    use styx_tree::{Entry, Object, Payload, Scalar, ScalarKind, Sequence, Tag};
    let sc = |s: &str| Payload::Scalar(Scalar { text: s.into(), kind: ScalarKind::Quoted, span: None });
    let tag = |n: &str| Some(Tag { name: n.into(), span: None });
    let v = |tag, payload| Value { tag, payload, span: None };
    match m {
        doc::M::Unit => v(None, None),
        doc::M::S(s) => v(None, Some(sc(s))),
        doc::M::T(n, None) => v(tag(n), None),
        doc::M::T(n, Some(p)) => Value { tag: tag(n), ..built(p) },
        doc::M::Seq(x) => v(None, Some(Payload::Sequence(Sequence { items: x.iter().map(built).collect(), span: None }))),
        doc::M::Obj(x) => v(None, Some(Payload::Object(Object { entries: x.iter().map(|e| Entry {
            key: match &e.key { doc::Key::Unit => v(None, None), doc::Key::S(s) => v(None, Some(sc(s))), doc::Key::T(n, p) => v(tag(n), p.as_ref().map(|s| sc(s))) },
            value: built(&e.val), doc_comment: e.doc.clone() }).collect(), span: None }))),
    }
}
fn tagged_scalar(m: &doc::M) -> bool {
    match m {
        doc::M::T(_, Some(p)) => matches!(**p, doc::M::S(_)) || tagged_scalar(p),
        doc::M::Seq(v) => v.iter().any(tagged_scalar),
        doc::M::Obj(v) => v.iter().any(|e| tagged_scalar(&e.val)),
        _ => false,
    }
}
fn p12s(c: &mut Ch) -> (String, R) {
    use styx_format::FormatOptions;
    let m = doc::obj(c, 4, 5);
    let mut o = match c.below(3) { 0 => FormatOptions::default(), 1 => FormatOptions::default().inline(), _ => FormatOptions::default().multiline() };
    o.indent = *c.pick(&["    ", "  ", "\t", "", " "]);
    o.max_width = *c.pick(&[80, 20, 0, 1, 40, usize::MAX]);
    o.min_inline_width = *c.pick(&[30, 0, 10, usize::MAX]);
    o.heredoc_line_threshold = *c.pick(&[2, 0, 1, 3]);
    let v = built(&m);
    let t = match searchkit::guard(|| styx_format::format_value(&v, o.clone())) { Ok(t) => t, Err(e) => return (format!("{m:?}\n{o:?}"), Err(e)) };
    (format!("{m:?}\n{o:?}\n{t}"), (|| {
        reads_back(&v, &t, tagged_scalar(&m))?;
        Ok(matches!(&m, doc::M::Obj(v) if v.len() > 1))
    })())
}
fn reads_back(v: &Value, t: &str, tagged: bool) -> Result<(), String> {
    let k = if tagged { "[tagged-scalar] " } else { "" };
    match styx_tree::parse(t) {
        Err(e) => Err(format!("{k}written as {t:?}, which does not parse: {e}")),
        Ok(w) => { let (x, y) = (dval(v), dval(&w)); if x != y { Err(format!("{k}written as {t:?}, read back as\n  {y}\ninstead of\n  {x}")) } else { Ok(()) } }
    }
}
fn vtagged(v: &Value) -> bool {
    use styx_tree::Payload::*;
    match &v.payload {
        Some(Scalar(_)) => v.tag.is_some(),
        Some(Sequence(q)) => q.items.iter().any(vtagged),
        Some(Object(o)) => o.entries.iter().any(|e| vtagged(&e.value)),
        None => false,
    }
}
fn dup_keys(v: &Value) -> bool {
    use styx_tree::Payload::*;
    match &v.payload {
        Some(Sequence(q)) => q.items.iter().any(dup_keys),
        Some(Object(o)) => {
            let k: std::collections::BTreeSet<String> = o.entries.iter().map(|e| dval(&e.key)).collect();
            k.len() != o.entries.len() || o.entries.iter().any(|e| dup_keys(&e.value))
        }
        _ => false,
    }
}
/// the value a text says, written and read again
fn p12(s: &str) -> R {
    use styx_format::FormatOptions;
    let Ok(v) = styx_tree::parse(s) else { return Ok(false) };
    if dval(&v).contains("Some(\"\")") || dval(&v).contains("\\n\")") { return Ok(false) } // doc comments without text on their last line are outside the claim
    if dup_keys(&v) { return Ok(false) } // not a document (found here only where the parser overlooks a repeated key: see P08)
    for o in [FormatOptions::default(), FormatOptions::default().indent("\t").inline(), FormatOptions::default().indent("").multiline()] {
        reads_back(&v, &styx_format::format_value(&v, o), vtagged(&v))?;
    }
    Ok(matches!(&v.payload, Some(styx_tree::Payload::Object(o)) if o.entries.len() > 1))
}
// ---------------------------------------------------------------- P13
fn comments(s: &str) -> Vec<String> {
    let mut v: Vec<String> = tokens(s).unwrap_or_default().iter().filter(|t| matches!(t.kind, TokenKind::LineComment | TokenKind::DocComment)).map(|t| t.text.trim_end().to_string()).collect();
    v.sort();
    v
}
/// the tree with its doc comments
fn dval(v: &Value) -> String {
    use styx_tree::Payload::*;
    let t = v.tag.as_ref().map(|t| format!("@{}", t.name));
    match &v.payload {
        None => format!("{t:?}"),
        Some(Scalar(s)) => format!("{t:?}{:?}", s.text),
        Some(Sequence(s)) => format!("{t:?}({})", s.items.iter().map(dval).collect::<Vec<_>>().join(" ")),
        Some(Object(o)) => format!("{t:?}{{{}}}", o.entries.iter().map(|e| format!("{:?} {}: {}", e.doc_comment, dval(&e.key), dval(&e.value))).collect::<Vec<_>>().join(", ")),
    }
}
fn p13(s: &str) -> R {
    let cst_ok = styx_cst::parse(s).is_ok();
    let ev = events(s)?;
    let clean = cst_ok && !ev.iter().any(|e| matches!(e.kind, EventKind::Error { .. }));
    for o in [styx_format::FormatOptions::default(), styx_format::FormatOptions::default().indent("\t").inline(), styx_format::FormatOptions::default().indent("").multiline()] {
        let f = styx_format::format_source(s, o.clone());
        if !clean { if f != s { bad!("{}a text with parse errors becomes {f:?}", if cst_ok { "[unseen-error] " } else { "" }) } continue }
        let a = styx_tree::parse(s).map_err(|e| format!("no error event, but the tree fails: {e:?}"))?;
        let b = match styx_tree::parse(&f) { Ok(b) => b, Err(e) => bad!("formatted {f:?}, which does not parse: {e:?}") };
        let (x, y) = (dval(&a), dval(&b));
        if x != y { bad!("formatted {f:?}: the tree {x} becomes {y}") }
        let (x, y) = (comments(s), comments(&f));
        if x != y { bad!("formatted {f:?}: comments {x:?} become {y:?}") }
        let g = styx_format::format_source(&f, o.clone());
        if g != f { bad!("formatted {f:?}, formatted again {g:?}") }
    }
    Ok(clean && ev.len() > 6)
}
/// a well-formed document with breaks, comments and blanks put between some of its tokens
fn p13s(c: &mut Ch) -> (String, R) {
    let d = doc::any_doc(c);
    let mut o = String::new();
    let n = c.below(4);
    let tk = tokens(&d).unwrap_or_default();
    let at: Vec<usize> = (0..n).map(|_| c.below(tk.len() + 1)).collect();
    for (i, t) in tk.iter().enumerate() {
        for _ in at.iter().filter(|a| **a == i) { o += c.word(&["\n", " ", "\n\n", "\n\n\n", "// c\n", "\n// c\n", " // c\n", "\n/// d\n", "/// d\n", "\n  // c\n\n", ",", "\r\n", "\t", "<<E\n x\n  y\n E\n", "{}", "()", "\n}", "(", ")"]) }
        o += t.text;
    }
    let r = p13(&o);
    (o, r)
}
fn strip(s: &str) -> Option<doc::M> { styx_tree::parse(s).ok().map(|v| tval(&v)) }

pub fn all() -> Vec<Prop> {
    let p = |id, rule, text, ex, structured| Prop { id, rule, text, exhaustive: ex, extra: none, structured, single: None };
    vec![
        p("P01", "text yields more than one token", Some(p01 as fn(&str) -> R), (4, 5), None),
        p("P02", "text yields more than one token", Some(p02), (4, 5), None),
        p("P03", "a quoted scalar with a backslash occurs", Some(p03), (3, 4), Some(p03s as fn(&mut Ch) -> (String, R))),
        p("P04", "a raw or heredoc scalar occurs", Some(p04), (3, 4), Some(p04s)),
        p("P05", "a text of more than two bytes", Some(p05), (3, 4), Some(p05s)),
        p("P06", "nesting of at least three", Some(p06), (4, 5), None),
        p("P07", "more than four events", Some(p07), (4, 5), None),
        p("P08", "more than one entry", Some(p08), (4, 5), Some(p08s)),
        Prop { single: Some(p09x), ..p("P09", "more than two leaves", Some(p09), (4, 5), None) },
        Prop { single: Some(p14x), ..p("P14", "at least one schema embedded", None, (0, 0), Some(p14s)) },
        p("P11", "at least one entry", None, (0, 0), Some(p11s)),
        p("P12", "more than one entry", Some(p12), (4, 5), Some(p12s)),
        p("P13", "a well-formed text with an entry", Some(p13), (4, 5), Some(p13s)),
        p("P10", "more than one entry", Some(p10), (4, 5), Some(p10s)),
    ]
}
