//! Reference lexical grammar: an executable transcription of units/lexspec.vlib, written against
//! docs/content/reference/spec, not against the tokenizer.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K { LBrace, RBrace, LParen, RParen, Comma, Gt, At, Tag, Bare, Quoted, Raw, HdStart, HdContent, HdEnd,
    LineComment, DocComment, Ws, Nl, Eof, Error }

pub fn special(c: char) -> bool { "{}(),\">".contains(c) }
pub fn bare_char(c: char) -> bool { !special(c) && !c.is_whitespace() }
fn tag_start(c: char) -> bool { c.is_ascii_alphabetic() || c == '_' }
fn tag_char(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' || c == '-' }
fn at(s: &[char], i: usize, c: char) -> bool { s.get(i) == Some(&c) }
fn run(s: &[char], mut i: usize, f: impl Fn(char) -> bool) -> usize { while i < s.len() && f(s[i]) { i += 1 } i }
fn hsp(c: char) -> bool { c == ' ' || c == '\t' }
fn eol(c: char) -> bool { c == '\n' || c == '\r' }

fn tag_name_end(s: &[char], mut i: usize) -> usize {
    while i < s.len() && tag_char(s[i]) {
        if s[i] == 'r' && at(s, i + 1, '#') { break }
        i += 1;
    }
    i
}
pub fn delim_at(s: &[char], i: usize, d: &[char]) -> Option<usize> {
    let w = run(s, i, hsp);
    let e = w + d.len();
    (e <= s.len() && s[w..e] == *d && (e == s.len() || s[e] == '\n' || (s[e] == '\r' && at(s, e + 1, '\n')))).then_some(w - i)
}
pub type Hs = Option<Vec<char>>;
/// kind, end, next heredoc state, and the closing indent when kind is HdContent
pub fn tok(s: &[char], i: usize, hs: &Hs) -> (K, usize, Hs, usize) {
    if let Some(d) = hs {
        if let Some(ind) = delim_at(s, i, d) { return (K::HdEnd, i + ind + d.len(), None, ind) }
        let mut e = i;
        while e < s.len() {
            e = run(s, e, |c| c != '\n');
            if e < s.len() { e += 1 }
            if let Some(ind) = delim_at(s, e, d) { return (K::HdContent, e, hs.clone(), ind) }
        }
        return (K::Error, e, None, 0);
    }
    let Some(&c) = s.get(i) else { return (K::Eof, i, None, 0) };
    let one = |k| (k, i + 1, None, 0);
    match c {
        '{' => one(K::LBrace), '}' => one(K::RBrace), '(' => one(K::LParen), ')' => one(K::RParen),
        ',' => one(K::Comma), '>' => one(K::Gt), '\n' => one(K::Nl),
        '\r' if at(s, i + 1, '\n') => (K::Nl, i + 2, None, 0),
        '@' => {
            if i + 1 < s.len() && tag_start(s[i + 1]) {
                let mut e = tag_name_end(s, i + 2);
                while at(s, e, '/') && at(s, e + 1, '@') && e + 2 < s.len() && tag_start(s[e + 2]) { e = tag_name_end(s, e + 3) }
                (K::Tag, e, None, 0)
            } else { one(K::At) }
        }
        '"' => {
            let mut e = i + 1;
            while e < s.len() {
                if s[e] == '"' { return (K::Quoted, e + 1, None, 0) }
                e += if s[e] == '\\' && e + 1 < s.len() { 2 } else { 1 };
            }
            (K::Error, e, None, 0)
        }
        '/' if at(s, i + 1, '/') => (if at(s, i + 2, '/') { K::DocComment } else { K::LineComment }, run(s, i + 2, |c| !eol(c)), None, 0),
        '<' if at(s, i + 1, '<') => {
            if i + 2 < s.len() && s[i + 2].is_ascii_uppercase() {
                let de = run(s, i + 2, |c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
                if de - (i + 2) > 16 { return (K::Error, de, None, 0) }
                let mut e = de;
                if at(s, e, ',') {
                    e += 1;
                    if e < s.len() && s[e].is_ascii_lowercase() {
                        e = run(s, e, |c| c.is_ascii_lowercase() || c.is_ascii_digit() || "_.-".contains(c));
                    }
                }
                if at(s, e, '\r') { e += 1 }
                if at(s, e, '\n') { e += 1 }
                (K::HdStart, e, Some(s[i + 2..de].to_vec()), 0)
            } else { (K::Error, i + 2, None, 0) }
        }
        'r' if at(s, i + 1, '#') || at(s, i + 1, '"') => {
            let h = run(s, i + 1, |c| c == '#');
            if !at(s, h, '"') { return (K::Error, h, None, 0) }
            let n = h - (i + 1);
            let mut e = h + 1;
            while e < s.len() {
                if s[e] == '"' && e + 1 + n <= s.len() && s[e + 1..e + 1 + n].iter().all(|&c| c == '#') { return (K::Raw, e + 1 + n, None, 0) }
                e += 1;
            }
            (K::Error, e, None, 0)
        }
        c if hsp(c) => (K::Ws, run(s, i, hsp), None, 0),
        c if bare_char(c) && c != '=' && c != '@' => (K::Bare, run(s, i, bare_char), None, 0),
        _ => one(K::Error),
    }
}

/// Escape decoding of a quoted scalar's inner text. Err = some escape is invalid.
pub fn unescape(s: &str) -> Result<String, ()> {
    let s: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != '\\' { o.push(s[i]); i += 1; continue }
        let c = *s.get(i + 1).ok_or(())?;
        i += 2;
        match c {
            '\\' | '"' => o.push(c),
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'u' => {
                let hex: Vec<char> = if at(&s, i, '{') {
                    let e = run(&s, i + 1, |c| c.is_ascii_hexdigit());
                    if !at(&s, e, '}') || e == i + 1 { return Err(()) }
                    let h = s[i + 1..e].to_vec();
                    i = e + 1;
                    h
                } else {
                    if i + 4 > s.len() || !s[i..i + 4].iter().all(|c| c.is_ascii_hexdigit()) { return Err(()) }
                    i += 4;
                    s[i - 4..i].to_vec()
                };
                let mut v: u64 = 0;
                for h in hex { v = (v * 16 + h.to_digit(16).unwrap() as u64).min(1 << 40) }
                o.push(u32::try_from(v).ok().and_then(char::from_u32).ok_or(())?);
            }
            _ => return Err(()),
        }
    }
    Ok(o)
}

/// Heredoc content with up to `n` leading blanks removed from each line.
pub fn dedent(s: &str, n: usize) -> String {
    let mut o = String::new();
    for (k, l) in s.split('\n').enumerate() {
        if k > 0 { o.push('\n') }
        let b = l.bytes().take(n).take_while(|&c| c == b' ' || c == b'\t').count();
        o.push_str(&l[b..]);
    }
    o
}
