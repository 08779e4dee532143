//! Deterministic input generation: a splitmix64 stream, token soup, exhaustive fragment strings.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
/// Choices a structured case is a function of. Reads past the end give 0.
#[derive(Clone)]
pub struct Ch<'a> { pub rng: Option<Rng>, pub src: &'a [u32], pub pos: usize, pub log: Vec<u32> }
impl<'a> Ch<'a> {
    pub fn random(seed: u64) -> Ch<'static> { Ch { rng: Some(Rng(seed)), src: &[], pos: 0, log: vec![] } }
    pub fn replay(src: &'a [u32]) -> Ch<'a> { Ch { rng: None, src, pos: 0, log: vec![] } }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0 }
        let v = match &mut self.rng { Some(r) => r.below(n) as u32, None => self.src.get(self.pos).copied().unwrap_or(0) % n as u32 };
        self.pos += 1;
        self.log.push(v);
        v as usize
    }
    /// true with probability 1/n (0 is false, so that shrinking turns features off)
    pub fn one_in(&mut self, n: usize) -> bool { n == 1 || self.below(n) == n - 1 }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T { &xs[self.below(xs.len())] }
    /// one of these words, or sometimes one of the dictionary's
    pub fn word(&mut self, xs: &[&'static str]) -> &'static str {
        let d = dict();
        if !d.is_empty() && self.one_in(3) { d[self.below(d.len())] } else { xs[self.below(xs.len())] }
    }
    /// one of these numbers, or sometimes one near a number of the dictionary
    pub fn number(&mut self, xs: &[i128]) -> i128 {
        let d = nums();
        if !d.is_empty() && self.one_in(3) { d[self.below(d.len())].saturating_add(self.below(3) as i128 - 1) } else { xs[self.below(xs.len())] }
    }
}

/// What the source under test mentions and the source the contracts were written for does not (texts, characters, numbers):
/// SEARCH_DICT names a file of lines `s<TAB>text with \\n \\r \\t \\\\ escaped` and `n<TAB>number`.
struct Dict { words: Vec<&'static str>, nums: Vec<i128> }
fn loaded() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { words: vec![], nums: vec![] };
        let Some(t) = std::env::var("SEARCH_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()) else { return d };
        let mut words: Vec<String> = vec![];
        for l in t.lines() {
            if let Some(w) = l.strip_prefix("s\t") {
                let mut o = String::new();
                let mut it = w.chars();
                while let Some(ch) = it.next() { o.push(if ch == '\\' { match it.next() { Some('n') => '\n', Some('r') => '\r', Some('t') => '\t', Some(x) => x, None => break } } else { ch }) }
                words.push(o);
            } else if let Some(n) = l.strip_prefix("n\t").and_then(|n| n.parse::<i128>().ok()) {
                d.nums.push(n);
                if (2..=600).contains(&n) {
                    for k in [n - 1, n, n + 1] { for w in ["a", "é", " ", "#", "\n", "x y\n", "\t", "(", "a.", "\""] { words.push(w.repeat(k as usize)) } }
                    words.push(n.to_string());
                } else { for k in [n.saturating_sub(1), n, n.saturating_add(1)] { words.push(k.to_string()) } }
                if let Some(ch) = u32::try_from(n).ok().and_then(char::from_u32).filter(|_| n > 31) { words.push(ch.to_string()) }
            }
        }
        d.words = words.into_iter().map(|w| &*w.leak()).collect();
        d
    })
}
pub fn dict() -> &'static [&'static str] { &loaded().words }
pub fn nums() -> &'static [i128] { &loaded().nums }
/// A text with a few random edits.
pub fn vary(c: &mut Ch, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let d = dict();
    let n = c.below(4) + !d.is_empty() as usize;
    for _ in 0..n {
        let i = c.below(v.len() + 1);
        let f: String = if !d.is_empty() && c.one_in(2) { d[c.below(d.len())].into() } else {
            match c.below(6) {
                0 => { let j = (i + 1 + c.below(4)).min(v.len()); if i < j { v.drain(i..j); } continue }
                1 | 2 => (*c.pick(SOUP)).into(),
                3 => (*c.pick(FRAG)).into(),
                4 => { if v.is_empty() { continue } let a = c.below(v.len()); let b = (a + 1 + c.below(12)).min(v.len()); v[a..b].iter().collect() }
                _ => { let w = if c.one_in(2) { *c.pick(SOUP) } else { *c.pick(FRAG) }; w.repeat(*c.pick(&[2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257])) }
            }
        };
        if v.len() + f.len() < 4000 { let w: Vec<char> = f.chars().collect(); v.splice(i..i, w); }
    }
    v.into_iter().collect()
}

pub const FRAG: &[&str] = &["a", " ", "\n", "@", "{", "}", "(", ")", ",", ">", "\"", "\\", "r", "#", "<", "<<E\n", "E", "/", "=", ".", "\t", "\r", "é", "1", "//", "///"];
pub const SOUP: &[&str] = &[
    "a", "b", "key", "x.y", "a.b.c", " ", " ", " ", "  ", "\t", "\n", "\n", "\n", "\r\n", "\r", ",", ", ", "{", "}", "(", ")", "{\n", "\n}", "{}", "()",
    "@", "@t", "@tag", "@a/@b", "@a/@", "@t{", "@t(", "@t\"p\"", "@t@", "@1", "@.x", "@a.b", "@t-", "@r#\"", "@tr\"x\"", "/@c", ">", "k>v", "k>", "x>1 y>2", "k>\"q\"", "k>{a 1}", "k>(1 2)",
    "\"", "\"s\"", "\"a b\"", "\"\\n\"", "\"\\u00e9\"", "\"\\u{1F600}\"", "\"\\q\"", "\"\\u12\"", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\u{D800}\"", "\"\\u{1234567日本日本日本\"", "\\", "\\\\", "\\u{", "\\\"",
    "r\"x\"", "r#\"a\"b\"#", "r##\"\"#\"##", "r#", "r\"", "r#\"", "\"#", "#", "##", "r", "raw",
    "<<EOF\nline\nEOF\n", "<<EOF\n  l1\n\tl2\n  EOF\n", "<<EOF,rust\nfn\nEOF", "<<A\nA", "<<A\r\nx\r\nA\r\n", "<<TOOLONGDELIMITER1\n", "<<TOOLONGDELIMITE1\nx\nTOOLONGDELIMITE1", "<<eof", "<<", "<<E", "<<E\n", "\nEOF\n", "EOF", "\n  EOF", "<", "<<A,x-y.z_1\n", "<<A,\n", "<<A,X\n",
    "// c\n", "// c", "//", "/", "///", "/// doc\n", "///doc", "/x", "http://e.com/a?b=c", "=", "=x", "a=b", "a@b", "é", "日本", "\u{a0}", "\u{2028}", "\u{0}", "\u{feff}", "😀", "1", "-1.5", "true", "null", "_", "-", ".", "..", ".a", "a.", ":", ";", "'", "`", "[", "]", "|", "&", "*", "%", "!", "?", "~", "^", "+", "$",
    "\u{b}", "\u{c}", "\u{85}", "\u{2003}", "\u{3000}", "\u{200d}", "A", "KEY", "½", "٣", "ß", "İ", "@TAG", "@É",
];

/// The i-th string over FRAG in length-lexicographic order (None behind length `max`).
pub fn nth(mut i: u64, max: usize) -> Option<String> {
    let n = FRAG.len() as u64;
    let mut len = 0;
    let mut cnt = 1u64;
    while i >= cnt {
        i -= cnt;
        cnt *= n;
        len += 1;
        if len > max { return None }
    }
    let mut v = vec![];
    for _ in 0..len { v.push(FRAG[(i % n) as usize]); i /= n; }
    Some(v.concat())
}
pub fn count(max: usize) -> u64 { (0..=max).map(|k| (FRAG.len() as u64).pow(k as u32)).sum() }
pub fn soup(c: &mut Ch) -> String {
    let m = [4usize, 8, 16, 40][c.below(4)];
    let n = 1 + c.below(m);
    let mut s = String::new();
    for _ in 0..n { let f = *c.pick(SOUP); s.push_str(f); }
    s
}
