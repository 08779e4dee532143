//! What a text means, read from it with none of the code under test: the reference tokens of searchkit::lex, a recursive
//! descent over them, the documented rules for entries, tags, attributes, doc comments and separators.
use searchkit::{doc::{Key, E, M}, lex, lex::K};

#[derive(Clone, Debug, PartialEq)]
enum L { S(String, K), Unit, Tag(String, bool), Attr(String), Open, Close, SeqOpen, SeqClose, Comma, Nl, Note, Doc(String), Bad, Eof }
type Lx = (L, usize, usize);

fn lexemes(s: &str, t: &[(K, usize, usize, usize)]) -> Vec<Lx> {
    let (mut v, mut i) = (vec![], 0);
    loop {
        let (k, a, b, _) = t[i];
        i += 1;
        let next = t.get(i).copied().unwrap_or((K::Eof, b, b, 0));
        let x = &s[a..b];
        let l = match k {
            K::Ws => continue,
            K::Eof => { v.push((L::Eof, a, b)); return v }
            K::LBrace => L::Open, K::RBrace => L::Close, K::LParen => L::SeqOpen, K::RParen => L::SeqClose, K::Comma => L::Comma, K::Nl => L::Nl,
            K::LineComment => L::Note, K::DocComment => L::Doc(x.strip_prefix("/// ").or(x.strip_prefix("///")).unwrap_or(x).into()),
            K::At => if next.0 == K::Bare { L::Bad } else { L::Unit },
            K::Tag => if next.0 == K::Bare { L::Bad } else { L::Tag(x[1..].into(), matches!(next.0, K::LBrace | K::LParen | K::Quoted | K::Raw | K::At | K::Tag)) },
            K::Bare => if next.0 == K::Gt {
                i += 1;
                if matches!(t.get(i).map(|t| t.0), None | Some(K::Nl | K::Eof | K::Ws)) { L::Bad } else { L::Attr(x.into()) }
            } else { L::S(x.into(), k) },
            K::Quoted => match lex::unescape(&x[1..x.len() - 1]) { Ok(d) => L::S(d, k), Err(_) => L::Bad },
            K::Raw => { let h = x[1..].chars().take_while(|&c| c == '#').count(); L::S(x[2 + h..x.len() - 1 - h].into(), k) }
            K::HdStart => {
                let (mut text, mut ind) = (String::new(), 0);
                let mut end = b;
                let ok = loop {
                    let (k, a2, b2, n) = t[i];
                    match k { K::HdContent => { text += &s[a2..b2]; ind = n } K::HdEnd => { end = b2; i += 1; break true } _ => break false }
                    i += 1;
                };
                v.push((if ok { L::S(lex::dedent(&text, ind), K::HdStart) } else { L::Bad }, a, end));
                continue
            }
            K::Gt | K::HdContent | K::HdEnd | K::Error => L::Bad,
        };
        v.push((l, a, b));
    }
}
#[derive(Clone, Debug)]
enum A { S(String, K), Unit, Tag(String, Option<Box<A>>), Obj(Vec<E>), Attrs(Vec<E>), Seq(Vec<M>), Bad }
pub struct Meaning { pub wrong: bool, pub chained: bool, pub dotted: bool, pub attr_twice: bool, pub root: M }
struct P { v: Vec<Lx>, i: usize, m: Meaning }
impl P {
    fn next(&mut self) -> Lx { let l = self.v[self.i].clone(); if self.i + 1 < self.v.len() { self.i += 1 } l }
    fn value(&mut self, a: A) -> M {
        match a {
            A::S(s, _) => M::S(s),
            A::Unit => M::Unit,
            A::Tag(n, p) => M::T(n, match p.map(|p| self.value(*p)) { None | Some(M::Unit) => None, Some(x) => { if matches!(x, M::T(..)) { self.m.chained = true } Some(Box::new(x)) } }),
            A::Obj(v) | A::Attrs(v) => M::Obj(v),
            A::Seq(v) => M::Seq(v),
            A::Bad => M::Unit,
        }
    }
    fn key(&mut self, a: &A) -> Key {
        match a {
            A::S(_, K::HdStart) => {}
            A::S(s, _) => return Key::S(s.clone()),
            A::Unit => return Key::Unit,
            A::Tag(n, None) => return Key::T(n.clone(), None),
            A::Tag(n, Some(p)) => match &**p { A::Unit => return Key::T(n.clone(), None), A::S(s, _) => return Key::T(n.clone(), Some(s.clone())), _ => {} },
            _ => {}
        }
        self.m.wrong = true;
        Key::Unit
    }
    fn atom(&mut self, l: Lx) -> A {
        match l.0 {
            L::S(s, k) => A::S(s, k),
            L::Unit => A::Unit,
            L::Tag(name, pay) => {
                let segs: Vec<&str> = name.split("/@").collect();
                for s in &segs { if !s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') || !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { self.m.wrong = true } }
                let n = self.v[self.i].clone();
                let takes = if segs.len() > 1 { n.1 == l.2 && matches!(n.0, L::S(..) | L::Unit | L::Tag(..) | L::Open | L::SeqOpen) } else { pay };
                let mut a = if takes { let n = self.next(); Some(Box::new(self.atom(n))) } else { None };
                for s in segs.into_iter().rev() { a = Some(Box::new(A::Tag(s.into(), a))) }
                *a.unwrap()
            }
            L::Open => {
                let (mut v, mut keys, mut doc): (Vec<E>, Vec<Key>, Vec<String>) = (vec![], vec![], vec![]);
                loop {
                    let l = self.next();
                    match l.0 {
                        L::Eof => { self.m.wrong = true; break }
                        L::Close => break,
                        L::Nl | L::Comma | L::Note => {}
                        L::Doc(d) => doc.push(d),
                        _ => {
                            let (k, val) = self.entry(l);
                            let key = self.key(&k);
                            if keys.contains(&key) { self.m.wrong = true }
                            keys.push(key.clone());
                            v.push(E { key, val, doc: if doc.is_empty() { None } else { Some(std::mem::take(&mut doc).join("\n")) } });
                        }
                    }
                }
                if !doc.is_empty() { self.m.wrong = true }
                A::Obj(v)
            }
            L::SeqOpen => {
                let mut v = vec![];
                loop {
                    let l = self.next();
                    match l.0 {
                        L::Eof => { self.m.wrong = true; break }
                        L::SeqClose => break,
                        L::Comma => self.m.wrong = true,
                        L::Nl | L::Note | L::Doc(_) => {}
                        _ => { let a = self.atom(l); let x = self.value(a); v.push(x) }
                    }
                }
                A::Seq(v)
            }
            L::Attr(k) => {
                let (mut v, mut k): (Vec<E>, _) = (vec![], k);
                loop {
                    let l = self.next();
                    let a = self.atom(l);
                    if v.iter().any(|e| e.key == Key::S(k.clone())) { self.m.attr_twice = true }
                    let val = self.value(a);
                    v.push(E { key: Key::S(k), val, doc: None });
                    match &self.v[self.i].0 { L::Attr(n) => { k = n.clone(); self.next(); } _ => return A::Attrs(v) }
                }
            }
            _ => { self.m.wrong = true; A::Bad }
        }
    }
    fn entry(&mut self, first: Lx) -> (A, M) {
        let bare_end = if matches!(first.0, L::S(_, K::Bare)) { first.2 } else { usize::MAX };
        let key = self.atom(first);
        let mut vals = vec![];
        loop {
            let l = self.v[self.i].clone();
            match l.0 {
                L::Eof | L::Nl | L::Comma | L::Close | L::SeqClose | L::Doc(_) => break,
                L::Note => { self.next(); break }
                _ => {}
            }
            self.next();
            if matches!(l.0, L::Open | L::SeqOpen) && vals.is_empty() && l.1 == bare_end { self.m.wrong = true }
            vals.push(self.atom(l));
        }
        if vals.len() > 1 { self.m.wrong = true }
        let val = match vals.into_iter().next() { Some(a) => self.value(a), None => M::Unit };
        (key, val)
    }
}
pub fn meaning(s: &str, tokens: &[(K, usize, usize, usize)]) -> Meaning {
    let mut p = P { v: lexemes(s, tokens), i: 0, m: Meaning { wrong: false, chained: false, dotted: false, attr_twice: false, root: M::Unit } };
    let (mut v, mut keys, mut doc): (Vec<E>, Vec<Key>, Vec<String>) = (vec![], vec![], vec![]);
    let mut braced = false;
    loop {
        let l = p.next();
        match l.0 {
            L::Eof => { if braced { p.m.wrong = true } break }
            L::Close if braced => {
                loop { match p.next().0 { L::Nl | L::Note => {} L::Eof => break, _ => { p.m.wrong = true; break } } }
                break
            }
            L::Open if !braced && v.is_empty() && doc.is_empty() && !p.m.wrong => braced = true,
            L::Nl | L::Comma | L::Note => {}
            L::Doc(d) => doc.push(d),
            _ => {
                let (a, mut val) = p.entry(l);
                let mut key = p.key(&a);
                let doc = if doc.is_empty() { None } else { Some(std::mem::take(&mut doc).join("\n")) };
                match a {
                    A::S(t, K::Bare) if t.contains('.') => {
                        p.m.dotted = true;
                        let seg: Vec<&str> = t.split('.').collect();
                        if seg.iter().any(|s| s.is_empty()) { p.m.wrong = true }
                        for s in seg[1..].iter().rev() { val = M::Obj(vec![E { key: Key::S((*s).into()), val, doc: None }]) }
                        key = Key::S(seg[0].into());
                    }
                    _ => { if keys.contains(&key) { p.m.wrong = true } keys.push(key.clone()) }
                }
                v.push(E { key, val, doc });
            }
        }
    }
    if !doc.is_empty() { p.m.wrong = true }
    p.m.root = M::Obj(v);
    p.m
}
