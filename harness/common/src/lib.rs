//! Bounded search for concrete violations against the real crates: the replay side of the proofs
//! and the stand-in where an obligation is out of the verifier's reach. Never counted as proof.
pub mod doc;
pub mod lex;
pub mod source;
use source::*;
use std::collections::HashSet;
use std::hash::{BuildHasher, RandomState};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Ok(nontrivial) or Err(what is wrong).
pub type R = Result<bool, String>;
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// check of a text input; `exhaustive` fragment lengths (quick, thorough)
    pub text: Option<fn(&str) -> R>,
    pub exhaustive: (usize, usize),
    /// texts to seed with
    pub extra: fn() -> Vec<String>,
    /// check of a structured input: returns what the choices denote and the verdict
    pub structured: Option<fn(&mut Ch) -> (String, R)>,
    /// names of known-finding classes: an Err starting with "[name]" belongs to one
    pub single: Option<fn() -> (String, R, u64)>,
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}
fn run_text(f: fn(&str) -> R, s: &str) -> R { guard(|| f(s)).unwrap_or_else(Err) }
fn run_struct(f: fn(&mut Ch) -> (String, R), c: &mut Ch) -> (String, R) {
    let r = guard(|| f(c));
    r.unwrap_or_else(|e| ("(panicked)".into(), Err(e)))
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 32 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}
fn known(e: &str, kf: &[String]) -> bool { e.strip_prefix('[').and_then(|r| r.split(']').next()).is_some_and(|n| kf.iter().any(|k| k == n)) }

enum Case { Text(String), Choices(Vec<u32>, String), Single(String) }

fn shrink_text(f: fn(&str) -> R, s: &str, kf: &[String]) -> String {
    let bad = |s: &str| matches!(run_text(f, s), Err(e) if !known(&e, kf));
    let mut cur: Vec<char> = s.chars().collect();
    let mut step = cur.len() / 2;
    let t = Instant::now();
    while step > 0 && t.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        let mut any = false;
        while i + step <= cur.len() {
            let cand: String = cur[..i].iter().chain(&cur[i + step..]).collect();
            if bad(&cand) { cur.drain(i..i + step); any = true } else { i += 1 }
        }
        if !any || step > cur.len() { step /= 2 }
    }
    cur.into_iter().collect()
}
fn shrink_choices(f: fn(&mut Ch) -> (String, R), v: &[u32], kf: &[String]) -> Vec<u32> {
    let bad = |v: &[u32]| matches!(run_struct(f, &mut Ch::replay(v)).1, Err(e) if !known(&e, kf));
    let mut cur = v.to_vec();
    if !bad(&cur) { return cur }
    let t = Instant::now();
    loop {
        let before = cur.clone();
        let mut step = (cur.len() / 2).max(1);
        while step > 0 {
            let mut i = 0;
            while i + step <= cur.len() && t.elapsed() < Duration::from_secs(10) {
                let cand: Vec<u32> = cur[..i].iter().chain(&cur[i + step..]).copied().collect();
                if bad(&cand) { cur = cand } else { i += 1 }
            }
            step /= 2;
        }
        for i in 0..cur.len() {
            for z in [0, cur[i] / 2, cur[i].saturating_sub(1)] {
                if z < cur[i] && t.elapsed() < Duration::from_secs(15) {
                    let old = cur[i];
                    cur[i] = z;
                    if bad(&cur) { break }
                    cur[i] = old;
                }
            }
        }
        while cur.last() == Some(&0) { let l = cur.pop().unwrap(); if !bad(&cur) { cur.push(l); break } }
        if cur == before || t.elapsed() > Duration::from_secs(15) { return cur }
    }
}

pub fn run(ps: Vec<Prop>, show: fn(&str)) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if std::env::var("ORACLE_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    if a.get(1).is_some_and(|x| x == "events") {
        for s in &a[2..] { show(s) }
        return;
    }
    let Some(p) = ps.iter().find(|p| Some(p.id) == a.get(1).map(|s| s.as_str())) else {
        eprintln!("unknown property");
        std::process::exit(3)
    };
    // oracle ID text FILE | choices "1 2 3" : one case; exit 1 if it violates
    if let Some(f) = get("text") {
        let s = std::fs::read_to_string(f).unwrap();
        match run_text(p.text.unwrap(), &s) { Ok(_) => println!("holds"), Err(e) => { println!("violated: {e}"); std::process::exit(1) } }
        return;
    }
    if let Some(v) = get("choices") {
        let v: Vec<u32> = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (d, r) = run_struct(p.structured.unwrap(), &mut Ch::replay(&v));
        println!("{d}");
        match r { Ok(_) => println!("holds"), Err(e) => { println!("violated: {e}"); std::process::exit(1) } }
        return;
    }
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(6);
    let kf: Vec<String> = get("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let evals = AtomicU64::new(0);
    let hits = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let ex_len = if thorough { p.exhaustive.1 } else { p.exhaustive.0 };
    let ex_total = if p.text.is_some() && ex_len > 0 { count(ex_len) } else { 0 };
    let ex_next = AtomicU64::new(0);
    let hs = RandomState::new();
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fails: Mutex<Vec<(Case, String)>> = Mutex::new(vec![]);
    if let Some(f) = p.single {
        let (d, r, n) = guard(f).unwrap_or_else(|e| ("(panicked)".into(), Err(e), 0));
        evals.fetch_add(n, Relaxed);
        match r { Err(e) if !known(&e, &kf) => { fails.lock().unwrap().push((Case::Single(d), e)); stop.store(true, Relaxed) } _ => {} }
    }
    let extra = if p.text.is_some() { (p.extra)() } else { vec![] };
    let ex2 = &extra;
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (evals, stop, ex_next, distinct, samples, fails, hs, kf, hits) = (&evals, &stop, &ex_next, &distinct, &samples, &fails, &hs, &kf, &hits);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                let mut local = HashSet::new();
                let mut n = 0u64;
                let mut seen = |d: &str, nt: bool, n: u64, local: &mut HashSet<u64>| {
                    if nt && local.len() < 400_000 { local.insert(hs.hash_one(d)); }
                    if nt && n % 997 == 3 { let mut s = samples.lock().unwrap(); if s.len() < 6 { s.push(d.chars().take(300).collect()) } }
                };
                let text = |s: &str, n: &mut u64, local: &mut HashSet<u64>, seen: &mut dyn FnMut(&str, bool, u64, &mut HashSet<u64>)| {
                    *n += 1;
                    match run_text(p.text.unwrap(), s) {
                        Ok(nt) => seen(s, nt, *n, local),
                        Err(e) if known(&e, kf) => { hits.fetch_add(1, Relaxed); }
                        Err(_) => {
                            if stop.swap(true, Relaxed) { return }
                            let m = shrink_text(p.text.unwrap(), s, kf);
                            let e = run_text(p.text.unwrap(), &m).err().unwrap_or_default();
                            fails.lock().unwrap().push((Case::Text(m), e));
                        }
                    }
                };
                if p.text.is_some() {
                    if th == 0 { for s in ex2 { text(s, &mut n, &mut local, &mut seen); if stop.load(Relaxed) { break } } }
                    while !stop.load(Relaxed) && ex_total > 0 {
                        let b = ex_next.fetch_add(256, Relaxed);
                        if b >= ex_total || Instant::now() > deadline { break }
                        for i in b..(b + 256).min(ex_total) { if let Some(s) = nth(i, ex_len) { text(&s, &mut n, &mut local, &mut seen) } }
                    }
                }
                let mut r = Rng(seed.wrapping_mul(1_000_003).wrapping_add(th * 7919));
                while !stop.load(Relaxed) && Instant::now() < deadline {
                    let s = r.next();
                    if p.text.is_some() && (p.structured.is_none() || s & 1 == 0) {
                        let mut c = Ch::random(s);
                        let t = if s & 2 == 0 && !ex2.is_empty() { mutate(&mut c, ex2) } else if s & 4 == 0 { doc::any_doc(&mut c) } else { soup(&mut c) };
                        let t = if s & 24 == 0 || (s & 8 == 0 && !dict().is_empty()) { vary(&mut c, &t) } else { t };
                        text(&t, &mut n, &mut local, &mut seen);
                    } else if let Some(f) = p.structured {
                        let mut c = Ch::random(s);
                        n += 1;
                        let (d, r) = run_struct(f, &mut c);
                        match r {
                            Ok(nt) => seen(&d, nt, n, &mut local),
                            Err(e) if known(&e, kf) => { hits.fetch_add(1, Relaxed); }
                            Err(_) => {
                                if stop.swap(true, Relaxed) { break }
                                let v = shrink_choices(f, &c.log, kf);
                                let (d, r) = run_struct(f, &mut Ch::replay(&v));
                                fails.lock().unwrap().push((Case::Choices(v, d), r.err().unwrap_or_default()));
                            }
                        }
                    } else { break }
                }
                evals.fetch_add(n, Relaxed);
                distinct.lock().unwrap().extend(local);
            }).unwrap();
        }
    });
    let ex_done = ex_total > 0 && ex_next.load(Relaxed) >= ex_total && !stop.load(Relaxed);
    let mut o = String::from("{");
    o += &format!("\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"known_hits\":{},\"rule\":{},", esc(p.id), evals.load(Relaxed), distinct.lock().unwrap().len(), hits.load(Relaxed), esc(p.rule));
    o += &format!("\"exhaustive_len\":{ex_len},\"exhaustive_total\":{ex_total},\"exhaustive_done\":{ex_done},\"seconds\":{:.2},", t0.elapsed().as_secs_f64());
    o += &format!("\"samples\":[{}],", samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let fs: Vec<String> = fails.lock().unwrap().iter().map(|(c, e)| match c {
        Case::Text(t) => format!("{{\"kind\":\"text\",\"input\":{},\"detail\":{}}}", esc(t), esc(e)),
        Case::Choices(v, d) => format!("{{\"kind\":\"choices\",\"input\":{},\"display\":{},\"detail\":{}}}", esc(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")), esc(d), esc(e)),
        Case::Single(d) => format!("{{\"kind\":\"single\",\"input\":{},\"detail\":{}}}", esc(d), esc(e)),
    }).collect();
    o += &format!("\"failures\":[{}]}}", fs.join(","));
    println!("{o}");
}

/// Corpus text with a few random edits.
fn mutate(c: &mut Ch, corpus: &[String]) -> String {
    let mut v: Vec<char> = c.pick(corpus).chars().collect();
    if v.len() > 400 { let a = c.below(v.len() - 400); v = v[a..a + 400].to_vec() }
    for _ in 0..c.below(4) {
        let i = c.below(v.len() + 1);
        match c.below(4) {
            0 => { let j = (i + 1 + c.below(4)).min(v.len()); if i < j { v.drain(i..j); } }
            1 => { let f: Vec<char> = c.pick(SOUP).chars().collect(); v.splice(i..i, f); }
            2 => { let f: Vec<char> = c.pick(FRAG).chars().collect(); v.splice(i..i, f); }
            _ => { if !v.is_empty() { let a = c.below(v.len()); let b = (a + 1 + c.below(12)).min(v.len()); let w = v[a..b].to_vec(); v.splice(i..i, w); } }
        }
    }
    v.into_iter().collect()
}
