//! Tries the contracts that specs/shim.vspec, specs/nomshim.vspec and specs/genbase.vspec ASSUME of std,
//! hashbrown, nom and rand on the real libraries: exhaustively over `char` where the contract speaks of one
//! character, and on short texts/sequences otherwise. A sample of the trusted base, not a proof of it.
use nom::{bytes::complete::{tag, take_till, take_until}, character::complete::{char as nchar, satisfy}, combinator::eof, IResult, Parser};
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::fmt::Write;

fn white(c: char) -> bool {
    ('\u{9}' <= c && c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200a}') || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
fn cs(s: &str) -> Vec<char> { s.chars().collect() }
fn dec(n: u128) -> Vec<char> {
    let d = (b'0' + (n % 10) as u8) as char;
    if n < 10 { vec![d] } else { let mut v = dec(n / 10); v.push(d); v }
}
/// vstd's encode_utf8, written out from the definition of UTF-8.
fn bs(s: &[char]) -> Vec<u8> {
    let mut r = vec![];
    for &c in s {
        let c = c as u32;
        if c < 0x80 { r.push(c as u8) }
        else if c < 0x800 { r.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]) }
        else if c < 0x10000 { r.extend([0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]) }
        else { r.extend([0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]) }
    }
    r
}
fn texts() -> Vec<String> {
    let alpha = ['a', 'b', '<', '>', '"', ' ', '\n', 'é', '\u{2003}', '😀', ';', '|'];
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..4 {
        let mut next = vec![];
        for t in &last { for c in alpha { next.push(format!("{t}{c}")); } }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
type R<'a, O> = IResult<&'a str, O>;

fn main() {
    let mut n: u64 = 0;
    macro_rules! ok { ($e:expr, $($w:tt)*) => { n += 1; if !$e { println!("ASSUMPTION-FAILED {}", format!($($w)*)); std::process::exit(1); } } }
    // every character
    for c in '\0'..=char::MAX {
        ok!(c.is_whitespace() == white(c), "is_whitespace {c:?}");
        if c.is_alphabetic() {
            ok!(!"([)]\"'<>;=/|:".contains(c) && !white(c), "is_alphabetic {c:?}");
        }
        let s = c.to_string();
        ok!(s.as_bytes() == bs(&[c]) && s.len() == bs(&[c]).len() && cs(&s) == [c], "utf8 {c:?}");
        let r: R<char> = nchar(c).parse(&s);
        ok!(r == Ok(("", c)), "nom char {c:?}");
    }
    let all = texts();
    for t in &all {
        let v = cs(t);
        let b = bs(&v);
        ok!(t.as_bytes() == b && t.len() == b.len() && t.is_empty() == v.is_empty(), "len {t:?}");
        // get(i..) is Some exactly at character boundaries, and is the tail of the bytes
        for i in 0..=b.len() + 1 {
            let bound = i <= b.len() && std::str::from_utf8(&b[..i]).is_ok() && std::str::from_utf8(&b[i.min(b.len())..]).is_ok();
            match t.get(i..) {
                Some(x) => { ok!(bound && x.as_bytes() == &b[i..], "get {t:?} {i}"); }
                None => { ok!(!bound, "get {t:?} {i}"); }
            }
        }
        for p in all.iter().take(157) {
            ok!(t.starts_with(p.as_str()) == b.starts_with(&bs(&cs(p))), "starts_with {t:?} {p:?}");
            let r: R<&str> = tag(p.as_str()).parse(t);
            let st = v.starts_with(&cs(p));
            match r {
                Ok((q, _)) => { ok!(st && cs(q) == v[cs(p).len()..], "tag {t:?} {p:?}"); }
                Err(nom::Err::Error(_)) => { ok!(!st, "tag {t:?} {p:?}"); }
                Err(_) => { ok!(false, "tag {t:?} {p:?}"); }
            }
        }
        let k = v.iter().position(|c| !white(*c)).unwrap_or(v.len());
        ok!(cs(t.trim_start()) == v[k..], "trim_start {t:?}");
        let is = |c: char| c == ' ' || c == '\n' || c == 'é';
        let k = v.iter().position(|c| !is(*c)).unwrap_or(v.len());
        ok!(cs(t.trim_start_matches(is)) == v[k..], "trim_start_matches {t:?}");
        let r: R<&str> = take_till(|c| !is(c)).parse(t);
        ok!(matches!(r, Ok((q, o)) if cs(o) == v[..k] && cs(q) == v[k..]), "take_till {t:?}");
        let r: R<char> = satisfy(is).parse(t);
        match r {
            Ok((q, o)) => { ok!(!v.is_empty() && is(v[0]) && o == v[0] && cs(q) == v[1..], "satisfy {t:?}"); }
            Err(nom::Err::Error(_)) => { ok!(v.is_empty() || !is(v[0]), "satisfy {t:?}"); }
            Err(_) => { ok!(false, "satisfy {t:?}"); }
        }
        let r: R<&str> = eof.parse(t);
        match r {
            Ok((q, _)) => { ok!(v.is_empty() && q.is_empty(), "eof {t:?}"); }
            Err(nom::Err::Error(_)) => { ok!(!v.is_empty(), "eof {t:?}"); }
            Err(_) => { ok!(false, "eof {t:?}"); }
        }
        for c in ['<', '"', 'é', '\u{2003}', '😀', ';'] {
            match t.strip_prefix(c) {
                Some(x) => { ok!(v[0] == c && cs(x) == v[1..], "strip_prefix {t:?} {c:?}"); }
                None => { ok!(v.first() != Some(&c), "strip_prefix {t:?} {c:?}"); }
            }
            let at = v.iter().position(|x| *x == c);
            match t.find(c) {
                Some(b) => { ok!(at.is_some_and(|k| cs(&t[b..]) == v[k..]), "find {t:?} {c:?}"); }
                None => { ok!(at.is_none(), "find {t:?} {c:?}"); }
            }
            let at2 = v.iter().position(|x| *x == c || *x == 'a');
            match t.find([c, 'a']) {
                Some(b) => { ok!(at2.is_some_and(|k| cs(&t[b..]) == v[k..]), "find2 {t:?} {c:?}"); }
                None => { ok!(at2.is_none(), "find2 {t:?} {c:?}"); }
            }
            ok!(t.contains(c) == v.contains(&c) && t.contains([c, 'a']) == (v.contains(&c) || v.contains(&'a')), "contains {t:?} {c:?}");
            let cstr = c.to_string();
            let r: R<&str> = take_until(cstr.as_str()).parse(t);
            match (r, at) {
                (Ok((q, o)), Some(k)) => { ok!(cs(o) == v[..k] && cs(q) == v[k..], "take_until {t:?} {c:?}"); }
                (Err(nom::Err::Error(_)), None) => {}
                _ => { ok!(false, "take_until {t:?} {c:?}"); }
            }
            let r: R<char> = nchar(c).parse(t);
            match r {
                Ok((q, o)) => { ok!(o == c && v[0] == c && cs(q) == v[1..], "nom char {t:?} {c:?}"); }
                Err(nom::Err::Error(_)) => { ok!(v.first() != Some(&c), "nom char {t:?} {c:?}"); }
                Err(_) => { ok!(false, "nom char {t:?} {c:?}"); }
            }
        }
        // formatting appends exactly the text
        let mut s = String::from("x");
        let r = write!(s, "{t}");
        ok!(r.is_ok() && s == ["x", t].concat() && t.to_string() == *t && String::from(t.as_str()) == *t, "write {t:?}");
    }
    // decimal Display
    let edges = [9usize, 10, 11, 99, 100, 101, 999, 1000, u32::MAX as usize, usize::MAX, usize::MAX - 1];
    for k in (0..20000).chain(edges) {
        ok!(cs(&k.to_string()) == dec(k as u128) && cs(&(k as u32).to_string()) == dec(k as u32 as u128), "Display {k}");
    }
    // sequences
    let mut rng = StdRng::from_seed([7; 32]);
    for _ in 0..20000 {
        let v: Vec<u8> = (0..rng.random_range(0..7usize)).map(|_| rng.random_range(0..6u32) as u8).collect();
        let x = rng.random_range(0..6u32) as u8;
        let i = rng.random_range(0..9usize);
        match v.binary_search(&x) {
            Ok(k) => { ok!(k < v.len() && v[k] == x, "binary_search {v:?} {x}"); }
            Err(k) => { ok!(k <= v.len(), "binary_search {v:?} {x}"); }
        }
        ok!(v.get(i) == (if i < v.len() { Some(&v[i]) } else { None }), "get");
        ok!(v.get(i..).map(|s| s.to_vec()) == (if i <= v.len() { Some(v.iter().skip(i).copied().collect()) } else { None }), "get from");
        ok!(v.contains(&x) == v.iter().any(|y| *y == x), "contains");
        ok!(v.iter().take(i).count() == i.min(v.len()), "take");
        ok!(v.iter().enumerate().all(|(k, y)| v[k] == *y), "enumerate");
        let p = v.iter().position(|y| *y == x);
        ok!(p.is_none_or(|p| v[p] == x && !v[..p].contains(&x)) && p.is_some() == v.contains(&x), "position");
        ok!(v.iter().find(|y| **y >= x).copied() == v.iter().copied().filter(|y| *y >= x).next(), "find");
        // maps and sets against association lists
        let mut m = hashbrown::HashMap::new();
        let mut l: Vec<(u8, usize)> = vec![];
        for (k, y) in v.iter().enumerate() {
            let old = l.iter().find(|e| e.0 == *y).map(|e| e.1);
            if k % 3 == 2 {
                l.retain(|e| e.0 != *y);
                ok!(m.remove(y) == old, "map remove");
            } else {
                l.retain(|e| e.0 != *y);
                l.push((*y, k));
                ok!(m.insert(*y, k) == old, "map insert");
            }
            ok!(m.len() == l.len() && m.is_empty() == l.is_empty(), "map len");
            for z in 0..6 {
                let w = l.iter().find(|e| e.0 == z).map(|e| e.1);
                ok!(m.get(&z).copied() == w && m.contains_key(&z) == w.is_some(), "map get");
            }
        }
        let mut e: hashbrown::HashMap<u8, Vec<usize>> = hashbrown::HashMap::new();
        for (k, y) in v.iter().enumerate() { e.entry(*y).or_default().push(k); }
        for z in 0..6u8 {
            let w: Vec<usize> = (0..v.len()).filter(|k| v[*k] == z).collect();
            ok!(e.get(&z).cloned().unwrap_or_default() == w, "entry or_default");
        }
        let w: Vec<u8> = (0..rng.random_range(0..5usize)).map(|_| rng.random_range(0..6u32) as u8).collect();
        let (mut a, mut b) = (hashbrown::HashSet::new(), hashbrown::HashSet::new());
        for y in &v { let had = a.contains(y); ok!(a.insert(*y) != had, "set insert"); }
        for y in &w { b.insert(*y); }
        let d: Vec<u8> = a.difference(&b).copied().collect();
        for z in 0..6 { ok!(d.contains(&z) == (v.contains(&z) && !w.contains(&z)), "difference"); }
        let had = a.contains(&x);
        ok!(a.remove(&x) == had && !a.contains(&x), "set remove");
        // rand: in range, and the value and next state are a function of the state
        let mut r1 = StdRng::from_seed([x; 32]);
        let mut r2 = StdRng::from_seed([x; 32]);
        let m = 1 + i;
        let (p, q) = (r1.random_range(0..m), r2.random_range(0..m));
        ok!(p == q && p < m && r1 == r2, "random_range");
        let (p, q) = (r1.random_range(3..3 + m as u64), r2.random_range(3..3 + m as u64));
        ok!(p == q && 3 <= p && p < 3 + m as u64 && r1 == r2, "random_range u64");
        let (mut s1, mut s2) = ([0u8; 32], [1u8; 32]);
        r1.fill(&mut s1);
        r2.fill(&mut s2);
        ok!(s1 == s2 && r1 == r2, "fill");
    }
    // a draw over n values is (statistically) uniform: chi-square well below the 1e-6 quantile
    for m in 2..12usize {
        let mut c = vec![0f64; m];
        let mut r = StdRng::from_seed([m as u8; 32]);
        for _ in 0..100_000 { c[r.random_range(0..m)] += 1.0; }
        let e = 100_000.0 / m as f64;
        let chi: f64 = c.iter().map(|x| (x - e) * (x - e) / e).sum();
        ok!(chi < 60.0, "uniform {m}: {chi}");
    }
    println!("{{\"assumption_samples\": {n}}}");
}
