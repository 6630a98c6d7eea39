//! C16: grammar values compare, hash, clone, order and serialise by their contents.
use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::{Expression, Grammar, Production, Term};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn show<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(300).collect()
}

/// `a` and `b` are built from contents that are equal exactly when `eq`; `parts` reads the contents back.
fn value<T, C>(what: &str, a: &T, b: &T, eq: bool, parts: impl Fn(&T) -> C) -> Result<(), String>
where
    T: Clone + Eq + Hash + std::fmt::Debug + Serialize + DeserializeOwned,
    C: Eq + std::fmt::Debug,
{
    if (a == b) != eq || (b == a) != eq || (a != b) == eq {
        return Err(format!("{what}: == is {} on {} and {}", a == b, show(a), show(b)));
    }
    #[allow(clippy::eq_op)]
    if a != a {
        return Err(format!("{what}: {} is not equal to itself", show(a)));
    }
    if eq && hash(a) != hash(b) {
        return Err(format!("{what}: equal values {} hash differently", show(a)));
    }
    for x in [a, b] {
        let c = x.clone();
        if parts(&c) != parts(x) || c != *x || hash(&c) != hash(x) {
            return Err(format!("{what}: the clone of {} is {}", show(x), show(&c)));
        }
        let mut d = if x == a { b.clone() } else { a.clone() };
        d.clone_from(x);
        if parts(&d) != parts(x) {
            return Err(format!("{what}: clone_from {} gave {}", show(x), show(&d)));
        }
        let s = serde_json::to_string(x).map_err(|e| format!("{what}: {} not serialised: {e}", show(x)))?;
        let r: T = serde_json::from_str(&s).map_err(|e| format!("{what}: {} serialised as {s:?}, which is not read back: {e}", show(x)))?;
        if parts(&r) != parts(x) || r != *x {
            return Err(format!("{what}: {} serialised as {s:?}, read back as {}", show(x), show(&r)));
        }
        let v = serde_json::to_value(x).map_err(|e| format!("{what}: {} not serialised: {e}", show(x)))?;
        let r: T = serde_json::from_value(v.clone()).map_err(|e| format!("{what}: {} serialised as {v}, which is not read back: {e}", show(x)))?;
        if parts(&r) != parts(x) || r != *x {
            return Err(format!("{what}: {} serialised as {v}, read back as {}", show(x), show(&r)));
        }
    }
    if serde_json::to_string(a).ok() == serde_json::to_string(b).ok() && !eq {
        return Err(format!("{what}: {} and {} serialise to the same text", show(a), show(b)));
    }
    Ok(())
}

fn order<T: Ord + std::fmt::Debug>(what: &str, a: &T, b: &T, c: &T) -> Result<(), String> {
    if a.partial_cmp(b) != Some(a.cmp(b)) || (a.cmp(b) == std::cmp::Ordering::Equal) != (a == b) || a.cmp(b) != b.cmp(a).reverse() {
        return Err(format!("{what}: {} and {} compare as {:?}, {:?} the other way round", show(a), show(b), a.cmp(b), b.cmp(a)));
    }
    if a <= b && b <= c && a > c {
        return Err(format!("{what}: the order of {}, {}, {} is no order", show(a), show(b), show(c)));
    }
    Ok(())
}

type Ts = Vec<Term>;
type Pr = (Term, Vec<Ts>);
fn key(x: &Term) -> (bool, String) {
    match x {
        Term::Terminal(s) => (true, s.clone()),
        Term::Nonterminal(s) => (false, s.clone()),
    }
}
fn ekey(e: &Expression) -> Vec<(bool, String)> {
    e.terms_iter().map(key).collect()
}
fn pkey(p: &Production) -> ((bool, String), Vec<Vec<(bool, String)>>) {
    (key(&p.lhs), p.rhs_iter().map(ekey).collect())
}
fn tkeys(x: &[Term]) -> Vec<(bool, String)> {
    x.iter().map(key).collect()
}
fn prkey(p: &Pr) -> ((bool, String), Vec<Vec<(bool, String)>>) {
    (key(&p.0), p.1.iter().map(|a| tkeys(a)).collect())
}
fn prod(p: &Pr) -> Production {
    Production::from_parts(p.0.clone(), p.1.iter().cloned().map(Expression::from_parts).collect())
}

fn check(a: &[Pr], b: &[Pr]) -> Result<(), String> {
    let (ga, gb) = (Grammar::from_parts(a.iter().map(prod).collect()), Grammar::from_parts(b.iter().map(prod).collect()));
    let eq = a.iter().map(prkey).eq(b.iter().map(prkey));
    value("grammar", &ga, &gb, eq, |g: &Grammar| g.productions_iter().map(pkey).collect::<Vec<_>>())?;
    // parts, pairwise: the first few and the last
    let pick = |n: usize| (0..n).filter(move |i| *i < 3 || i + 1 == n);
    for i in pick(a.len()) {
        for j in pick(b.len()) {
            value("production", &prod(&a[i]), &prod(&b[j]), prkey(&a[i]) == prkey(&b[j]), pkey)?;
            for k in pick(a[i].1.len()) {
                for l in pick(b[j].1.len()) {
                    let (x, y) = (&a[i].1[k], &b[j].1[l]);
                    let (ex, ey) = (Expression::from_parts(x.clone()), Expression::from_parts(y.clone()));
                    value("expression", &ex, &ey, tkeys(x) == tkeys(y), ekey)?;
                    order("expression", &ex, &ey, &Expression::from_parts(a[i].1[0].clone()))?;
                    for m in pick(x.len()) {
                        for n in pick(y.len()) {
                            value("term", &x[m], &y[n], key(&x[m]) == key(&y[n]), key)?;
                            order("term", &x[m], &y[n], &x[0])?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn values(cx: &mut Ctx) -> &'static str {
    // past the sizes of the random values: alike but for one place
    for n in [12usize, 40, 70, 130, 260, 520, 1100, 5000] {
        let name = |i: usize| nt(&format!("n{i}"));
        let tx = |i: usize| t(&format!("t{i}"));
        let shapes: Vec<(&str, Vec<Pr>)> = vec![
            ("terms", vec![(nt("s"), vec![(0..n).map(|i| if i % 2 == 0 { name(i) } else { tx(i) }).collect()])]),
            ("equal terms", vec![(nt("s"), vec![vec![t("x"); n]])]),
            ("alternatives", vec![(nt("s"), (0..n).map(|i| vec![tx(i)]).collect())]),
            ("empty alternatives", vec![(nt("s"), vec![vec![]; n])]),
            ("productions", (0..n).map(|i| (name(i), vec![vec![tx(i), name((i + 1) % n)]])).collect()),
            ("equal productions", vec![(nt("s"), vec![vec![t("x")], vec![]]); n]),
            ("characters", vec![(nt(&"é\"".repeat(n)), vec![vec![t(&"\\\u{1}".repeat(n)), nt(&"\u{1f600}\n".repeat(n))]])]),
        ];
        for (what, p) in &shapes {
            for at in 0..8 {
                let mut q = p.clone();
                let change = |x: &mut Term| *x = match &*x { Term::Terminal(s) => t(&format!("{s}'")), Term::Nonterminal(s) => nt(&format!("{s}'")) };
                match at {
                    0 => {}
                    1 => change(&mut q.last_mut().unwrap().0),
                    2 => q.last_mut().unwrap().1.push(vec![]),
                    3 => q.push((nt("s"), vec![])),
                    4 => q.reverse(),
                    5 => q.last_mut().unwrap().1.reverse(),
                    6 => { q.pop(); }
                    _ => if let Some(x) = q.last_mut().unwrap().1.last_mut().unwrap().last_mut() { change(x) },
                }
                cx.case(&format!("large: {n} {what}, difference {at}"), true, AssertUnwindSafe(|| check(p, &q)));
            }
        }
    }
    let mut rng = cx.rng(16);
    let limit = if cx.thorough { 1_000_000 } else { 60_000 };
    let texts = ["", "a", "b", "A", "a ", "é", "e\u{301}", "'", "\"", "\\", "\n", "\u{0}", "\u{1f600}", "null", "1", "true", "{}", "Terminal", "aa", "\u{fffd}", "<a>", "lhs"];
    let term = |rng: &mut Rng| { let s = *rng.pick(&texts); if rng.chance(1, 2) { t(s) } else { nt(s) } };
    for _ in 0..limit {
        if !cx.time_left() {
            break;
        }
        let a: Vec<Pr> = (0..rng.below(4)).map(|_| (term(&mut rng), (0..rng.below(4)).map(|_| (0..rng.below(4)).map(|_| term(&mut rng)).collect()).collect())).collect();
        let mut b = a.clone();
        // none, one or two small changes
        for _ in 0..rng.below(3) {
            let i = rng.below(b.len() + 1);
            if i == b.len() {
                if rng.chance(1, 2) { b.push((term(&mut rng), vec![])) } else { b.reverse() }
                continue;
            }
            let p = &mut b[i];
            let j = rng.below(p.1.len() + 1);
            if j == p.1.len() {
                match rng.below(4) {
                    0 => p.0 = term(&mut rng),
                    1 => p.1.push(vec![]),
                    2 => p.1.reverse(),
                    _ => { p.1.pop(); }
                }
                continue;
            }
            let e = &mut p.1[j];
            match rng.below(4) {
                0 => e.push(term(&mut rng)),
                1 => e.reverse(),
                2 => { e.pop(); }
                _ => if let Some(x) = e.last_mut() {
                    *x = match &*x { Term::Terminal(s) => nt(s), Term::Nonterminal(s) => t(s) };
                },
            }
        }
        let desc = format!("values {a:?} and {b:?}");
        cx.case(&desc, a != b || !a.is_empty(), AssertUnwindSafe(|| check(&a, &b)));
    }
    "pairs of grammars of up to 5000 productions, alternatives or terms that differ in at most one place, then random pairs that differ in up to two; equality, hash, clone, order and serde_json round trip of the grammars and of their productions, expressions and terms; non-trivial: at least one production"
}
