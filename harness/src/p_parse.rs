//! C01–C03: trees returned by the parser against an independent enumeration of derivations.
use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::Term;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Sound,
    Complete,
    Unique,
}

const CAP: usize = 400;

fn inputs(rng: &mut Rng, g: &G, terminals: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        let mut s = String::new();
        if rng.chance(1, 2) {
            // a random derivation, so that accepted inputs are common
            let start = g.0[0].0.clone();
            derive(rng, g, &start, 0, &mut s);
            if s.len() > 10 {
                s.clear();
            }
        }
        if s.is_empty() {
            for _ in 0..1 + rng.below(5) {
                s.push_str(*rng.pick(terminals));
            }
        }
        if rng.chance(1, 12) {
            s.push_str(*rng.pick(&["x", "é", "ab", "\u{301}", " ", "\n"]));
        }
        // near misses: drop, change case, trim
        if rng.chance(1, 6) {
            s = match rng.below(5) {
                0 => s.to_uppercase(),
                1 => s.trim().to_string(),
                2 => s.replace(char::is_whitespace, ""),
                3 => s.chars().skip(1).collect(),
                _ => {
                    let n = s.chars().count();
                    s.chars().take(n.saturating_sub(1)).collect()
                }
            };
        }
        v.push(s);
    }
    v.sort();
    v.dedup();
    v
}

fn derive(rng: &mut Rng, g: &G, x: &Term, depth: usize, out: &mut String) {
    if out.len() > 12 || depth > 12 {
        return;
    }
    match x {
        Term::Terminal(s) => out.push_str(s),
        Term::Nonterminal(_) => {
            let alts: Vec<&Vec<Term>> = g.0.iter().filter(|p| &p.0 == x).flat_map(|p| p.1.iter()).collect();
            if alts.is_empty() {
                return;
            }
            let a = if depth > 4 {
                alts.iter().min_by_key(|a| a.iter().filter(|t| matches!(t, Term::Nonterminal(_))).count()).unwrap()
            } else {
                *rng.pick(&alts)
            };
            for y in a.iter() {
                derive(rng, g, y, depth + 1, out);
            }
        }
    }
}

/// Grammars and inputs past the sizes of the random cases: (what, grammar, input, start, number of derivation trees)
fn large(thorough: bool) -> Vec<(String, G, String, Option<Term>, usize)> {
    let s = nt("s");
    let c = nt("c");
    let mut v: Vec<(String, G, String, Option<Term>, usize)> = vec![];
    for n in if thorough { vec![300, 1000, 5000, 30000, 150000, 400000] } else { vec![300, 1000, 5000, 20000, 100000] } {
        let g = G(vec![(s.clone(), vec![vec![s.clone(), t("a")], vec![t("a")]])]);
        v.push((format!("<s> ::= <s> 'a' | 'a' on {n} x a"), g.clone(), "a".repeat(n), None, 1));
        v.push((format!("<s> ::= <s> 'a' | 'a' on {n} x a, then b"), g, "a".repeat(n) + "b", None, 0));
    }
    // one nonterminal predicted at every position, tokens of 1, 7 and 64 bytes
    for (w, n) in [(1usize, 600usize), (7, 600), (64, 1100), (3, 40000)] {
        let (x, y) = ("x".repeat(w), "y".repeat(w - 1) + "z");
        let g = G(vec![(s.clone(), vec![vec![s.clone(), c.clone()], vec![c.clone()]]), (c.clone(), vec![vec![t(&x)], vec![t(&y)]])]);
        let input: String = (0..n).map(|i| if i % 3 == 0 { y.as_str() } else { x.as_str() }).collect();
        v.push((format!("<s> ::= <s> <c> | <c>, <c> one of two tokens of {w} bytes, {n} tokens"), g.clone(), input.clone(), None, 1));
        v.push((format!("<s> ::= <s> <c> | <c>, <c> one of two tokens of {w} bytes, {n} tokens, last byte missing"), g, input[..input.len() - 1].to_string(), None, if w == 1 { 1 } else { 0 }));
    }
    for n in [40usize, 150, 300] {
        let g = G(vec![(s.clone(), vec![vec![t("a"), s.clone()], vec![t("a")]])]);
        v.push((format!("<s> ::= 'a' <s> | 'a' on {n} x a"), g, "a".repeat(n), None, 1));
        let g = G(vec![(s.clone(), vec![vec![t("("), s.clone(), t(")")], vec![t("é")]])]);
        v.push((format!("{n} nested brackets"), g.clone(), "(".repeat(n) + "é" + &")".repeat(n), None, 1));
        v.push((format!("{n} nested brackets, one too many closed"), g, "(".repeat(n) + "é" + &")".repeat(n + 1), None, 0));
        let g = G(vec![(s.clone(), vec![vec![nt("e"), s.clone(), t("a")], vec![t("a")]]), (nt("e"), vec![vec![t("")]])]);
        v.push((format!("<s> ::= <e> <s> 'a' | 'a', <e> ::= '' on {n} x a"), g, "a".repeat(n), None, 1));
    }
    for n in [20usize, 70, 140, 300, 1100, 2500, 5000] {
        // many alternatives
        let g = G(vec![(s.clone(), vec![vec![s.clone(), c.clone()], vec![c.clone()]]), (c.clone(), (0..n).map(|i| vec![t(&format!("t{i};"))]).collect())]);
        let input: String = [0, n - 1, n / 2, n - 1, n / 3, 0].iter().map(|i| format!("t{i};")).collect();
        v.push((format!("<c> with {n} alternatives"), g, input, None, 1));
        // many productions, also of the same left hand side
        let mut p = vec![(s.clone(), vec![vec![nt("n0"), nt(&format!("n{}", n - 1))]])];
        p.extend((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![t(&format!("t{i};"))]])));
        v.push((format!("{n} nonterminals"), G(p.clone()), format!("t0;t{};", n - 1), None, 1));
        v.push((format!("{n} nonterminals, started at the last"), G(p), format!("t{};", n - 1), Some(nt(&format!("n{}", n - 1))), 1));
        let mut p = vec![(s.clone(), vec![vec![c.clone(), c.clone()]])];
        p.extend((0..n).map(|i| (c.clone(), vec![vec![t(&format!("t{i};"))]])));
        v.push((format!("<c> defined by {n} productions"), G(p), format!("t{};t{};", n - 1, n / 2), None, 1));
        // a long alternative
        let a: Vec<Term> = (0..n).map(|i| if i % 2 == 0 { t(&format!("t{i};")) } else { nt("c") }).collect();
        let g = G(vec![(s.clone(), vec![a]), (c.clone(), vec![vec![t("c")], vec![t("cc")]])]);
        let input: String = (0..n).map(|i| if i % 2 == 0 { format!("t{i};") } else { "c".repeat(1 + i % 4 / 2) }).collect();
        v.push((format!("an alternative of {n} terms"), g.clone(), input.clone(), None, 1));
        v.push((format!("an alternative of {n} terms, input too long"), g, input + "c", None, 0));
        // a chain of nonterminals
        let mut p = vec![(s.clone(), vec![vec![nt("n0")]])];
        p.extend((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![if i + 1 < n { nt(&format!("n{}", i + 1)) } else { t("x") }]])));
        v.push((format!("a chain of {n} nonterminals"), G(p), "x".into(), None, 1));
        // many ways
        let mut p = vec![(s.clone(), (0..n).map(|i| vec![nt(&format!("n{i}"))]).collect())];
        p.extend((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![t("a")]])));
        v.push((format!("{n} ways of deriving a"), G(p), "a".into(), None, n));
        let g = G(vec![(s.clone(), vec![vec![c.clone(), t("!")]]), (c.clone(), (0..n.min(300)).map(|i| vec![t(&"b".repeat(i)), t(&"b".repeat(n.min(300) - i))]).collect())]);
        v.push((format!("{} ways of splitting b", n.min(300)), g, "b".repeat(n.min(300)) + "!", None, n.min(300)));
        // long terminals
        let x = "é".repeat(n * 20);
        let g = G(vec![(s.clone(), vec![vec![t(&x), t("x")], vec![t(&x), t("é")]])]);
        v.push((format!("a terminal of {} bytes", x.len()), g.clone(), x.clone() + "x", None, 1));
        v.push((format!("a terminal of {} bytes cut short", x.len()), g.clone(), x[..x.len() - 2].to_string(), None, 0));
        v.push((format!("a terminal of {} bytes, one more character", x.len()), g, x.clone() + "é", None, 1));
    }
    for n in [3usize, 40, 100, 3000] {
        // a terminal longer than what is left of the input
        let x: String = (0..n).map(|i| (b'a' + (i % 7) as u8) as char).collect();
        let g = G(vec![(s.clone(), vec![vec![c.clone()], vec![t("!"), c.clone()]]), (c.clone(), vec![vec![t(&x)], vec![t(&(x.clone() + "?"))]])]);
        for k in [1, n / 2, n - 1] {
            v.push((format!("a terminal of {n} bytes, input its first {k}"), g.clone(), x[..k].to_string(), None, 0));
            v.push((format!("'!' and a terminal of {n} bytes, input '!' and its first {k}"), g.clone(), "!".to_string() + &x[..k], None, 0));
        }
        v.push((format!("'!' and a terminal of {n} bytes"), g.clone(), "!".to_string() + &x, None, 1));
        // empty nonterminals after much work
        let e = nt("e");
        let l = (nt("l"), vec![vec![nt("l"), t("a")], vec![t("a")]]);
        let g = G(vec![(s.clone(), vec![vec![nt("l"), e.clone(), e.clone(), e.clone()]]), l.clone(), (e.clone(), vec![vec![t("")]])]);
        v.push((format!("<l> <e> <e> <e> with <e> empty on {n} x a"), g, "a".repeat(n), None, 1));
        let g = G(vec![(s.clone(), vec![vec![nt("l"), e.clone(), t("b"), e.clone(), t("b"), e.clone()]]), l, (e.clone(), vec![vec![nt("f"), nt("f")], vec![t("b")]]), (nt("f"), vec![vec![t("")]])]);
        v.push((format!("<l> <e> b <e> b <e> with <e> empty or b on {n} x a and bbb"), g, "a".repeat(n) + "bbb", None, 3));
        // cyclic: as many derivations as one asks for
        let pad = (0..n.min(100)).map(|i| (nt(&format!("p{i}")), vec![vec![t("p")]]));
        let mut p = vec![(s.clone(), vec![vec![s.clone()], vec![t("a")]])];
        p.extend(pad.clone());
        v.push((format!("<s> ::= <s> | 'a' on a, {} productions", p.len()), G(p), "a".into(), None, 30));
        let mut p = vec![(s.clone(), vec![vec![c.clone(), e.clone()], vec![t("a")]]), (c.clone(), vec![vec![s.clone()]]), (e.clone(), vec![vec![t("")]])];
        p.extend(pad);
        v.push((format!("<s> ::= <c> <e> | 'a', <c> ::= <s>, <e> ::= '' on a, {} productions", p.len()), G(p), "a".into(), None, 30));
    }
    // the same below another start rule, between empty nonterminals
    let wrapped: Vec<_> = v.iter().filter(|x| x.3.is_none() && x.2.len() < 8000 && x.1.0.len() < 1200 && x.4 < 1000).map(|(d, g, i, _, k)| {
        let (top, z) = (nt("top"), nt("zero"));
        let mut p = vec![(top, vec![vec![z.clone(), g.0[0].0.clone(), z.clone()]]), (z, vec![vec![t("")]])];
        p.extend(g.0.iter().cloned());
        (format!("{d}, below <top> ::= <zero> <{{start}}> <zero>"), G(p), i.clone(), None, *k)
    }).collect();
    v.extend(wrapped);
    for (n, k) in [(4usize, 5usize), (6, 42), (7, 132), (8, 429), (10, 4862)] {
        let g = G(vec![(s.clone(), vec![vec![s.clone(), s.clone()], vec![t("a")]])]);
        v.push((format!("<s> ::= <s> <s> | 'a' on {n} x a"), g, "a".repeat(n), None, k));
    }
    v
}

fn run_large(cx: &mut Ctx, what: What) {
    for (name, g, input, st, n) in large(cx.thorough) {
        let flat = g.flat();
        let start = st.clone().unwrap_or(g.0[0].0.clone());
        for deprecated in [false, true] {
            let desc = format!("large: {name}{}", if deprecated { " via Grammar::parse_input" } else { "" });
            let (g, flat, input, st, start) = (&g, &flat, input.as_str(), st.as_ref(), &start);
            cx.case(&desc, if what == What::Unique { n > 1 } else { n > 0 }, std::panic::AssertUnwindSafe(|| check_large(g, flat, input, st, start, n, what, deprecated)));
        }
    }
}

#[allow(deprecated)]
fn check_large(g: &G, flat: &Flat, input: &str, st: Option<&Term>, start: &Term, n: usize, what: What, deprecated: bool) -> Result<(), String> {
    let gr = g.build();
    let parser = gr.build_parser().map_err(|e| format!("build_parser: {e}"))?;
    let lim = n * 2 + 50;
    let trees: Vec<bnf::ParseTree> = match (deprecated, st) {
        (false, None) => parser.parse_input(input).take(lim).collect(),
        (false, Some(s)) => parser.parse_input_starting_with(input, s).take(lim).collect(),
        (true, None) => gr.parse_input(input).take(lim).collect(),
        (true, Some(s)) => gr.parse_input_starting_with(input, s).take(lim).collect(),
    };
    if what == What::Sound {
        for tr in &trees {
            if tr.lhs != start {
                return Err(format!("root {} is not the start term", term_key(tr.lhs)));
            }
            tree_ok(tr, flat)?;
            let mut y = String::new();
            yield_of(tr, &mut y);
            if y != input {
                return Err(format!("a tree yields {} bytes of text that is not the input", y.len()));
            }
        }
        return Ok(());
    }
    let keys: Vec<String> = if trees.len() > 1 { trees.iter().map(tree_key).collect() } else { trees.iter().map(|_| String::new()).collect() };
    let have: std::collections::HashSet<&String> = keys.iter().collect();
    match what {
        What::Complete if have.len() < n => Err(format!("{} different trees returned, there are {n} derivations", have.len())),
        What::Unique if have.len() < keys.len() => Err(format!("{} trees returned, {} of them different", keys.len(), have.len())),
        _ => Ok(()),
    }
}

pub fn run(cx: &mut Ctx, what: What) -> &'static str {
    run_large(cx, what);
    let mut rng = cx.rng(1);
    let term_sets: &[&[&str]] = &[&["a", "b"], &["a", "", "b"], &["a", "ab", "b", ""], &["é", "e", "\u{301}", ""], &["😀", "a", "a😀"], &["a"], &["a", ""]];
    let mut k = 0usize;
    let limit = if cx.thorough { 4_000_000 } else { 60_000 };
    while cx.time_left() && k < limit {
        k += 1;
        let table;
        let ts: &[&str] = if rng.chance(1, 3) {
            let tab = terminal_table(&mut rng);
            table = tab;
            &table.iter().map(|s| s.as_str()).collect::<Vec<_>>()
        } else {
            *rng.pick(term_sets)
        };
        let small = rng.chance(1, 2);
        let o = GenOpts {
            nts: if small { 2 } else { 4 },
            max_prods: if small { 2 } else { 6 },
            max_alts: if small { 2 } else { 3 },
            max_terms: if rng.chance(1, 5) { 4 } else { 3 },
            terminals: ts,
            undefined: false,
            empty_alts: true,
            empty_prods: rng.chance(1, 6),
            terminal_lhs: rng.chance(1, 8),
        };
        let mut g = random(&mut rng, &o);
        if rng.chance(1, 6) {
            // the ambiguous, nullable and recursive shapes
            let e = nt("s");
            g = match rng.below(7) {
                0 => G(vec![(e.clone(), vec![vec![e.clone(), e.clone()], vec![t("a")]])]),
                1 => G(vec![(e.clone(), vec![vec![e.clone(), t("b"), e.clone()], vec![t("a")], vec![]])]),
                2 => G(vec![(e.clone(), vec![vec![nt("a"), nt("a"), nt("a")]]), (nt("a"), vec![vec![t("a")], vec![]])]),
                3 => G(vec![(e.clone(), vec![vec![nt("a"), e.clone(), t("b")], vec![t("")]]), (nt("a"), vec![vec![t("a")], vec![t("")]])]),
                4 => G(vec![(e.clone(), vec![vec![t("a"), e.clone(), t("a")], vec![t("b")], vec![t("a")], vec![]])]),
                5 => G(vec![(e.clone(), vec![vec![nt("a"), nt("b")]]), (nt("a"), vec![vec![nt("a"), t("a")], vec![t("a")]]), (nt("b"), vec![vec![t("a"), nt("b")], vec![t("a")], vec![]])]),
                _ => G(vec![(e.clone(), vec![vec![nt("a"), nt("a")], vec![nt("b")]]), (nt("a"), vec![vec![t("a")], vec![nt("b"), t("a")]]), (nt("b"), vec![vec![t("")], vec![t("a"), t("a")]])]),
            };
        }
        let flat = g.flat();
        if cyclic(&flat) {
            cx.skip();
            continue;
        }
        let lhs: Vec<Term> = g.0.iter().map(|p| p.0.clone()).collect();
        let ins = inputs(&mut rng, &g, ts, 3);
        // starting terms: default, every lhs, one unknown
        let mut starts: Vec<Option<Term>> = vec![None];
        if rng.chance(1, 2) {
            starts.push(Some(rng.pick(&lhs).clone()));
        }
        if rng.chance(1, 20) {
            starts.push(Some(nt("nowhere")));
            starts.push(Some(t("a")));
        }
        let deprecated = rng.chance(1, 4);
        // one grammar and parser for all inputs of this round, used before it is complete when the contents say so
        let mut gr = g.build();
        if k % 5 == 0 && g.0.len() > 1 {
            gr = G(g.0[..g.0.len() - 1].to_vec()).build();
            #[allow(deprecated)]
            for input in ins.iter().filter(|i| i.len() < 15 && partials(&Spans::new(&flat, i.as_bytes(), false, &lhs), 3000) <= 3000) {
                if gr.validate().is_ok() {
                    let _ = gr.parse_input(input).take(3).count();
                }
            }
            gr.add_production(G(g.0[g.0.len() - 1..].to_vec()).build_as(9).productions_iter().next().unwrap().clone());
        }
        let parser = gr.build_parser();
        let spare = ins.last().cloned().unwrap_or_default();
        let spare_ok = k % 3 == 0 && spare.len() < 15 && partials(&Spans::new(&flat, spare.as_bytes(), false, &lhs), 3000) <= 3000;
        for input in &ins {
            if input.len() > 14 {
                continue;
            }
            let sp = Spans::new(&flat, input.as_bytes(), false, &lhs);
            if partials(&sp, 3000) > 3000 {
                cx.skip();
                continue;
            }
            let mut tr = Trees::new(&sp, CAP);
            for st in &starts {
                let start = st.clone().unwrap_or(lhs[0].clone());
                let Some(want) = tr.of(&start, 0, input.len()) else {
                    cx.skip();
                    continue;
                };
                let desc = format!("grammar [{}] start {} input {:?}{}", g.show(), st.as_ref().map_or("default".into(), term_key), input, if deprecated { " via Grammar::parse_input" } else { "" });
                let nontrivial = if what == What::Unique { want.len() > 1 } else { !want.is_empty() };
                let (flat2, input2, st2) = (&flat, input.as_str(), st.as_ref());
                let on = On { gr: &gr, parser: &parser, spare: if spare_ok { Some(&spare) } else { None } };
                cx.case(&desc, nontrivial, std::panic::AssertUnwindSafe(|| check(on, flat2, input2, st2, &start, &want, what, deprecated)));
            }
        }
    }
    "large grammars and inputs (up to 5000 alternatives, productions and terms, 120000 bytes of input, 5000 trees), then random and hand-shaped grammars (nullable, recursive, ambiguous, repeated left hand sides and alternatives, terminal left hand sides, multi-byte terminals) with inputs drawn from derivations and at random; grammars where a nonterminal derives exactly itself are skipped (infinitely many trees); non-trivial: the input has a derivation (for C03: more than one)"
}

/// What a case is run on; `spare` is the input of another iterator kept open meanwhile.
struct On<'g> {
    gr: &'g bnf::Grammar,
    parser: &'g Result<bnf::GrammarParser<'g>, bnf::Error>,
    spare: Option<&'g str>,
}

/// Up to `lim` trees; an iterator that has ended is asked twice more.
fn drain<'g>(mut it: impl Iterator<Item = bnf::ParseTree<'g>>, mut other: Option<impl Iterator<Item = bnf::ParseTree<'g>>>, lim: usize) -> Vec<bnf::ParseTree<'g>> {
    let mut v = vec![];
    let mut ended = 0;
    while v.len() < lim && ended < 3 {
        match it.next() {
            Some(x) => v.push(x),
            None => ended += 1,
        }
        if let Some(o) = &mut other {
            o.next();
        }
    }
    v
}

#[allow(deprecated)]
fn check<'g>(on: On<'g>, flat: &Flat, input: &'g str, st: Option<&'g Term>, start: &Term, want: &[String], what: What, deprecated: bool) -> Result<(), String> {
    let (gr, spare) = (on.gr, on.spare);
    let parser = on.parser.as_ref().map_err(|e| format!("build_parser: {e}"))?;
    // more than the expected number of trees is already wrong; do not loop on it
    let lim = want.len() * 2 + 50;
    let trees: Vec<bnf::ParseTree> = match (deprecated, st) {
        (false, None) => drain(parser.parse_input(input), spare.map(|s| parser.parse_input(s)), lim),
        (false, Some(s)) => drain(parser.parse_input_starting_with(input, s), spare.map(|x| parser.parse_input(x)), lim),
        (true, None) => drain(gr.parse_input(input), spare.map(|s| gr.parse_input(s)), lim),
        (true, Some(s)) => drain(gr.parse_input_starting_with(input, s), spare.map(|x| parser.parse_input_starting_with(x, s)), lim),
    };
    match what {
        What::Sound => {
            for tr in &trees {
                if tr.lhs != start {
                    return Err(format!("root {} is not the start term", term_key(tr.lhs)));
                }
                tree_ok(tr, flat)?;
                let mut y = String::new();
                yield_of(tr, &mut y);
                if y != input {
                    return Err(format!("tree {} yields {y:?}", tree_key(tr)));
                }
            }
        }
        What::Complete => {
            let have: BTreeSet<String> = trees.iter().map(tree_key).collect();
            for w in want {
                if !have.contains(w) {
                    return Err(format!("derivation {w} was not returned ({} trees were)", trees.len()));
                }
            }
        }
        What::Unique => {
            let mut ways: BTreeMap<&String, usize> = BTreeMap::new();
            for w in want {
                *ways.entry(w).or_default() += 1;
            }
            let mut have: BTreeMap<String, usize> = BTreeMap::new();
            for tr in &trees {
                *have.entry(tree_key(tr)).or_default() += 1;
            }
            for (k, n) in have {
                // a tree that is no derivation at all is not this property's business, repetition is
                let w = ways.get(&k).copied().unwrap_or(1);
                if n > w {
                    return Err(format!("tree {k} returned {n} times, {w} expected"));
                }
            }
        }
    }
    Ok(())
}
