//! C04 (validation) and C13 (editing).
use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::{Error, Expression, Grammar, Production, Term};
use std::panic::AssertUnwindSafe;

fn named(msg: &str, undefined: &std::collections::BTreeSet<String>) -> bool {
    // the message names an undefined nonterminal: as <name>
    undefined.iter().any(|n| msg.contains(&format!("<{n}>")) || msg.contains(n.as_str()))
}

fn validate_case(cx: &mut Ctx, g: &G, desc: &str) {
    let def = g.defined();
    let und: std::collections::BTreeSet<String> = g.referenced().difference(&def).cloned().collect();
    cx.case(desc, !g.0.is_empty(), AssertUnwindSafe(|| {
        let gr = g.build();
        let ok = !g.0.is_empty() && und.is_empty();
        let a = gr.validate();
        let b = gr.build_parser().map(|_| ());
        let c = bnf::GrammarParser::new(&gr).map(|_| ());
        for (what, r) in [("validate", a), ("build_parser", b), ("GrammarParser::new", c)] {
            match r {
                Ok(()) if ok => {}
                Ok(()) => return Err(format!("{what} accepted a grammar with undefined nonterminals {und:?}")),
                Err(e) if ok => return Err(format!("{what} rejected a valid grammar: {e}")),
                Err(Error::ValidationError(m)) => {
                    if !g.0.is_empty() && !named(&m, &und) {
                        return Err(format!("{what} does not name an undefined nonterminal of {und:?}: {m}"));
                    }
                }
                Err(e) => return Err(format!("{what} reported {e:?}, not a validation error")),
            }
        }
        Ok(())
    }));
}

/// Grammars past the sizes of the random ones: one undefined name (or none) at the start, in the middle or at the end
fn validate_large(cx: &mut Ctx) {
    for n in [40usize, 70, 130, 260, 520, 1100, 2100, 4200, 20000] {
        for at in [0, n / 2, n - 1, n] {
            let bad = |i: usize, good: &str| nt(if i == at { "undef" } else { good });
            // each production refers to the next one; or to nothing; or to itself
            let next = |i: usize| format!("n{}", (i + 1) % n);
            let g = G((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![t("x"), bad(i, &next(i))]])).collect());
            validate_case(cx, &g, &format!("large: {n} productions, each with the next one, undefined name in number {at}"));
            let g = G((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![if i == at { nt("undef") } else { t("x") }]])).collect());
            validate_case(cx, &g, &format!("large: {n} productions without nonterminals, undefined name in number {at}"));
            let g = G((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![bad(i, &format!("n{i}"))]])).collect());
            validate_case(cx, &g, &format!("large: {n} productions referring to themselves, undefined name in number {at}"));
            let g = G(vec![(nt("s"), (0..n).map(|i| vec![bad(i, "s")]).collect())]);
            validate_case(cx, &g, &format!("large: {n} alternatives, undefined name in number {at}"));
            let g = G(vec![(nt("s"), vec![(0..n).map(|i| bad(i, "s")).collect()])]);
            validate_case(cx, &g, &format!("large: {n} terms, undefined name in number {at}"));
            let g = G(vec![(nt("s"), vec![(0..n).map(|i| if i % 2 == 0 { t("undef") } else { nt(&format!("u{i}")) }).collect()])].into_iter()
                .chain((0..n).filter(|i| i % 2 == 1 && *i != at).map(|i| (nt(&format!("u{i}")), vec![]))).collect());
            validate_case(cx, &g, &format!("large: {n} terms defined by later empty productions, number {at} undefined"));
        }
        let long = "é".repeat(n);
        for (d, r) in [(long.clone(), long.clone()), (long.clone(), long.clone() + "x"), (long.clone() + "x", long.clone()), (long.clone() + "x", long.clone() + "y")] {
            let g = G(vec![(nt("s"), vec![vec![nt(&r)]]), (nt(&d), vec![vec![t("x")]])]);
            validate_case(cx, &g, &format!("large: names of {} and {} bytes{}", d.len(), r.len(), if d == r { "" } else { ", different" }));
        }
    }
}

pub fn validate(cx: &mut Ctx) -> &'static str {
    validate_large(cx);
    let mut rng = cx.rng(4);
    let limit = if cx.thorough { 2_000_000 } else { 150_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        let o = GenOpts {
            nts: 5,
            max_prods: 8,
            max_alts: 3,
            max_terms: 4,
            terminals: &["a", "", "s", "undef", "b"],
            undefined: rng.chance(2, 3),
            empty_alts: true,
            empty_prods: true,
            terminal_lhs: true,
        };
        let mut g = random(&mut rng, &o);
        if rng.chance(1, 200) {
            // many productions, one undefined or none
            g = G((0..60 + rng.below(40)).map(|i| (nt(&format!("n{i}")), vec![vec![nt(&format!("n{}", i + 1))]])).collect());
            if rng.chance(1, 2) {
                let last = g.0.len();
                g.0.push((nt(&format!("n{last}")), vec![vec![t("x")]]));
            }
        }
        if k == 0 {
            g = G(vec![]);
        }
        // drop definitions, so that real names become undefined; put uses before and after definitions
        if rng.chance(1, 3) && !g.0.is_empty() {
            let i = rng.below(g.0.len());
            g.0.remove(i);
        }
        if rng.chance(1, 6) {
            // a definition of the same name as a terminal, and the same name as nonterminal elsewhere
            g.0.push((t("undef"), vec![vec![nt("undef")]]));
        }
        if rng.chance(1, 8) {
            g.0.push((nt("undef"), vec![]));
        }
        let desc = format!("grammar [{}]", g.show());
        validate_case(cx, &g, &desc);
    }
    "large grammars (up to 20000 productions, alternatives or terms) with one undefined name or none, then random grammars with undefined, repeated, empty and terminal-lhs productions, definitions before and after uses; non-trivial: at least one production"
}

fn rterm(rng: &mut Rng) -> Term {
    let n = *rng.pick(&["a", "b", "", "é", "ab", " ", "a ", "A", "aa", "a'", "a>"]);
    if rng.chance(1, 2) { t(n) } else { nt(n) }
}
fn rterms(rng: &mut Rng) -> Vec<Term> {
    let n = if rng.chance(1, 2000) { 100 + rng.below(1200) } else if rng.chance(1, 40) { 40 } else { rng.below(6) };
    (0..n).map(|_| rterm(rng)).collect()
}
fn near_name(rng: &mut Rng, s: &str) -> String {
    match rng.below(8) {
        0 => format!("{s} "),
        1 => s.to_uppercase(),
        2 => s.replace('é', "e\u{301}"),
        3 => format!("{s}\0"),
        4 => s.chars().rev().collect(),
        5 => format!("{s}{s}"),
        6 => format!("\u{feff}{s}"),
        _ => s.chars().skip(1).collect(),
    }
}
/// Almost `x`: another kind, a similar name.
fn near_term(rng: &mut Rng, x: &Term) -> Term {
    match (x, rng.chance(1, 2)) {
        (Term::Terminal(s), true) => nt(s),
        (Term::Nonterminal(s), true) => t(s),
        (Term::Terminal(s), false) => t(&near_name(rng, s)),
        (Term::Nonterminal(s), false) => nt(&near_name(rng, s)),
    }
}
/// Almost `v`: terms permuted, repeated, left out, changed, run together (with the same printed text).
fn near(rng: &mut Rng, v: &[Term]) -> Vec<Term> {
    let mut v = v.to_vec();
    let i = rng.below(v.len());
    match rng.below(6) {
        0 => v.reverse(),
        1 if !v.is_empty() => v.push(v[i].clone()),
        2 if !v.is_empty() => drop(v.remove(i)),
        3 if !v.is_empty() => v[i] = near_term(rng, &v[i].clone()),
        4 if v.len() > 1 && i > 0 => {
            let x = match (&v[i - 1], &v[i]) {
                (Term::Nonterminal(a), Term::Nonterminal(b)) => nt(&format!("{a}> <{b}")),
                (Term::Terminal(a), Term::Terminal(b)) if a.contains('\'') && b.contains('\'') => t(&format!("{a}\" \"{b}")),
                (Term::Terminal(a), Term::Terminal(b)) => t(&format!("{a}{b}")),
                (Term::Nonterminal(a), Term::Terminal(b)) => nt(&format!("{a}> '{b}'")),
                (Term::Terminal(a), Term::Nonterminal(b)) => t(&format!("{a}' <{b}>")),
            };
            v.splice(i - 1..=i, [x]);
        }
        _ => v.insert(i, t("")),
    }
    v
}
fn terms(e: &Expression) -> Vec<Term> {
    e.terms_iter().cloned().collect()
}
fn rexprs(rng: &mut Rng) -> Vec<Vec<Term>> {
    let n = if rng.chance(1, 2000) { 100 + rng.below(1200) } else { rng.below(5) };
    (0..n).map(|_| (0..rng.below(3)).map(|_| rterm(rng)).collect()).collect()
}
fn prod(p: &(Term, Vec<Vec<Term>>)) -> Production {
    Production::from_parts(p.0.clone(), p.1.iter().map(|a| Expression::from_parts(a.clone())).collect())
}
/// exactly one occurrence of `x` is gone, everything else in place
fn removed_one<X: PartialEq + Clone>(before: &[X], after: &[X], x: &X) -> bool {
    (0..before.len()).any(|i| before[i] == *x && {
        let mut b = before.to_vec();
        b.remove(i);
        b == after
    })
}
/// the same, but the last element may take the removed one's place
fn removed_swap<X: PartialEq + Clone>(before: &[X], after: &[X], x: &X) -> bool {
    removed_one(before, after, x)
        || (0..before.len()).any(|i| before[i] == *x && {
            let mut b = before.to_vec();
            b.swap_remove(i);
            b == after
        })
}

pub fn edit(cx: &mut Ctx) -> &'static str {
    let mut rng = cx.rng(13);
    let limit = if cx.thorough { 2_000_000 } else { 200_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        match k % 4 {
            0 => {
                let v = rterms(&mut rng);
                let mut cur = v.clone();
                let ops: Vec<(bool, Term)> = (0..1 + rng.below(4)).map(|_| (rng.chance(1, 2), if !v.is_empty() && rng.chance(1, 3) { let x = rng.pick(&v).clone(); near_term(&mut rng, &x) } else { rterm(&mut rng) })).collect();
                let desc = format!("expression {v:?} ops (add?, term) {ops:?}");
                cx.case(&desc, v.len() > 1, AssertUnwindSafe(|| {
                    let mut e = Expression::from_parts(v.clone());
                    for (add, x) in &ops {
                        let before = cur.clone();
                        if *add {
                            e.add_term(x.clone());
                            cur.push(x.clone());
                            if terms(&e) != cur {
                                return Err(format!("add_term({x:?}) on {before:?} gave {:?}", terms(&e)));
                            }
                        } else {
                            let r = e.remove_term(x);
                            let now = terms(&e);
                            let has = before.contains(x);
                            if r.as_ref() != if has { Some(x) } else { None } {
                                return Err(format!("remove_term({x:?}) on {before:?} returned {r:?}"));
                            }
                            if if has { !removed_one(&before, &now, x) } else { now != before } {
                                return Err(format!("remove_term({x:?}) on {before:?} left {now:?}"));
                            }
                            cur = now;
                        }
                    }
                    Ok(())
                }));
            }
            1 => {
                let l = rterm(&mut rng);
                let v = rexprs(&mut rng);
                let ops: Vec<(bool, Vec<Term>)> = (0..1 + rng.below(4))
                    .map(|_| {
                        let mut x = if !v.is_empty() && rng.chance(2, 3) { rng.pick(&v).clone() } else { rexprs(&mut rng).pop().unwrap_or_default() };
                        if rng.chance(1, 3) {
                            x = near(&mut rng, &x);
                        }
                        (rng.chance(1, 2), x)
                    })
                    .collect();
                let desc = format!("production {l:?} ::= {v:?} ops (add?, expr) {ops:?}");
                cx.case(&desc, v.len() > 1, AssertUnwindSafe(|| {
                    let mut p = prod(&(l.clone(), v.clone()));
                    let get = |p: &Production| p.rhs_iter().map(terms).collect::<Vec<_>>();
                    for (add, x) in &ops {
                        let before = get(&p);
                        let ex = Expression::from_parts(x.clone());
                        if *add {
                            p.add_to_rhs(ex);
                            let mut w = before.clone();
                            w.push(x.clone());
                            if get(&p) != w || p.lhs != l {
                                return Err(format!("add_to_rhs({x:?}) on {before:?} gave {:?}", get(&p)));
                            }
                        } else {
                            let r = p.remove_from_rhs(&ex);
                            let now = get(&p);
                            let has = before.contains(x);
                            if r.as_ref().map(terms) != if has { Some(x.clone()) } else { None } {
                                return Err(format!("remove_from_rhs({x:?}) on {before:?} returned {r:?}"));
                            }
                            if p.lhs != l || if has { !removed_one(&before, &now, x) } else { now != before } {
                                return Err(format!("remove_from_rhs({x:?}) on {before:?} left {now:?}"));
                            }
                        }
                    }
                    Ok(())
                }));
            }
            2 => {
                let n = if rng.chance(1, 1000) { 100 + rng.below(1200) } else { rng.below(5) };
                let v: Vec<(Term, Vec<Vec<Term>>)> = (0..n).map(|_| (rterm(&mut rng), (0..rng.below(4)).map(|_| vec![rterm(&mut rng)]).collect())).collect();
                let ops: Vec<(bool, (Term, Vec<Vec<Term>>))> = (0..1 + rng.below(4))
                    .map(|_| {
                        let mut x = if !v.is_empty() && rng.chance(2, 3) { rng.pick(&v).clone() } else { (rterm(&mut rng), vec![vec![rterm(&mut rng)]]) };
                        match rng.below(12) {
                            0 => x.0 = near_term(&mut rng, &x.0),
                            1 if !x.1.is_empty() => { let i = rng.below(x.1.len()); x.1[i] = near(&mut rng, &x.1[i]) }
                            2 => x.1.push(vec![]),
                            3 => x.1.reverse(),
                            4 if x.1.len() > 1 => if let ([.., Term::Nonterminal(a)], [Term::Nonterminal(b), ..]) = (&x.1[0][..], &x.1[1][..]) {
                                // two alternatives run together, with the same printed text
                                let z = nt(&format!("{a}> | <{b}"));
                                let tail = x.1.remove(1);
                                x.1[0].pop();
                                x.1[0].push(z);
                                x.1[0].extend(tail.into_iter().skip(1));
                            }
                            _ => {}
                        }
                        (rng.chance(1, 2), x)
                    })
                    .collect();
                let desc = format!("grammar {v:?} ops (add?, production) {ops:?}");
                cx.case(&desc, v.len() > 1, AssertUnwindSafe(|| {
                    let mut g = Grammar::from_parts(v.iter().map(prod).collect());
                    let get = |g: &Grammar| g.productions_iter().map(|p| (p.lhs.clone(), p.rhs_iter().map(terms).collect::<Vec<_>>())).collect::<Vec<_>>();
                    for (add, x) in &ops {
                        let before = get(&g);
                        let p = prod(x);
                        if *add {
                            g.add_production(p);
                            let mut w = before.clone();
                            w.push(x.clone());
                            if get(&g) != w {
                                return Err(format!("add_production({x:?}) on {before:?} gave {:?}", get(&g)));
                            }
                        } else {
                            let r = g.remove_production(&p);
                            let now = get(&g);
                            let has = before.contains(x);
                            if r != if has { Some(p) } else { None } {
                                return Err(format!("remove_production({x:?}) on {before:?} returned {r:?}"));
                            }
                            if if has { !removed_swap(&before, &now, x) } else { now != before } {
                                return Err(format!("remove_production({x:?}) on {before:?} left {now:?}"));
                            }
                        }
                    }
                    Ok(())
                }));
            }
            _ => {
                let (a, b, x, y) = (rterms(&mut rng), rterms(&mut rng), rterm(&mut rng), rterm(&mut rng));
                let desc = format!("'+' on {a:?}, {b:?}, {x:?}, {y:?}");
                cx.case(&desc, a.len() + b.len() > 1, AssertUnwindSafe(|| {
                    let (ea, eb) = (Expression::from_parts(a.clone()), Expression::from_parts(b.clone()));
                    let mut ab = a.clone();
                    ab.extend(b.iter().cloned());
                    let mut ax = a.clone();
                    ax.push(x.clone());
                    let eq = |what: &str, got: &Expression, want: &Vec<Term>| if &terms(got) == want { Ok(()) } else { Err(format!("{what}: {:?} instead of {want:?}", terms(got))) };
                    eq("&Expression + Expression", &(&ea + eb.clone()), &ab)?;
                    eq("Expression + Expression", &(ea.clone() + eb.clone()), &ab)?;
                    eq("&Expression + Term", &(&ea + x.clone()), &ax)?;
                    eq("Expression + Term", &(ea.clone() + x.clone()), &ax)?;
                    // a term added to an expression from the left: "with expression terms in order and an added term last"
                    eq("Term + Expression", &(x.clone() + ea.clone()), &ax)?;
                    eq("Term + &Expression", &(x.clone() + &ea), &ax)?;
                    eq("borrowed operand", &ea, &a)?;
                    eq("borrowed operand", &eb, &b)?;
                    let tt = terms(&(x.clone() + y.clone()));
                    if tt != vec![x.clone(), y.clone()] && tt != vec![y.clone(), x.clone()] {
                        return Err(format!("Term + Term: {tt:?}"));
                    }
                    Ok(())
                }));
            }
        }
    }
    "random edit sequences with duplicate and almost equal elements on expressions, productions and grammars, and every '+' implementation; non-trivial: at least two elements"
}
