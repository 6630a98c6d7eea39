//! C05 (generated sentences), C06 (refusal), C07 (strategies), C15 (generation follows the strategy).
use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::rand::{rngs::StdRng, SeedableRng};
use bnf::{CoverageGuided, DepthBounded, Expression, GenerationStrategy, Production, RandomWalk, Term, Weighted};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::AssertUnwindSafe;

const MSG: &str = "doesn't lead to a terminal state";

fn seed32(rng: &mut Rng) -> [u8; 32] {
    let mut s = [0u8; 32];
    for b in s.iter_mut() {
        *b = rng.next() as u8;
    }
    s
}

/// height of the lowest derivation through the first production of each name (what generation uses)
fn heights(g: &G) -> BTreeMap<String, usize> {
    let mut first: BTreeMap<String, &Vec<Vec<Term>>> = BTreeMap::new();
    for (l, a) in &g.0 {
        if let Term::Nonterminal(n) = l {
            first.entry(n.clone()).or_insert(a);
        }
    }
    let mut h: BTreeMap<String, usize> = BTreeMap::new();
    for n in g.referenced() {
        if !first.contains_key(&n) {
            h.insert(n, 0);
        }
    }
    loop {
        let mut ch = false;
        for (n, alts) in &first {
            for a in alts.iter() {
                if let Some(x) = alt_height(&h, a) {
                    if h.get(n).map_or(true, |o| *o > x + 1) {
                        h.insert(n.clone(), x + 1);
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return h;
        }
    }
}
fn alt_height(h: &BTreeMap<String, usize>, a: &[Term]) -> Option<usize> {
    let mut m = 0;
    for x in a {
        if let Term::Nonterminal(n) = x {
            m = m.max(*h.get(n)?);
        }
    }
    Some(m)
}

/// Free choice for a while, then the way out.
struct Forced {
    rng: Rng,
    free: usize,
    steps: usize,
    h: BTreeMap<String, usize>,
}
impl GenerationStrategy for Forced {
    fn choose<'p>(&mut self, production: &'p Production, _depth: usize) -> Option<&'p Expression> {
        self.steps += 1;
        if self.steps > 4000 {
            return None;
        }
        let v: Vec<&Expression> = production.rhs_iter().collect();
        if self.free > 0 {
            self.free -= 1;
            return Some(*self.rng.pick(&v));
        }
        let best = v
            .iter()
            .filter_map(|e| alt_height(&self.h, &e.terms_iter().cloned().collect::<Vec<_>>()).map(|x| (x, *e)))
            .min_by_key(|p| p.0);
        best.map(|p| p.1)
    }
}

fn recursive(g: &G) -> bool {
    let mut e: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (l, alts) in &g.0 {
        if let Term::Nonterminal(n) = l {
            for x in alts.iter().flatten() {
                if let Term::Nonterminal(m) = x {
                    e.entry(n.clone()).or_default().insert(m.clone());
                }
            }
        }
    }
    e.keys().any(|s| {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<&String> = e[s].iter().collect();
        while let Some(x) = todo.pop() {
            if x == s {
                return true;
            }
            if seen.insert(x) {
                if let Some(v) = e.get(x) {
                    todo.extend(v);
                }
            }
        }
        false
    })
}

/// Is `text` derivable from the first lhs, with every defined nonterminal expansion in `ok` (when given)?
fn derivable(g: &G, text: &str, ok: Option<&HashSet<(String, String)>>) -> bool {
    let flat = g.flat();
    let lhs: Vec<Term> = g.0.iter().map(|p| p.0.clone()).collect();
    let defined: BTreeSet<Term> = lhs.iter().cloned().collect();
    let b = text.as_bytes();
    let n = b.len();
    let mut set: HashSet<(Term, usize, usize)> = HashSet::new();
    loop {
        let before = set.len();
        for (l, a) in &flat {
            let Term::Nonterminal(name) = l else { continue };
            for i in 0..=n {
                let mut ends = BTreeSet::from([i]);
                for x in a {
                    let mut next = BTreeSet::new();
                    for &e in &ends {
                        match x {
                            Term::Terminal(s) => {
                                if b[e..].starts_with(s.as_bytes()) {
                                    next.insert(e + s.len());
                                }
                            }
                            Term::Nonterminal(m) if !defined.contains(x) => {
                                let s = format!("<{m}>");
                                if b[e..].starts_with(s.as_bytes()) {
                                    next.insert(e + s.len());
                                }
                            }
                            Term::Nonterminal(_) => {
                                for j in e..=n {
                                    if set.contains(&(x.clone(), e, j)) {
                                        next.insert(j);
                                    }
                                }
                            }
                        }
                    }
                    ends = next;
                    if ends.is_empty() {
                        break;
                    }
                }
                for j in ends {
                    if let Some(ok) = ok {
                        let Some(sub) = text.get(i..j) else { continue };
                        if !ok.contains(&(name.clone(), sub.to_string())) {
                            continue;
                        }
                    }
                    set.insert((l.clone(), i, j));
                }
            }
        }
        if set.len() == before {
            return set.contains(&(lhs[0].clone(), 0, n));
        }
    }
}

/// Grammars with a single sentence, past the sizes of the random ones, and callbacks that reject many times
fn sentences_large(cx: &mut Ctx) {
    for n in [40usize, 130, 300, 1100, 2500] {
        let mut all: Vec<(String, G, String)> = vec![];
        let mut v: Vec<_> = (0..n).map(|i| (nt(&format!("n{i}")), vec![vec![t("("), nt(&format!("n{}", i + 1)), t(")")]])).collect();
        v.push((nt(&format!("n{n}")), vec![vec![t("é")]]));
        v[1..].reverse();
        all.push((format!("{n} nested nonterminals"), G(v.clone()), "(".repeat(n) + "é" + &")".repeat(n)));
        v.remove(1);
        v.push((nt("other"), vec![vec![t("é")]]));
        v[0].1[0].push(nt("other"));
        all.push((format!("{n} nested nonterminals, the last one undefined"), G(v), "".into()));
        let g = G(vec![(nt("s"), vec![(0..n).map(|i| if i % 2 == 0 { nt("c") } else { t(&format!("t{i};")) }).collect()]), (nt("c"), vec![vec![t("x"), t(""), t("y")]])]);
        all.push((format!("{n} terms"), g, (0..n).map(|i| if i % 2 == 0 { "xy".into() } else { format!("t{i};") }).collect()));
        let long = "é".repeat(n * 10);
        let g = G(vec![(nt("s"), vec![vec![t(&long), nt("c")]]), (nt("c"), vec![vec![t("x")]])]);
        all.push((format!("a terminal of {} bytes", long.len()), g, long.clone() + "x"));
        let mut v = vec![(nt("s"), vec![vec![nt("n0"), nt(&format!("n{}", n - 1))]])];
        v.extend((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![t(&format!("t{i};"))]])));
        all.push((format!("{n} nonterminals"), G(v), format!("t0;t{};", n - 1)));
        for (name, g, want) in all {
            for reject in [0usize, 1, 20, 150, 3000] {
                for which in 0..3 {
                    if reject == 0 && which > 0 || reject * n > 400_000 && !(reject == 3000 && n == 40) {
                        continue;
                    }
                    let start = match &g.0[0].0 { Term::Nonterminal(s) => s.clone(), _ => continue };
                    let last = match &g.0[g.0.len() - 1].0 { Term::Nonterminal(s) => s.clone(), _ => continue };
                    let desc = format!("large: {name}, callback rejects {} {reject} times", ["the start rule", "the last rule", "every rule at first"][which]);
                    let (g, want) = (&g, &want);
                    let by_name: BTreeMap<String, &(Term, Vec<Vec<Term>>)> = g.0.iter().filter_map(|p| if let Term::Nonterminal(x) = &p.0 { Some((x.clone(), p)) } else { None }).collect();
                    cx.case(&desc, true, AssertUnwindSafe(|| {
                        let gr = g.build();
                        let left = RefCell::new(reject);
                        let accepted: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
                        let f = |id: &str, _: &str| {
                            let hit = match which { 0 => id == start, 1 => id == last, _ => true };
                            if hit && *left.borrow() > 0 {
                                *left.borrow_mut() -= 1;
                                return false;
                            }
                            accepted.borrow_mut().insert(id.to_string());
                            true
                        };
                        let r = match reject % 4 {
                            0 => gr.generate_seeded_callback(&mut StdRng::from_seed([3; 32]), f),
                            1 => gr.generate_callback(f),
                            _ => gr.generate_seeded_callback_with_strategy(f, &mut CoverageGuided::from_seed([5; 32])),
                        };
                        let Ok(text) = r else { return Ok(()) };
                        if *left.borrow() > 0 {
                            return Err(format!("a sentence was returned although the callback never accepted {}", if which == 1 { &last } else { &start }));
                        }
                        // every rule has one alternative, so every rule reached from the start is part of the result
                        let (mut seen, mut todo) = (HashSet::new(), vec![start.clone()]);
                        while let Some(x) = todo.pop() {
                            if let (true, Some((_, alts))) = (!seen.contains(&x), by_name.get(&x)) {
                                todo.extend(alts[0].iter().filter_map(|y| if let Term::Nonterminal(y) = y { Some(y.clone()) } else { None }));
                                seen.insert(x);
                            }
                        }
                        if let Some(x) = seen.iter().find(|x| !accepted.borrow().contains(*x)) {
                            return Err(format!("the callback never accepted an expansion of <{x}>, which is part of the result"));
                        }
                        if !want.is_empty() && text != *want {
                            return Err(format!("generated {} bytes of text that is not the only derivable sentence ({} bytes)", text.len(), want.len()));
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
}

pub fn sentences(cx: &mut Ctx) -> &'static str {
    sentences_large(cx);
    let mut rng = cx.rng(5);
    let limit = if cx.thorough { 2_000_000 } else { 60_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        let o = GenOpts {
            nts: 4,
            max_prods: 5,
            max_alts: 3,
            max_terms: 3,
            terminals: &["a", "b", "", "é", "<c>", "ab", " ", "\n", "<undef>", "A"],
            undefined: rng.chance(1, 2),
            empty_alts: true,
            empty_prods: rng.chance(1, 6),
            terminal_lhs: rng.chance(1, 10),
        };
        let g = random(&mut rng, &o);
        if g.0.is_empty() || !matches!(g.0[0].0, Term::Nonterminal(_)) {
            cx.skip();
            continue;
        }
        let h = heights(&g);
        let rec = recursive(&g);
        let cb = rng.chance(1, 2);
        let sd = rng.next();
        let how = if rec { 0 } else { rng.below(7) };
        let free = rng.below(6);
        let desc = format!("grammar [{}] strategy {how} free {free} callback {cb} seed {sd}", g.show());
        let mut ok_len = 0usize;
        let okr = &mut ok_len;
        let too_long = RefCell::new(false);
        let tl = &too_long;
        cx.case(&desc, k % 2 == 0 || cb, AssertUnwindSafe(|| {
            let gr = g.build();
            let mut r = Rng(sd);
            let s32 = seed32(&mut r);
            let accepted: RefCell<HashSet<(String, String)>> = RefCell::new(HashSet::new());
            let state = RefCell::new((Rng(sd ^ 77), 0usize));
            let f = |id: &str, text: &str| {
                if cb {
                    let mut st = state.borrow_mut();
                    if st.1 < 12 && st.0.chance(1, 3) {
                        st.1 += 1;
                        return false;
                    }
                }
                accepted.borrow_mut().insert((id.to_string(), text.to_string()));
                true
            };
            let mut std_rng = StdRng::from_seed(s32);
            let res = match how {
                0 => gr.generate_seeded_callback_with_strategy(f, &mut Forced { rng: Rng(sd ^ 5), free, steps: 0, h }),
                1 => gr.generate_seeded_callback(&mut std_rng, f),
                2 => gr.generate_seeded_callback_with_strategy(f, &mut DepthBounded::from_seed(free, s32)),
                3 => gr.generate_seeded_callback_with_strategy(f, &mut CoverageGuided::from_seed(s32)),
                4 => gr.generate_seeded_callback_with_strategy(f, &mut Weighted::from_seed(free as u32, 1, s32)),
                5 => gr.generate_callback(f),
                _ => gr.generate_seeded(&mut std_rng),
            };
            let Ok(text) = res else { return Ok(()) };
            *okr = text.len();
            if text.len() > 40 {
                *tl.borrow_mut() = true;
                return Ok(());
            }
            let acc = accepted.borrow();
            let acc = if how <= 5 { Some(&*acc) } else { None };
            if !derivable(&g, &text, None) {
                return Err(format!("generated {text:?}, which is not derivable"));
            }
            if !derivable(&g, &text, acc) {
                return Err(format!("generated {text:?}, but the callback only accepted {acc:?}"));
            }
            Ok(())
        }));
        if *too_long.borrow() {
            cx.skip();
        }
    }
    "grammars with a single sentence up to 2500 rules deep or terms long with up to 3000 rejections, then random grammars (recursive, undefined nonterminals, repeated left hand sides, empty alternatives) with a strategy that chooses freely and then terminates, and the built-in strategies and entry points on non-recursive ones; callbacks reject at random; the text is checked by an independent span fixpoint restricted to the accepted expansions; sentences above 40 bytes skipped; non-trivial: half of the cases without and all with callback"
}

/// nonterminals deriving a string of terminals, over all productions
fn productive(g: &G) -> BTreeSet<Term> {
    let mut p: BTreeSet<Term> = BTreeSet::new();
    loop {
        let mut ch = false;
        for (l, a) in g.flat() {
            if !p.contains(&l) && a.iter().all(|x| matches!(x, Term::Terminal(_)) || p.contains(x)) {
                p.insert(l);
                ch = true;
            }
        }
        if !ch {
            return p;
        }
    }
}

struct Never(usize);
impl GenerationStrategy for Never {
    fn choose<'p>(&mut self, _: &'p Production, _: usize) -> Option<&'p Expression> {
        self.0 += 1;
        None
    }
}

fn guard_case(cx: &mut Ctx, g: &G, desc: &str) {
    let pr = productive(g);
    let refuse = !pr.contains(&g.0[0].0);
    let direct = g.0.iter().any(|(l, a)| *l == g.0[0].0 && a.iter().any(|e| e.iter().all(|x| matches!(x, Term::Terminal(_)))));
    cx.case(desc, !direct, AssertUnwindSafe(|| {
        let gr = g.build();
        let mut s = Never(0);
        let r = gr.generate_seeded_with_strategy(&mut s);
        let mut s2 = Never(0);
        let r2 = gr.generate_seeded_callback_with_strategy(|_, _| true, &mut s2);
        let mut all = vec![(r, s.0), (r2, s2.0)];
        if refuse {
            all.push((gr.generate(), 0));
            all.push((gr.generate_seeded(&mut StdRng::from_seed([1; 32])), 0));
            all.push((gr.generate_callback(|_, _| true), 0));
            all.push((gr.generate_seeded_callback(&mut StdRng::from_seed([1; 32]), |_, _| true), 0));
        }
        for (r, calls) in all {
            let said = matches!(&r, Err(bnf::Error::GenerateError(m)) if m.contains(MSG));
            if refuse && !said {
                return Err(format!("the start rule cannot terminate, but generation answered {r:?} after {calls} choices"));
            }
            if !refuse && said {
                return Err("the start rule can terminate, but generation was refused".to_string());
            }
            if refuse && calls > 0 {
                return Err("refused only after expansion had started".to_string());
            }
        }
        Ok(())
    }));
}

/// Dependency chains past the sizes of the random grammars
fn guard_large(cx: &mut Ctx) {
    for n in [40usize, 70, 130, 260, 520, 1100] {
        for closed in [true, false] {
            for order in 0..3 {
                if n > 520 && order != 1 {
                    continue;
                }
                let mut v: Vec<_> = (0..n).map(|i| (nt(&format!("n{i}")), vec![vec![nt(&format!("n{}", i + 1)), t("x")]])).collect();
                v.push((nt(&format!("n{n}")), vec![vec![if closed { t("y") } else { nt("n1") }]]));
                match order {
                    1 => v[1..].reverse(),
                    2 => {
                        let mut r = Rng(n as u64);
                        for i in (2..v.len()).rev() {
                            let j = 1 + r.below(i);
                            v.swap(i, j);
                        }
                    }
                    _ => {}
                }
                guard_case(cx, &G(v.clone()), &format!("large: a chain of {n} nonterminals, order {order}, closed {closed}"));
                // the start rule does not terminate, but all the others do
                v[0].1 = vec![vec![nt("n1"), nt("n0")]];
                guard_case(cx, &G(v), &format!("large: a start rule that only recurses, before {n} others, order {order}, closed {closed}"));
            }
            let last = if closed { t("y") } else { nt("s") };
            let g = G(vec![(nt("s"), (0..n).map(|i| vec![nt("s"), if i + 1 == n { last.clone() } else { t("x") }]).chain([vec![nt("c"); n]]).collect()), (nt("c"), vec![vec![last.clone()]])]);
            guard_case(cx, &g, &format!("large: {n} alternatives and one of {n} terms, closed {closed}"));
            let mut v = vec![(nt("s"), vec![(0..n).map(|i| nt(&format!("n{i}"))).collect::<Vec<_>>()])];
            v.extend((0..n).map(|i| (nt(&format!("n{i}")), vec![vec![if i + 1 == n { last.clone() } else { t("x") }]])));
            guard_case(cx, &G(v), &format!("large: a start rule of {n} nonterminals, closed {closed}"));
            let mut v = vec![(nt("s"), vec![vec![nt("c")]])];
            v.extend((0..n).map(|i| (nt("c"), vec![vec![nt("c"), if closed && i + 1 == n { t("x") } else { nt("c") }]])));
            if closed {
                v.push((nt("c"), vec![vec![t("x")]]));
            }
            guard_case(cx, &G(v), &format!("large: a nonterminal of {n} productions, closed {closed}"));
        }
    }
}

pub fn guard(cx: &mut Ctx) -> &'static str {
    guard_large(cx);
    let mut rng = cx.rng(6);
    let limit = if cx.thorough { 2_000_000 } else { 150_000 };
    for _ in 0..limit {
        if !cx.time_left() {
            break;
        }
        let o = GenOpts {
            nts: 6,
            max_prods: 8,
            max_alts: 2,
            max_terms: 3,
            terminals: &["a", ""],
            undefined: rng.chance(1, 2),
            empty_alts: rng.chance(1, 3),
            empty_prods: rng.chance(1, 3),
            terminal_lhs: rng.chance(1, 8),
        };
        let mut g = random(&mut rng, &o);
        // fewer terminals: long dependency chains
        if rng.chance(2, 3) {
            let n = NTS.len().min(6);
            for (_, alts) in g.0.iter_mut() {
                if rng.chance(3, 4) {
                    for a in alts.iter_mut() {
                        a.push(nt(NTS[rng.below(n)]));
                    }
                }
            }
        }
        if rng.chance(1, 200) {
            // a long chain in a random order, closed or not
            let n = 20 + rng.below(100);
            let mut v: Vec<_> = (0..n).map(|i| (nt(&format!("n{i}")), vec![vec![nt(&format!("n{}", i + 1)), t("x")]])).collect();
            if rng.chance(2, 3) {
                v.push((nt(&format!("n{n}")), vec![vec![t("y")]]));
            }
            if rng.chance(1, 2) {
                for i in (2..v.len()).rev() {
                    let j = 1 + rng.below(i);
                    v.swap(i, j);
                }
            }
            g = G(v);
        }
        if g.0.is_empty() || !matches!(g.0[0].0, Term::Nonterminal(_)) {
            cx.skip();
            continue;
        }
        let desc = format!("grammar [{}]", g.show());
        guard_case(cx, &g, &desc);
    }
    "dependency chains, alternatives and productions up to 1100 long, then random grammars with long dependency chains, mutual recursion, undefined names, repeated left hand sides and productions in any order, against a productivity fixpoint; a strategy that always declines shows whether expansion was attempted; non-trivial: the start rule has no all-terminal alternative"
}

fn pick_index(p: &Production, e: &Expression) -> Option<usize> {
    p.rhs_iter().position(|x| std::ptr::eq(x, e))
}

#[allow(clippy::too_many_arguments)]
fn strategy_case(cx: &mut Ctx, ps: &[(Term, Vec<Vec<Term>>)], kind: usize, max_depth: usize, (rw, nw): (u32, u32), seed: [u8; 32], by_default: bool, hist: &[(usize, usize)], desc: &str) {
    let nontrivial = ps.iter().any(|p| p.1.len() > 1);
    cx.case(desc, nontrivial, AssertUnwindSafe(|| {
        let build = || -> Vec<Production> {
            ps.iter().map(|(l, a)| Production::from_parts(l.clone(), a.iter().map(|x| Expression::from_parts(x.clone())).collect())).collect()
        };
        let prods = build();
        let mk = || -> Box<dyn FnMut(&Production, usize) -> Option<usize>> {
            match kind {
                0 => {
                    let mut s = RandomWalk::from_seed(seed);
                    Box::new(move |p, d| s.choose(p, d).and_then(|e| pick_index(p, e)))
                }
                1 => {
                    let mut s = DepthBounded::from_seed(max_depth, seed);
                    Box::new(move |p, d| s.choose(p, d).and_then(|e| pick_index(p, e)))
                }
                2 => {
                    let mut s = if by_default { CoverageGuided::new() } else { CoverageGuided::from_seed(seed) };
                    Box::new(move |p, d| s.choose(p, d).and_then(|e| pick_index(p, e)))
                }
                _ => {
                    let mut s = if by_default { Weighted::new(rw, nw) } else { Weighted::from_seed(rw, nw, seed) };
                    Box::new(move |p, d| s.choose(p, d).and_then(|e| pick_index(p, e)))
                }
            }
        };
        let mut s = mk();
        let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut choices = vec![];
        for (step, &(i, d)) in hist.iter().enumerate() {
            let alts = &ps[i].1;
            let Some(c) = s(&prods[i], d) else {
                return Err(format!("step {step}: no alternative of the production was returned"));
            };
            choices.push(c);
            match kind {
                1 => {
                    let allt = |a: &Vec<Term>| a.iter().all(|x| matches!(x, Term::Terminal(_)));
                    if d >= max_depth && alts.iter().any(allt) && !allt(&alts[c]) {
                        return Err(format!("step {step}: alternative {c} at depth {d} is not all-terminal"));
                    }
                }
                2 => {
                    if seen.contains(&(i, c)) && (0..alts.len()).any(|k| !seen.contains(&(i, k))) {
                        return Err(format!("step {step}: alternative {c} repeated before all were used"));
                    }
                    seen.insert((i, c));
                }
                3 => {
                    let w = |a: &Vec<Term>| if a.contains(&ps[i].0) { rw } else { nw };
                    if w(&alts[c]) == 0 && alts.iter().any(|a| w(a) > 0) {
                        return Err(format!("step {step}: alternative {c} has weight zero"));
                    }
                }
                _ => {}
            }
        }
        // the same state and history give the same choices, whatever else happens
        let prods2 = build();
        let mut s2 = mk();
        let mut other = mk();
        for (step, &(i, d)) in hist.iter().enumerate() {
            if step % 2 == 0 {
                other(&prods[i], d);
            }
            let c = s2(&prods2[i], d);
            if c != Some(choices[step]) {
                return Err(format!("step {step}: chose {c:?} where an equal strategy with the same history chose {}", choices[step]));
            }
        }
        Ok(())
    }));
}

fn strategies_large(cx: &mut Ctx) {
    for n in [30usize, 70, 140, 300, 700] {
        for kind in 0..4 {
            for pos in [0, n / 2, n - 1] {
                // one alternative differs from all the others
                let alts = |odd: Vec<Term>, rest: Vec<Term>| (0..n).map(|i| if i == pos { odd.clone() } else { rest.clone() }).collect::<Vec<_>>();
                let long = |e: Term| { let mut v = vec![t("x"); if pos == 0 && n > 100 { 2 } else { n.min(40) }]; v.push(e); v };
                let ps = vec![
                    (nt("a"), alts(vec![t("x"), t("y")], vec![t("x"), nt("b")])),
                    (nt("b"), alts(vec![t("x"), nt("b")], vec![t("x"), nt("a")])),
                    (nt("a"), alts(long(t("b")), long(nt("b")))),
                    (nt("b"), alts(long(nt("b")), long(t("b")))),
                ];
                let hist: Vec<(usize, usize)> = (0..n * if kind == 2 { 4 } else { 1 } + 9).map(|k| (k % 4, [0, 2, 3, n, n + 1][k % 5])).collect();
                for (rw, nw) in [(0, 1), (1, 0), (100, 1)] {
                    if kind != 3 && rw == 100 {
                        continue;
                    }
                    let seed = [n as u8 ^ pos as u8 ^ rw as u8; 32];
                    for max_depth in [2, n] {
                        strategy_case(cx, &ps, kind, max_depth, (rw, nw), seed, false, &hist, &format!("large: productions of {n} alternatives, number {pos} different, kind {kind} max_depth {max_depth} weights {rw}/{nw}"));
                    }
                }
            }
        }
    }
}

/// How often each alternative should come up (per alternative: its share of `total`).
#[allow(clippy::too_many_arguments)]
fn shares_case(cx: &mut Ctx, alts: &[Vec<Term>], kind: usize, max_depth: usize, depth: usize, (rw, nw): (u32, u32), across_seeds: bool, sd: u64) {
    let desc = format!("shares: production <a> of alternatives {:?}, kind {kind} max_depth {max_depth} depth {depth} weights {rw}/{nw} {} from {sd}", G(vec![(nt("a"), alts.to_vec())]).show(), if across_seeds { "first choice over many seeds" } else { "many choices of one strategy" });
    cx.case(&desc, true, AssertUnwindSafe(|| {
        let p = Production::from_parts(nt("a"), alts.iter().map(|x| Expression::from_parts(x.clone())).collect());
        let allt = |a: &Vec<Term>| a.iter().all(|x| matches!(x, Term::Terminal(_)));
        let share: Vec<f64> = match kind {
            1 if depth >= max_depth && alts.iter().any(allt) => alts.iter().map(|a| if allt(a) { 1.0 } else { 0.0 }).collect(),
            3 if alts.iter().any(|a| (if a.contains(&nt("a")) { rw } else { nw }) > 0) => alts.iter().map(|a| f64::from(if a.contains(&nt("a")) { rw } else { nw })).collect(),
            _ => vec![1.0; alts.len()],
        };
        let total: f64 = share.iter().sum();
        let mut rng = Rng(sd);
        let mk = |seed: [u8; 32]| -> Box<dyn FnMut() -> Option<usize> + '_> {
            let p = &p;
            match kind {
                0 => { let mut s = RandomWalk::from_seed(seed); Box::new(move || s.choose(p, depth).and_then(|e| pick_index(p, e))) }
                1 => { let mut s = DepthBounded::from_seed(max_depth, seed); Box::new(move || s.choose(p, depth).and_then(|e| pick_index(p, e))) }
                2 => { let mut s = CoverageGuided::from_seed(seed); Box::new(move || s.choose(p, depth).and_then(|e| pick_index(p, e))) }
                _ => { let mut s = Weighted::from_seed(rw, nw, seed); Box::new(move || s.choose(p, depth).and_then(|e| pick_index(p, e))) }
            }
        };
        let n = 6000usize;
        let mut got = vec![];
        if across_seeds {
            for _ in 0..n {
                got.push(mk(seed32(&mut rng))().ok_or("no alternative of the production was returned")?);
            }
        } else {
            let mut s = mk(seed32(&mut rng));
            if kind == 2 {
                for _ in 0..alts.len() {
                    s();
                }
            }
            for _ in 0..n {
                got.push(s().ok_or("no alternative of the production was returned")?);
            }
        }
        let off = |obs: usize, q: f64, n: usize| (obs as f64 - q * n as f64).abs() > 7.0 * (n as f64 * q * (1.0 - q)).sqrt() + 4.0;
        for i in 0..alts.len() {
            let q = share[i] / total;
            let obs = got.iter().filter(|&&c| c == i).count();
            if off(obs, q, n) {
                return Err(format!("alternative {i} came up {obs} times of {n}; its share is {q:.4}"));
            }
        }
        // runs of neighbours, where single shares are too small to tell
        for parts in [2, 5, 16] {
            let cut = |k: usize| k * alts.len() / parts;
            for k in 0..parts {
                let q: f64 = share[cut(k)..cut(k + 1)].iter().sum::<f64>() / total;
                let obs = got.iter().filter(|&&c| cut(k) <= c && c < cut(k + 1)).count();
                if off(obs, q.min(1.0), n) {
                    return Err(format!("alternatives {} to {} came up {obs} times of {n}; their share is {q:.4}", cut(k), cut(k + 1)));
                }
            }
        }
        // what comes next does not depend on what came before
        if !across_seeds && alts.len() <= 4 {
            for i in 0..alts.len() {
                let after: Vec<usize> = got.windows(2).filter(|w| w[0] == i).map(|w| w[1]).collect();
                for j in 0..alts.len() {
                    let obs = after.iter().filter(|&&c| c == j).count();
                    if off(obs, share[j] / total, after.len()) {
                        return Err(format!("after alternative {i}, alternative {j} came up {obs} times of {}; its share is {:.4}", after.len(), share[j] / total));
                    }
                }
            }
        }
        Ok(())
    }));
}

fn strategies_shares(cx: &mut Ctx) {
    let mut rng = cx.rng(77);
    let rec = || vec![t("x"), nt("a")];
    let leaf = || vec![t("x")];
    let other = || vec![nt("b"), t("y")];
    let shapes: Vec<Vec<Vec<Term>>> = vec![
        vec![leaf(), rec()],
        vec![rec(), leaf()],
        vec![leaf(), leaf()],
        vec![rec(), other(), leaf()],
        vec![leaf(), rec(), leaf(), other()],
        vec![rec(), rec(), other(), rec()],
        (0..9).map(|i| if i % 3 == 0 { leaf() } else if i % 3 == 1 { rec() } else { other() }).collect(),
        (0..33).map(|i| if i < 20 { rec() } else { leaf() }).collect(),
        (0..100).map(|i| if i == 50 || i == 99 { leaf() } else { other() }).collect(),
        (0..300).map(|i| if i % 2 == 0 { leaf() } else { rec() }).collect(),
        (0..1100).map(|i| if i % 3 == 0 { leaf() } else { rec() }).collect(),
    ];
    for alts in &shapes {
        for across in [false, true] {
            for kind in 0..3 {
                for (m, d) in if kind == 1 { vec![(2, 0), (2, 2), (0, 7)] } else { vec![(0, 0), (0, 9)] } {
                    shares_case(cx, alts, kind, m, d, (1, 1), across, rng.next());
                }
            }
            for w in [(100, 1), (1, 100), (1, 1), (0, 0), (0, 1), (3, 2), (u32::MAX, u32::MAX), (u32::MAX, 1 << 30), (1 << 31, 1 << 31)] {
                shares_case(cx, alts, 3, 0, 0, w, across, rng.next());
            }
        }
    }
}

pub fn strategies(cx: &mut Ctx) -> &'static str {
    strategies_large(cx);
    strategies_shares(cx);
    let mut rng = cx.rng(7);
    let limit = if cx.thorough { 1_000_000 } else { 60_000 };
    for _ in 0..limit {
        if !cx.time_left() {
            break;
        }
        let np = 1 + rng.below(3);
        let ps: Vec<(Term, Vec<Vec<Term>>)> = (0..np)
            .map(|i| {
                let l = nt(NTS[rng.below(i + 1)]);
                let n = if rng.chance(1, 12) { 20 } else { 1 + rng.below(6) };
                let alts = (0..n)
                    .map(|_| (0..rng.below(4)).map(|_| if rng.chance(1, 2) { t(*rng.pick(&["a", "", "s"])) } else { nt(NTS[rng.below(3)]) }).collect())
                    .collect();
                (l, alts)
            })
            .collect();
        let kind = rng.below(4);
        let max_depth = rng.below(4);
        let big = rng.chance(1, 10);
        let (rw, nw) = if big { (*rng.pick(&[0, 1, u32::MAX / 20, 1 << 27, 1 << 31, u32::MAX]), *rng.pick(&[0, 1, u32::MAX / 21, 1 << 31, u32::MAX])) } else { (*rng.pick(&[0, 1, 2, 100]), *rng.pick(&[0u32, 1, 3])) };
        let seed = if rng.chance(1, 6) { [0; 32] } else { seed32(&mut rng) };
        let by_default = rng.chance(1, 6);
        let hist: Vec<(usize, usize)> = (0..3 + rng.below(40)).map(|_| (rng.below(np), rng.below(5))).collect();
        let desc = format!("productions {:?} kind {kind} max_depth {max_depth} weights {rw}/{nw} seed {:?} default {by_default} history (production, depth) {hist:?}", G(ps.clone()).show(), &seed[..4]);
        strategy_case(cx, &ps, kind, max_depth, (rw, nw), seed, by_default, &hist, &desc);
    }
    "productions with up to 700 alternatives and histories of 2800 choices, 6000 choices of each strategy compared with the share of each alternative (off by more than 7 standard deviations fails), then random productions with up to 20 alternatives, every built-in strategy, histories of up to 42 choices over several productions and depths, weights including zero and sums beyond 2^32; each history is replayed on a second equal strategy; non-trivial: some production has two or more alternatives"
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
fn mix_str(a: u64, s: &str) -> u64 {
    s.bytes().fold(mix(a, s.len() as u64), |h, c| mix(h, u64::from(c)))
}

/// A strategy that decides by its seed, the number of choices so far, the production and the depth, and writes down what it was asked.
#[derive(Clone)]
struct Script {
    seed: u64,
    free: usize,
    stop: usize,
    decline: u64,
    asked: Vec<(String, usize, usize)>,
    h: BTreeMap<String, usize>,
}
impl Script {
    fn decide(&mut self, name: &str, alts: &[Vec<Term>], depth: usize) -> Option<usize> {
        let k = self.asked.len();
        self.asked.push((name.to_string(), alts.len(), depth));
        if k >= self.stop {
            return None;
        }
        let x = mix_str(mix(mix(self.seed, k as u64), depth as u64), name);
        if self.decline > 0 && x % self.decline == 0 {
            return None;
        }
        if k < self.free {
            return Some((x >> 20) as usize % alts.len());
        }
        alts.iter().enumerate().filter_map(|(i, a)| alt_height(&self.h, a).map(|x| (x, i))).min().map(|p| p.1)
    }
}
impl GenerationStrategy for Script {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        let Term::Nonterminal(n) = &production.lhs else { return None };
        let alts: Vec<Vec<Term>> = production.rhs_iter().map(|e| e.terms_iter().cloned().collect()).collect();
        let i = self.decide(&n.clone(), &alts, depth)?;
        production.rhs_iter().nth(i)
    }
}

/// What the statement says generation comes to.
fn follow_ref(g: &G, n: &str, depth: usize, s: &mut Script, cb: &dyn Fn(&str, &str) -> bool) -> Option<String> {
    let Some((_, alts)) = g.0.iter().find(|(l, _)| *l == nt(n)) else { return Some(format!("<{n}>")) };
    loop {
        if alts.is_empty() || (alts.len() == 1 && alts[0].is_empty()) {
            return None;
        }
        let i = s.decide(n, alts, depth)?;
        let mut out = String::new();
        for x in &alts[i] {
            match x {
                Term::Terminal(t) => out.push_str(t),
                Term::Nonterminal(m) => out.push_str(&follow_ref(g, m, depth + 1, s, cb)?),
            }
        }
        if cb(n, &out) {
            return Some(out);
        }
    }
}

fn follow_case(cx: &mut Ctx, g: &G, desc: &str, script: Script, reject: u64) {
    let reach = productive(g).contains(&g.0[0].0);
    cx.case(desc, reach, AssertUnwindSafe(|| {
        let gr = g.build();
        let sd = script.seed;
        let cb = move |n: &str, t: &str| reject == 0 || mix_str(mix_str(sd, n), t) % reject != 0;
        let mut a = script.clone();
        let got = if reject == 0 { gr.generate_seeded_with_strategy(&mut a) } else { gr.generate_seeded_callback_with_strategy(cb, &mut a) };
        let mut b = script.clone();
        let want = match &g.0[0].0 {
            Term::Nonterminal(n) if reach => follow_ref(g, n, 0, &mut b, &cb),
            _ => None,
        };
        if got.as_ref().ok() != want.as_ref() {
            return Err(format!("generated {got:?}; following the strategy gives {want:?}"));
        }
        if a.asked != b.asked {
            let k = a.asked.iter().zip(&b.asked).position(|(x, y)| x != y).unwrap_or(a.asked.len().min(b.asked.len()));
            return Err(format!("question {k} to the strategy (name, alternatives, depth) was {:?}; it should be {:?}", a.asked.get(k), b.asked.get(k)));
        }
        Ok(())
    }));
}

fn seeded_case(cx: &mut Ctx, g: &G, desc: &str, sd: u64, reject: u64, many: bool) {
    cx.case(desc, true, AssertUnwindSafe(|| {
        let gr = g.build();
        let gr2 = g.build();
        let mut r = Rng(sd);
        let s32 = seed32(&mut r);
        let seen = RefCell::new(0usize);
        let cb = |n: &str, t: &str| {
            *seen.borrow_mut() += 1;
            reject == 0 || *seen.borrow() > 4000 || mix_str(mix_str(sd, n), t) % reject != 0
        };
        let run = |gr: &bnf::Grammar, rng: &mut StdRng| -> Result<String, ()> {
            *seen.borrow_mut() = 0;
            if reject == 0 { gr.generate_seeded(rng).map_err(|_| ()) } else { gr.generate_seeded_callback(rng, cb).map_err(|_| ()) }
        };
        let mut a = StdRng::from_seed(s32);
        let mut b = StdRng::from_seed(s32);
        let rounds = if many { 40 } else { 3 };
        let mut all = BTreeSet::new();
        for k in 0..rounds {
            let x = run(&gr, &mut a);
            if k % 2 == 0 {
                let _ = run(&gr2, &mut StdRng::from_seed([k as u8; 32]));
            }
            let y = run(&gr2, &mut b);
            if x != y {
                return Err(format!("call {k} with equal generators gave {x:?} and {y:?}"));
            }
            all.insert(x);
        }
        if many && all.len() < 20 {
            return Err(format!("{rounds} calls with one generator gave only {} different sentences", all.len()));
        }
        if many {
            let other: BTreeSet<_> = (0..40u8).map(|k| run(&gr, &mut StdRng::from_seed([k; 32]))).collect();
            if other.len() < 20 {
                return Err(format!("40 differently seeded generators gave only {} different sentences", other.len()));
            }
        }
        // strategies made from equal seeds
        for kind in 0..4 {
            let mut out = vec![];
            for gr in [&gr, &gr2] {
                *seen.borrow_mut() = 0;
                out.push(match kind {
                    0 => gr.generate_seeded_callback_with_strategy(cb, &mut RandomWalk::from_seed(s32)).map_err(|_| ()),
                    1 => gr.generate_seeded_callback_with_strategy(cb, &mut DepthBounded::from_seed(2, s32)).map_err(|_| ()),
                    2 => gr.generate_seeded_callback_with_strategy(cb, &mut CoverageGuided::from_seed(s32)).map_err(|_| ()),
                    _ => gr.generate_seeded_callback_with_strategy(cb, &mut Weighted::from_seed(3, 2, s32)).map_err(|_| ()),
                });
            }
            if out[0] != out[1] {
                return Err(format!("strategies of kind {kind} made from equal seeds gave {:?} and {:?}", out[0], out[1]));
            }
        }
        Ok(())
    }));
}

fn follow_large(cx: &mut Ctx) {
    let script = |g: &G, seed: u64, free: usize| Script { seed, free, stop: 100_000, decline: 0, asked: vec![], h: heights(g) };
    // a long way down, each level with a choice
    for n in [3usize, 17, 70, 130, 260, 600, 1500] {
        let name = |i: usize| nt(&format!("n{i}"));
        let mut ps: Vec<(Term, Vec<Vec<Term>>)> = (0..n).map(|i| (name(i), vec![vec![t("a"), name(i + 1)], vec![t("b"), name(i + 1), t("c")], vec![name(i + 1)]])).collect();
        ps.push((name(n), vec![vec![t("x")], vec![t("y")]]));
        ps[1..].reverse();
        let g = G(ps);
        for seed in 0..3 {
            follow_case(cx, &g, &format!("large: chain of {n} rules of three alternatives, script {seed}"), script(&g, seed, 100_000), 0);
        }
        for seed in 0..if n > 300 { 2 } else { 6 } {
            let mut s = script(&g, seed, 100_000);
            s.decline = 3 * n as u64 / 2;
            follow_case(cx, &g, &format!("large: chain of {n} rules of three alternatives, script {seed}, declines at random"), s, 0);
        }
        if n <= 260 {
            follow_case(cx, &g, &format!("large: chain of {n} rules, callback"), script(&g, 9, 100_000), 100_000);
        }
    }
    // a long alternative
    for n in [40usize, 300, 3000] {
        let g = G(vec![
            (nt("s"), vec![(0..n).map(|i| if i % 3 == 0 { t("-") } else { nt("d") }).collect(), vec![t("z")]]),
            (nt("d"), vec![vec![t("0")], vec![t("1")], vec![nt("d"), t("2")], vec![nt("u")]]),
        ]);
        for seed in 0..6 {
            follow_case(cx, &g, &format!("large: alternative of {n} terms, script {seed}"), script(&g, seed, n / 2), 0);
            follow_case(cx, &g, &format!("large: alternative of {n} terms, script {seed}, callback rejects"), script(&g, seed, 100_000), 7);
        }
    }
    // rejected again and again
    for r in [1u64, 2, 50] {
        let g = G(vec![(nt("s"), vec![vec![nt("d"), nt("d")], vec![nt("d")]]), (nt("d"), (0..40).map(|i| vec![t(&format!("{i}"))]).collect())]);
        for seed in 0..8 {
            let mut s = script(&g, seed, 100_000);
            s.stop = 3000;
            follow_case(cx, &g, &format!("large: one text in {r} rejected, script {seed}"), s, r);
        }
    }
    let wide = G(vec![(nt("s"), vec![vec![nt("d"); 12], vec![nt("d"); 13]]), (nt("d"), (0..10).map(|i| vec![t(&format!("{i}"))]).collect())]);
    for sd in 0..6 {
        seeded_case(cx, &wide, &format!("seeded: 10^12 sentences, seed {sd}"), sd, 0, true);
        seeded_case(cx, &wide, &format!("seeded: 10^12 sentences, seed {sd}, callback"), sd, 5, true);
    }
}

pub fn follow(cx: &mut Ctx) -> &'static str {
    follow_large(cx);
    let mut rng = cx.rng(15);
    let limit = if cx.thorough { 2_000_000 } else { 60_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        let o = GenOpts {
            nts: 4,
            max_prods: 5,
            max_alts: 3,
            max_terms: 3,
            terminals: &["a", "b", "", "é", "<c>", "ab", " ", "\n", "A"],
            undefined: rng.chance(1, 3),
            empty_alts: true,
            empty_prods: rng.chance(1, 6),
            terminal_lhs: rng.chance(1, 10),
        };
        let g = random(&mut rng, &o);
        if g.0.is_empty() {
            cx.skip();
            continue;
        }
        let sd = rng.next();
        if k % 8 == 0 && !recursive(&g) {
            let reject = *rng.pick(&[0u64, 0, 3]);
            seeded_case(cx, &g, &format!("seeded: grammar [{}] seed {sd} reject {reject}", g.show()), sd, reject, false);
            continue;
        }
        let s = Script { seed: sd, free: rng.below(12), stop: 1 + rng.below(400), decline: *rng.pick(&[0, 0, 0, 5, 30]), asked: vec![], h: heights(&g) };
        let reject = *rng.pick(&[0u64, 0, 2, 3, 9]);
        let desc = format!("grammar [{}] script seed {sd} free {} stop {} decline {} callback rejects one text in {reject}", g.show(), s.free, s.stop, s.decline);
        follow_case(cx, &g, &desc, s, reject);
    }
    "chains up to 1500 rules deep, alternatives of up to 3000 terms and up to 3000 rejections, then random grammars, with a strategy that decides by a script and records every question (name, alternatives, depth), compared with an independent interpreter of the statement; and generation from equal and different generators and seeds, twice; non-trivial: the start rule can terminate"
}
