//! Grammar model shared by the property modules: building, printing, spans, trees.
use crate::Rng;
use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Flat = Vec<(Term, Vec<Term>)>;

/// A grammar as plain data: (lhs, alternatives) in order.
#[derive(Clone, Debug)]
pub struct G(pub Vec<(Term, Vec<Vec<Term>>)>);

pub fn nt(s: &str) -> Term {
    Term::Nonterminal(s.to_string())
}
pub fn t(s: &str) -> Term {
    Term::Terminal(s.to_string())
}

/// A strategy that never chooses.
struct Decline;
impl bnf::GenerationStrategy for Decline {
    fn choose<'p>(&mut self, _: &'p Production, _: usize) -> Option<&'p Expression> {
        None
    }
}

/// Uses that may not leave anything behind in the grammar.
fn poke(g: &Grammar, small: bool) {
    let _ = g.validate();
    let _ = g.build_parser().is_ok();
    if small {
        let _ = g.generate_seeded_with_strategy(&mut Decline);
        let _ = g.to_string();
        let _ = g.clone();
    }
}

impl G {
    /// The grammar, constructed at once or, for a third of the contents, in steps with uses of the unfinished grammar in between.
    pub fn build(&self) -> Grammar {
        let h = self.0.iter().flat_map(|(l, alts)| std::iter::once(l).chain(alts.iter().flatten())).fold(7usize, |h, x| {
            let (Term::Terminal(s) | Term::Nonterminal(s)) = x;
            h.wrapping_mul(31).wrapping_add(s.len() + s.bytes().next().unwrap_or(1) as usize)
        });
        self.build_as(h % 6)
    }
    pub fn build_as(&self, mode: usize) -> Grammar {
        let prod = |(l, alts): &(Term, Vec<Vec<Term>>)| Production::from_parts(l.clone(), alts.iter().map(|a| Expression::from_parts(a.clone())).collect());
        let mut ps: Vec<Production> = self.0.iter().map(prod).collect();
        let small = self.0.iter().map(|p| 1 + p.1.iter().map(|a| 1 + a.len()).sum::<usize>()).sum::<usize>() < 300;
        match mode {
            0 if !ps.is_empty() => {
                // the last production comes later, its last alternative later still
                let last = self.0.last().unwrap();
                ps.pop();
                let mut g = Grammar::from_parts(ps);
                poke(&g, small);
                let (alt, rest) = match last.1.split_last() {
                    Some((a, r)) => (Some(a.clone()), r.to_vec()),
                    None => (None, vec![]),
                };
                g.add_production(prod(&(last.0.clone(), rest)));
                poke(&g, small);
                if let Some(a) = alt {
                    if let Some(p) = g.productions_iter_mut().last() {
                        p.add_to_rhs(Expression::from_parts(a));
                    }
                }
                g
            }
            1 => {
                // one production too many, removed again; then a clone
                let extra = Production::from_parts(nt("one too many"), vec![Expression::from_parts(vec![nt("one too many"), nt("undefined")])]);
                let mut g = Grammar::from_parts(ps);
                g.add_production(extra.clone());
                poke(&g, small);
                g.remove_production(&extra);
                poke(&g, small);
                g.clone()
            }
            _ => Grammar::from_parts(ps),
        }
    }
    pub fn flat(&self) -> Flat {
        self.0.iter().flat_map(|(l, alts)| alts.iter().map(move |a| (l.clone(), a.clone()))).collect()
    }
    pub fn show(&self) -> String {
        let term = |x: &Term| match x {
            Term::Nonterminal(s) => format!("<{}>", s.escape_debug()),
            Term::Terminal(s) => format!("'{}'", s.escape_debug()),
        };
        self.0
            .iter()
            .map(|(l, alts)| {
                let a: Vec<String> = alts
                    .iter()
                    .map(|a| if a.is_empty() { "(no terms)".into() } else { a.iter().map(term).collect::<Vec<_>>().join(" ") })
                    .collect();
                format!("{} ::= {}", term(l), if a.is_empty() { "(no alternatives)".into() } else { a.join(" | ") })
            })
            .collect::<Vec<_>>()
            .join(" ;; ")
    }
    pub fn defined(&self) -> BTreeSet<String> {
        self.0
            .iter()
            .filter_map(|(l, _)| match l {
                Term::Nonterminal(s) => Some(s.clone()),
                _ => None,
            })
            .collect()
    }
    pub fn referenced(&self) -> BTreeSet<String> {
        self.0
            .iter()
            .flat_map(|(_, a)| a.iter().flatten())
            .filter_map(|x| match x {
                Term::Nonterminal(s) => Some(s.clone()),
                _ => None,
            })
            .collect()
    }
}

pub struct GenOpts<'a> {
    pub nts: usize,
    pub max_prods: usize,
    pub max_alts: usize,
    pub max_terms: usize,
    pub terminals: &'a [&'a str],
    pub undefined: bool,
    pub empty_alts: bool,
    pub empty_prods: bool,
    pub terminal_lhs: bool,
}

pub const NTS: &[&str] = &["s", "a", "b", "c", "dé", "e>", "__anon0", "表"];
const NAME_POOL: &[&str] = &["", " ", "S", "s ", " s", "ss", "undef2", "a", "b", "c", "É", "'", "\"", "|", "x-1", "\n", "0", "sa", "nonterminal-with-a-long-name", "表情"];

/// names of a grammar: usually the plain ones, sometimes awkward ones
pub fn name_table(rng: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = NTS.iter().map(|s| s.to_string()).collect();
    if rng.chance(1, 4) {
        for _ in 0..2 {
            let n = rng.pick(NAME_POOL).to_string();
            if !v.contains(&n) {
                let i = rng.below(4);
                v[i] = n;
            }
        }
    }
    v
}

/// a few terminals: plain sets, awkward sets, runs
pub fn terminal_table(rng: &mut Rng) -> Vec<String> {
    const POOL: &[&str] = &["a", "b", "", " ", " a", "a ", "A", "ab", "ba", "aa", "é", "e", "\u{301}", "😀", "a😀", "\n", "\t", "\r\n", "'", "\"", "<", "<a>", "::=", "|", ";", "0", "00", "\0", "ß", "SS", "İ", "\u{a0}", ".", "\\", "aaaa", "  "];
    let n = 1 + rng.below(4);
    (0..n)
        .map(|_| {
            let s = rng.pick(POOL).to_string();
            if rng.chance(1, 12) { s.repeat(1 + rng.below(4)) } else { s }
        })
        .collect()
}

pub fn random(rng: &mut Rng, o: &GenOpts) -> G {
    let tab = name_table(rng);
    let und: &str = if rng.chance(1, 3) { NAME_POOL[rng.below(4)] } else { "undef" };
    let n = 1 + rng.below(o.nts);
    let np = n + if rng.chance(1, 3) { rng.below(o.max_prods + 1 - n.min(o.max_prods)) } else { 0 };
    let mut prods = vec![];
    for i in 0..np {
        let lhs = if i < n { nt(&tab[i]) } else { nt(&tab[rng.below(n)]) };
        let lhs = if o.terminal_lhs && rng.chance(1, 12) { t(*rng.pick(o.terminals)) } else { lhs };
        let na = if o.empty_prods && rng.chance(1, 10) { 0 } else { 1 + rng.below(o.max_alts) };
        let mut alts = vec![];
        for _ in 0..na {
            let len = if o.empty_alts && rng.chance(1, 8) { 0 } else { 1 + rng.below(o.max_terms) };
            let mut a = vec![];
            for _ in 0..len {
                a.push(if rng.chance(1, 2) {
                    t(*rng.pick(o.terminals))
                } else if o.undefined && rng.chance(1, 8) {
                    nt(und)
                } else {
                    nt(&tab[rng.below(n)])
                });
            }
            alts.push(a);
        }
        if rng.chance(1, 10) && !alts.is_empty() {
            let d = rng.pick(&alts).clone();
            alts.push(d);
        }
        prods.push((lhs, alts));
    }
    if rng.chance(1, 3) {
        // productions in any order: the start is whatever comes first
        for i in (1..prods.len()).rev() {
            let j = rng.below(i + 1);
            prods.swap(i, j);
        }
    }
    if !o.undefined {
        let g = G(prods.clone());
        let d = g.defined();
        for m in g.referenced() {
            if !d.contains(&m) {
                prods.push((nt(&m), vec![vec![t("a")]]));
            }
        }
    }
    G(prods)
}

/// nonterminals deriving the empty string
pub fn nullable(flat: &Flat) -> BTreeSet<Term> {
    let mut n: BTreeSet<Term> = BTreeSet::new();
    loop {
        let mut ch = false;
        for (l, a) in flat {
            if matches!(l, Term::Nonterminal(_)) && !n.contains(l) && a.iter().all(|x| is_null(&n, x)) {
                n.insert(l.clone());
                ch = true;
            }
        }
        if !ch {
            return n;
        }
    }
}
fn is_null(n: &BTreeSet<Term>, x: &Term) -> bool {
    match x {
        Term::Terminal(s) => s.is_empty(),
        Term::Nonterminal(_) => n.contains(x),
    }
}

/// Some nonterminal derives itself with nothing around it (infinitely many trees, or endless search).
pub fn cyclic(flat: &Flat) -> bool {
    let n = nullable(flat);
    let mut edges: BTreeMap<Term, BTreeSet<Term>> = BTreeMap::new();
    for (l, a) in flat {
        for (k, x) in a.iter().enumerate() {
            if matches!(x, Term::Nonterminal(_)) && a.iter().enumerate().all(|(m, y)| m == k || is_null(&n, y)) {
                edges.entry(l.clone()).or_default().insert(x.clone());
            }
        }
    }
    let nodes: Vec<Term> = edges.keys().cloned().collect();
    for s in &nodes {
        let mut seen: BTreeSet<Term> = BTreeSet::new();
        let mut todo: Vec<Term> = edges[s].iter().cloned().collect();
        while let Some(x) = todo.pop() {
            if &x == s {
                return true;
            }
            if seen.insert(x.clone()) {
                if let Some(e) = edges.get(&x) {
                    todo.extend(e.iter().cloned());
                }
            }
        }
    }
    false
}

/// Derivability of byte spans, by fixpoint.
pub struct Spans<'a> {
    pub flat: &'a Flat,
    pub input: &'a [u8],
    pub set: std::collections::HashSet<(Term, usize, usize)>,
    /// undefined nonterminals derive `<name>`
    pub undef_text: bool,
    pub defined: BTreeSet<Term>,
}
impl<'a> Spans<'a> {
    pub fn new(flat: &'a Flat, input: &'a [u8], undef_text: bool, lhs_all: &[Term]) -> Self {
        let mut s = Spans {
            flat,
            input,
            set: Default::default(),
            undef_text,
            defined: lhs_all.iter().cloned().collect(),
        };
        loop {
            let before = s.set.len();
            for (l, a) in flat {
                for i in 0..=input.len() {
                    let mut ends: BTreeSet<usize> = BTreeSet::from([i]);
                    for x in a {
                        let mut next = BTreeSet::new();
                        for &e in &ends {
                            for j in e..=input.len() {
                                if s.can(x, e, j) {
                                    next.insert(j);
                                }
                            }
                        }
                        ends = next;
                    }
                    for j in ends {
                        s.set.insert((l.clone(), i, j));
                    }
                }
            }
            if s.set.len() == before {
                return s;
            }
        }
    }
    /// does `x` as a right hand side term derive input[i..j]?
    pub fn can(&self, x: &Term, i: usize, j: usize) -> bool {
        match x {
            Term::Terminal(s) => &self.input[i..j] == s.as_bytes(),
            Term::Nonterminal(n) => {
                if self.undef_text && !self.defined.contains(x) {
                    return &self.input[i..j] == format!("<{n}>").as_bytes();
                }
                self.set.contains(&(x.clone(), i, j))
            }
        }
    }
}

/// All derivation trees of input[i..j] from productions of `lhs`, serialised; one entry per choice of productions.
pub struct Trees<'a> {
    pub sp: &'a Spans<'a>,
    memo: HashMap<(Term, usize, usize), Option<std::rc::Rc<Vec<String>>>>,
    cap: usize,
}
impl<'a> Trees<'a> {
    pub fn new(sp: &'a Spans<'a>, cap: usize) -> Self {
        Trees { sp, memo: HashMap::new(), cap }
    }
    /// None: more than `cap`
    pub fn of(&mut self, lhs: &Term, i: usize, j: usize) -> Option<std::rc::Rc<Vec<String>>> {
        let key = (lhs.clone(), i, j);
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        let mut out = vec![];
        let flat = self.sp.flat;
        let mut over = false;
        for (l, a) in flat {
            if l == lhs {
                match self.seq(a, i, j) {
                    Some(v) => out.extend(v.into_iter().map(|c| format!("({}{})", term_key(lhs), c))),
                    None => over = true,
                }
                if out.len() > self.cap {
                    over = true;
                }
                if over {
                    break;
                }
            }
        }
        let r = if over { None } else { Some(std::rc::Rc::new(out)) };
        self.memo.insert(key, r.clone());
        r
    }
    fn seq(&mut self, a: &[Term], i: usize, j: usize) -> Option<Vec<String>> {
        let Some(x) = a.first() else {
            return Some(if i == j { vec![String::new()] } else { vec![] });
        };
        let mut out = vec![];
        for m in i..=j {
            if !self.sp.can(x, i, m) || !self.rest_ok(&a[1..], m, j) {
                continue;
            }
            let heads: Vec<String> = match x {
                Term::Terminal(s) => vec![format!(" {:?}", s)],
                Term::Nonterminal(_) => self.of(x, i, m)?.iter().map(|s| format!(" {s}")).collect(),
            };
            let tails = self.seq(&a[1..], m, j)?;
            if heads.len() * tails.len() + out.len() > self.cap {
                return None;
            }
            for h in &heads {
                for tl in &tails {
                    out.push(format!("{h}{tl}"));
                }
            }
        }
        Some(out)
    }
    fn rest_ok(&self, a: &[Term], i: usize, j: usize) -> bool {
        let mut ends = BTreeSet::from([i]);
        for x in a {
            let mut next = BTreeSet::new();
            for &e in &ends {
                for k in e..=j {
                    if self.sp.can(x, e, k) {
                        next.insert(k);
                    }
                }
            }
            ends = next;
        }
        ends.contains(&j)
    }
}

pub fn term_key(x: &Term) -> String {
    match x {
        Term::Nonterminal(s) => format!("N{:?}", s),
        Term::Terminal(s) => format!("T{:?}", s),
    }
}

pub fn tree_key(tr: &ParseTree) -> String {
    let mut s = format!("({}", term_key(tr.lhs));
    for c in tr.rhs_iter() {
        match c {
            ParseTreeNode::Terminal(x) => s.push_str(&format!(" {:?}", x)),
            ParseTreeNode::Nonterminal(p) => {
                s.push(' ');
                s.push_str(&tree_key(p));
            }
        }
    }
    s.push(')');
    s
}

pub fn yield_of(tr: &ParseTree, out: &mut String) {
    for c in tr.rhs_iter() {
        match c {
            ParseTreeNode::Terminal(x) => out.push_str(x),
            ParseTreeNode::Nonterminal(p) => yield_of(p, out),
        }
    }
}

/// every node of the tree is an alternative of the grammar
pub fn tree_ok(tr: &ParseTree, flat: &Flat) -> Result<(), String> {
    let shape: Vec<Term> = tr
        .rhs_iter()
        .map(|c| match c {
            ParseTreeNode::Terminal(x) => t(x),
            ParseTreeNode::Nonterminal(p) => p.lhs.clone(),
        })
        .collect();
    // a nonterminal child must stand for a nonterminal term
    for c in tr.rhs_iter() {
        if let ParseTreeNode::Nonterminal(p) = c {
            if !matches!(p.lhs, Term::Nonterminal(_)) {
                return Err(format!("inner node with terminal lhs {}", term_key(p.lhs)));
            }
        }
    }
    if !flat.iter().any(|(l, a)| l == tr.lhs && a == &shape) {
        return Err(format!("node {} with children {:?} is not an alternative of the grammar", term_key(tr.lhs), shape.iter().map(term_key).collect::<Vec<_>>()));
    }
    for c in tr.rhs_iter() {
        if let ParseTreeNode::Nonterminal(p) = c {
            tree_ok(p, flat)?;
        }
    }
    Ok(())
}

/// How many partial derivations (item with history) there are over all spans: the work an Earley parser
/// that keeps every derivation does. Used only to skip inputs too ambiguous to enumerate.
pub fn partials(sp: &Spans, cap: u64) -> u64 {
    struct P<'a> {
        sp: &'a Spans<'a>,
        memo: HashMap<(Term, usize, usize), u64>,
    }
    impl P<'_> {
        fn cnt(&mut self, x: &Term, i: usize, j: usize) -> u64 {
            if !self.sp.can(x, i, j) {
                return 0;
            }
            match x {
                Term::Terminal(_) => 1,
                Term::Nonterminal(_) => {
                    let key = (x.clone(), i, j);
                    if let Some(&c) = self.memo.get(&key) {
                        return c;
                    }
                    let mut n = 0u64;
                    let flat = self.sp.flat;
                    for (l, a) in flat {
                        if l == x {
                            n = n.saturating_add(self.seq(a, i, j));
                        }
                    }
                    self.memo.insert(key, n);
                    n
                }
            }
        }
        fn ok(&self, a: &[Term], i: usize, j: usize) -> bool {
            let mut ends = BTreeSet::from([i]);
            for x in a {
                let mut next = BTreeSet::new();
                for &e in &ends {
                    for k in e..=j {
                        if self.sp.can(x, e, k) {
                            next.insert(k);
                        }
                    }
                }
                ends = next;
            }
            ends.contains(&j)
        }
        fn seq(&mut self, a: &[Term], i: usize, j: usize) -> u64 {
            let Some((last, init)) = a.split_last() else { return (i == j) as u64 };
            let mut n = 0u64;
            for m in i..=j {
                if self.sp.can(last, m, j) && self.ok(init, i, m) {
                    n = n.saturating_add(self.seq(init, i, m).saturating_mul(self.cnt(last, m, j)));
                }
            }
            n
        }
    }
    let mut p = P { sp, memo: HashMap::new() };
    let mut total = 0u64;
    let n = sp.input.len();
    for (_, a) in sp.flat {
        for k in 0..=a.len() {
            for i in 0..=n {
                for j in i..=n {
                    total = total.saturating_add(p.seq(&a[..k], i, j));
                    if total > cap {
                        return total;
                    }
                }
            }
        }
    }
    total
}
