//! C08 (normalisation), C09 (round trip), C10 (layout).
use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::{Expression, Grammar, Production, Term, ABNF, BNF};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;

#[derive(Clone, Debug)]
enum E {
    S(Term),
    Group(Vec<Vec<E>>),
    Opt(Vec<Vec<E>>),
}
type Prods = Vec<(String, Vec<Vec<E>>)>;

const BNF_NAMES: &[&str] = &["s", "a", "b", "__anon0", "__anon1", "__anon2", "__anon3", "__anon10", "dé", "a b", "a(b", "a'b", "q\"[", "", "x;y", "::=", "a|b", "表", "n\nl", "<", " a", "a ", "\u{a0}b", "A", "a\t"];
const ABNF_NAMES: &[&str] = &["s", "a", "b", "__anon0", "rule-1", "é", "a(b", "a;b", "r=1", "a'b", "x/y", "Z\"", "表", "a[", "anon0", "A", "e\u{301}"];
const TEXTS: &[&str] = &["", "a", "ab", " ", ";", "; x", "(", "[", ")", "<a>", "<", "::=", "|", "/", "=", "é", "😀", "a\nb", "\n", "\r", "'", "\"", "it's", "say \"x\"", "__anon0", "\\", "\\n", "\t", "#", "\r\n", "\n\n", "  ", "A", "--", "`", "\0", "<!--", "\u{feff}", "$", "%x41", "/*", "::= ", " | ", "\u{a0}"];

/// a text of the pool, sometimes a run or a mixture
fn rtext(rng: &mut Rng) -> String {
    let mut s = rng.pick(TEXTS).to_string();
    for _ in 0..rng.below(3) {
        if rng.chance(1, 2) {
            s.push_str(*rng.pick(TEXTS));
        }
    }
    if rng.chance(1, 10) {
        s = s.repeat(2 + rng.below(5));
    }
    if s.contains('"') && s.contains('\'') {
        s = s.replace(*rng.pick(&['"', '\'']), "");
    }
    s
}

fn names(bnf: bool, rng: &mut Rng) -> Vec<&'static str> {
    let all = if bnf { BNF_NAMES } else { ABNF_NAMES };
    let all: Vec<&'static str> = all.iter().copied().filter(|n| bnf || n.chars().next().map_or(false, |c| c.is_alphabetic())).collect();
    (0..1 + rng.below(4)).map(|_| *rng.pick(&all)).collect()
}

fn rexpr(rng: &mut Rng, names: &[&str], depth: usize, budget: &mut usize) -> Vec<E> {
    let n = 1 + rng.below(3);
    (0..n)
        .map(|_| {
            if depth > 0 && *budget > 0 && rng.chance(1, 3) {
                *budget -= 1;
                let alts = (0..1 + rng.below(3)).map(|_| rexpr(rng, names, depth - 1, budget)).collect();
                if rng.chance(1, 2) { E::Group(alts) } else { E::Opt(alts) }
            } else if rng.chance(1, 2) {
                E::S(nt(*rng.pick(names)))
            } else {
                E::S(t(&rtext(rng)))
            }
        })
        .collect()
}

fn rprods(rng: &mut Rng, bnf: bool, groups: bool) -> Prods {
    let ns = names(bnf, rng);
    let mut budget = if groups { 1 + rng.below(6) } else { 0 };
    (0..1 + rng.below(4))
        .map(|_| {
            let l = rng.pick(&ns).to_string();
            let gd = if groups && rng.chance(2, 3) { 4 } else { 0 };
            (l, (0..1 + rng.below(3)).map(|_| rexpr(rng, &ns, gd, &mut budget)).collect())
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(String),
    Text(String),
    Def,
    Alt,
    Open(char),
    Close(char),
    Raw(String),
}

fn toks_expr(alts: &[Vec<E>], out: &mut Vec<Tok>) {
    for (i, a) in alts.iter().enumerate() {
        if i > 0 {
            out.push(Tok::Alt);
        }
        for e in a {
            match e {
                E::S(Term::Nonterminal(n)) => out.push(Tok::Name(n.clone())),
                E::S(Term::Terminal(s)) => out.push(Tok::Text(s.clone())),
                E::Group(x) => {
                    out.push(Tok::Open('('));
                    toks_expr(x, out);
                    out.push(Tok::Close(')'));
                }
                E::Opt(x) => {
                    out.push(Tok::Open('['));
                    toks_expr(x, out);
                    out.push(Tok::Close(']'));
                }
            }
        }
    }
}

fn toks(p: &Prods) -> Vec<Tok> {
    let mut v = vec![];
    for (l, alts) in p {
        v.push(Tok::Name(l.clone()));
        v.push(Tok::Def);
        toks_expr(alts, &mut v);
    }
    v
}

fn layout_piece(rng: &mut Rng, must_end: bool) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(4) {
        match rng.below(6) {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push_str("\r\n"),
            3 => s.push(*rng.pick(&['\t', '\u{a0}', '\u{2003}', '\u{b}', '\u{85}'])),
            _ => {
                s.push(';');
                s.push_str(*rng.pick(&["", " comment", " it's (a [b", "\"", " <x> ::= 'y'", ";;", " a = b / c", " é )]", "a\u{c}b 'c", "\u{b}<", " \u{85}|", "\u{2028}x ::="]));
                s.push_str(*rng.pick(&["\n", "\r\n", "\r"]));
            }
        }
    }
    if must_end && rng.chance(1, 4) {
        s.push_str("; the end");
        if rng.chance(1, 2) {
            s.push_str(" (");
        }
    }
    s
}

/// Print tokens with a random layout; `plain`: one blank between tokens, a newline between rules.
fn render(toks: &[Tok], bnf: bool, plain: bool, rng: &mut Rng) -> String {
    let mut s = if plain { String::new() } else { layout_piece(rng, false) };
    for (i, k) in toks.iter().enumerate() {
        match k {
            Tok::Name(n) if bnf => s.push_str(&format!("<{n}>")),
            Tok::Name(n) => s.push_str(n),
            Tok::Text(x) => {
                let q = if x.contains('\'') {
                    '"'
                } else if x.contains('"') || plain {
                    '\''
                } else {
                    *rng.pick(&['"', '\''])
                };
                s.push(q);
                s.push_str(x);
                s.push(q);
            }
            Tok::Def => {
                s.push_str(if bnf { "::=" } else { "=" });
                // RFC 5234 section 3.3: incremental alternatives
                if !plain && rng.chance(1, 10) {
                    s.push(if bnf { '|' } else { '/' });
                }
            }
            Tok::Alt => s.push(if bnf { '|' } else { '/' }),
            Tok::Open(c) | Tok::Close(c) => s.push(*c),
            Tok::Raw(r) => s.push_str(r),
        }
        let last = i + 1 == toks.len();
        // an ABNF name ends at whitespace or a closing bracket
        let need = !bnf && matches!(k, Tok::Name(_) | Tok::Raw(_)) && !last && !matches!(toks[i + 1], Tok::Close(_));
        // `=/` is a different token
        let need = need || (matches!(k, Tok::Def) && !last && matches!(toks[i + 1], Tok::Alt));
        let mut l = if plain { if last { "\n".into() } else { " ".into() } } else { layout_piece(rng, last) };
        if matches!(k, Tok::Name(_)) && !bnf && !l.is_empty() && !l.starts_with(char::is_whitespace) {
            l.insert(0, ' ');
        }
        if need && l.is_empty() {
            l.push(' ');
        }
        s.push_str(&l);
    }
    s
}

fn user_names(p: &Prods) -> BTreeSet<String> {
    fn go(alts: &[Vec<E>], out: &mut BTreeSet<String>) {
        for e in alts.iter().flatten() {
            match e {
                E::S(Term::Nonterminal(n)) => {
                    out.insert(n.clone());
                }
                E::S(_) => {}
                E::Group(x) | E::Opt(x) => go(x, out),
            }
        }
    }
    let mut o = BTreeSet::new();
    for (l, a) in p {
        o.insert(l.clone());
        go(a, &mut o);
    }
    o
}

struct Cmp<'a> {
    user: BTreeSet<String>,
    anon: BTreeMap<String, Vec<&'a Production>>,
    used: BTreeSet<String>,
}
impl<'a> Cmp<'a> {
    fn alts(&mut self, want: &[Vec<E>], got: &[&Expression], whe: &str) -> Result<(), String> {
        if want.len() != got.len() {
            return Err(format!("{whe} has {} alternatives, {} written", got.len(), want.len()));
        }
        for (w, g) in want.iter().zip(got) {
            let ts: Vec<&Term> = g.terms_iter().collect();
            if ts.len() != w.len() {
                return Err(format!("an alternative of {whe} has {} terms, {} written", ts.len(), w.len()));
            }
            for (e, x) in w.iter().zip(ts) {
                match e {
                    E::S(y) if y == x => {}
                    E::S(y) => return Err(format!("{x:?} in {whe} where {y:?} is written")),
                    E::Group(inner) | E::Opt(inner) => {
                        let Term::Nonterminal(n) = x else { return Err(format!("{x:?} in {whe} for a group")) };
                        if self.user.contains(n) {
                            return Err(format!("generated name <{n}> is a name the user wrote"));
                        }
                        if !self.used.insert(n.clone()) {
                            return Err(format!("generated name <{n}> is used for two groups"));
                        }
                        let ps = self.anon.get(n).cloned().unwrap_or_default();
                        if ps.len() != 1 {
                            return Err(format!("generated <{n}> has {} productions", ps.len()));
                        }
                        let mut rhs: Vec<&Expression> = ps[0].rhs_iter().collect();
                        if matches!(e, E::Opt(_)) {
                            let eps = Expression::from_parts(vec![t("")]);
                            match rhs.last() {
                                Some(l) if **l == eps => {
                                    rhs.pop();
                                }
                                _ => return Err(format!("optional <{n}> does not end with the empty string")),
                            }
                        }
                        self.alts(inner, &rhs, &format!("<{n}>"))?;
                    }
                }
            }
        }
        Ok(())
    }
}

/// The stored grammar is what was written, up to the choice of generated names.
fn same(p: &Prods, g: &Grammar) -> Result<(), String> {
    let user = user_names(p);
    let mut users: Vec<&Production> = vec![];
    let mut anon: BTreeMap<String, Vec<&Production>> = BTreeMap::new();
    for pr in g.productions_iter() {
        match &pr.lhs {
            Term::Nonterminal(n) if user.contains(n) => users.push(pr),
            Term::Nonterminal(n) => anon.entry(n.clone()).or_default().push(pr),
            x => return Err(format!("production of {x:?}")),
        }
    }
    if users.len() != p.len() {
        return Err(format!("{} productions written, {} stored for the user's names", p.len(), users.len()));
    }
    if g.productions_iter().next().map(|q| q.lhs.clone()) != p.first().map(|q| nt(&q.0)) {
        return Err(format!("the stored grammar starts with {:?}", g.productions_iter().next().map(|q| q.lhs.to_string())));
    }
    let total = anon.len();
    let mut c = Cmp { user, anon, used: BTreeSet::new() };
    for ((l, alts), pr) in p.iter().zip(users) {
        if pr.lhs != nt(l) {
            return Err(format!("production of {:?} where <{l}> is written", pr.lhs));
        }
        c.alts(alts, &pr.rhs_iter().collect::<Vec<_>>(), &format!("<{l}>"))?;
    }
    if c.used.len() != total {
        return Err(format!("{total} generated nonterminals, {} groups written", c.used.len()));
    }
    Ok(())
}

fn read(text: &str, bnf: bool) -> [(&'static str, Result<Grammar, bnf::Error>); 2] {
    [("from_str", text.parse::<Grammar>()), ("parse_from", if bnf { Grammar::parse_from::<BNF>(text) } else { Grammar::parse_from::<ABNF>(text) })]
}

fn count_groups(p: &Prods) -> usize {
    fn go(a: &[Vec<E>]) -> usize {
        a.iter().flatten().map(|e| match e { E::S(_) => 0, E::Group(x) | E::Opt(x) => 1 + go(x) }).sum()
    }
    p.iter().map(|(_, a)| go(a)).sum()
}

/// Grammars past the sizes of the random ones
fn large() -> Vec<(String, Prods)> {
    let x = || E::S(t("x"));
    let n_ = |s: String| E::S(nt(&s));
    let mut v: Vec<(String, Prods)> = vec![];
    for n in [12usize, 40, 70, 130, 260, 520, 1100] {
        v.push((format!("{n} productions"), (0..n).map(|i| (format!("n{i}"), vec![vec![n_(format!("n{}", (i + 1) % n)), E::S(t(&format!("t{i}")))]])).collect()));
        v.push((format!("{n} productions of one name"), (0..n).map(|i| ("s".to_string(), vec![vec![E::S(t(&format!("t{i}")))]])).collect()));
        v.push((format!("{n} alternatives"), vec![("s".into(), (0..n).map(|i| vec![E::S(t(&format!("t{i}")))]).collect())]));
        v.push((format!("{n} equal alternatives"), vec![("s".into(), (0..n).map(|_| vec![x()]).collect())]));
        v.push((format!("{n} terms"), vec![("s".into(), vec![(0..n).map(|i| if i % 2 == 0 { x() } else { n_(format!("n{i}")) }).collect()])]));
        v.push((format!("{n} equal terms beside a group"), vec![("s".into(), vec![(0..n).map(|_| x()).collect(), vec![E::Group(vec![(0..n).map(|_| n_("s".into())).collect(), vec![x(), x()]]), x(), x()]])]));
        v.push((format!("{n} equal groups"), vec![("s".into(), vec![(0..n).map(|_| E::Group(vec![vec![x()], vec![x()]])).collect()])]));
        v.push((format!("{n} equal productions with a group"), (0..n).map(|_| ("s".to_string(), vec![vec![E::Opt(vec![vec![x()], vec![x()]])], vec![x()], vec![x()]])).collect()));
        v.push((format!("{n} groups"), vec![("s".into(), vec![(0..n).map(|i| E::Group(vec![vec![E::S(t(&format!("t{i}")))], vec![n_("s".into())]])).collect()])]));
        v.push((format!("{n} optionals in {n} productions"), (0..n).map(|i| (format!("n{i}"), vec![vec![E::Opt(vec![vec![E::S(t(&format!("t{i}")))]]), x()]])).collect()));
        v.push((format!("{n} groups beside {n} names of the generated kind"), (0..n).map(|i| (format!("__anon{i}"), vec![vec![E::Group(vec![vec![n_(format!("__anon{}", n - 1 - i))]])]])).collect()));
        v.push((format!("{n} groups beside the odd names of the generated kind"), (0..n).map(|i| (format!("__anon{}", 2 * i + 1), vec![vec![E::Opt(vec![vec![x()]]), E::Group(vec![vec![x(), x()]])]])).collect()));
        v.push((format!("a group of {n} alternatives"), vec![("s".into(), vec![vec![E::Group((0..n).map(|i| vec![E::S(t(&format!("t{i}")))]).collect())]])]));
        // one name of the generated kind, only referenced, far from everything else
        let z = || n_("__anon0".into());
        let last = |n: usize| -> Vec<Vec<E>> { (0..n).map(|i| vec![if i + 1 == n { z() } else { x() }]).collect() };
        let g = || E::Group(vec![vec![x()], vec![x(), x()]]);
        v.push((format!("<__anon0> in the last of {n} alternatives"), vec![("s".into(), [vec![vec![g()]], last(n)].concat())]));
        v.push((format!("<__anon0> as the last of {n} terms"), vec![("s".into(), vec![vec![g()], last(n).concat()])]));
        v.push((format!("<__anon0> in the last of a group's {n} alternatives"), vec![("s".into(), vec![vec![g(), E::Group(last(n))]])]));
        v.push((format!("<__anon0> in the last of an optional's {n} alternatives"), vec![("s".into(), vec![vec![E::Opt(last(n)), g()]])]));
        v.push((format!("<__anon0> as the last of a group's {n} terms"), vec![("s".into(), vec![vec![E::Group(vec![last(n).concat()])]])]));
        v.push((format!("<__anon0> in the last of {n} productions"), (0..n).map(|i| (format!("n{i}"), vec![vec![if i == 0 { g() } else if i + 1 == n { z() } else { x() }]])).collect()));
        v.push((format!("<__anon0> defined last of {n} productions"), (0..n).map(|i| (if i + 1 == n { "__anon0".to_string() } else { format!("n{i}") }, vec![vec![if i == 0 { g() } else { x() }]])).collect()));
        if n <= 130 {
            let e = (0..n).fold(z(), |e, i| if i % 2 == 0 { E::Group(vec![vec![x(), e]]) } else { E::Opt(vec![vec![e]]) });
            v.push((format!("<__anon0> inside {n} groups"), vec![("s".into(), vec![vec![e]])]));
        }
        v.push((format!("a name of {n} characters"), vec![("é".repeat(n), vec![vec![n_("é".repeat(n) + "e"), n_("é".repeat(n))]])]));
        v.push((format!("a terminal of {n} characters"), vec![("s".into(), vec![vec![E::S(t(&"é ".repeat(n))), E::S(t(&"é ;".repeat(n))), E::S(t(&"(".repeat(n)))]])]));
        if n <= 520 {
            let mut e = x();
            for i in 0..n {
                e = if i % 3 == 0 { E::Opt(vec![vec![e, x()], vec![x()]]) } else { E::Group(vec![vec![e], vec![n_("s".into())]]) };
            }
            // the reader tries a production once per enclosing level at most; deep nesting stays linear
            v.push((format!("{n} nested groups"), vec![("s".into(), vec![vec![e]])]));
        }
    }
    v
}

fn read_case(cx: &mut Ctx, p: &Prods, text: &str, bnf: bool, desc: &str, nontrivial: bool) {
    cx.case(desc, nontrivial, AssertUnwindSafe(|| {
        for (what, r) in read(text, bnf) {
            let g = r.map_err(|e| format!("{what} rejected the text: {}", e.to_string().chars().take(200).collect::<String>()))?;
            same(p, &g).map_err(|e| format!("{what}: {}; stored grammar: {}", e.chars().take(300).collect::<String>(), g.to_string().chars().take(300).collect::<String>()))?;
        }
        Ok(())
    }));
}

pub fn normalize(cx: &mut Ctx) -> &'static str {
    for (name, p) in large() {
        for bnf in [true, false] {
            if !bnf && user_names(&p).iter().any(|l| l.starts_with('_')) {
                continue;
            }
            let text = render(&toks(&p), bnf, true, &mut Rng(1));
            read_case(cx, &p, &text, bnf, &format!("large: {} text of {name}", if bnf { "BNF" } else { "ABNF" }), count_groups(&p) > 0);
        }
    }
    let mut rng = cx.rng(8);
    let limit = if cx.thorough { 2_000_000 } else { 120_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        let bnf = rng.chance(2, 3);
        let mut p = rprods(&mut rng, bnf, true);
        if k % 200 == 0 {
            // many groups: names beyond one digit
            let alts: Vec<Vec<E>> = (0..15).map(|i| vec![if i % 2 == 0 { E::Group(vec![vec![E::S(t("x"))]]) } else { E::Opt(vec![vec![E::S(nt("__anon1"))]]) }]).collect();
            p = vec![("__anon10".into(), alts.clone()), ("s".into(), alts)];
        }
        let bnf = bnf || k % 200 == 0;
        let text = render(&toks(&p), bnf, true, &mut rng);
        let desc = format!("{} text {:?}", if bnf { "BNF" } else { "ABNF" }, text);
        read_case(cx, &p, &text, bnf, &desc, count_groups(&p) > 0);
    }
    "grammars of up to 1100 productions, alternatives, terms or groups and 520 levels of nesting, then random BNF and ABNF texts with groups and optionals nested up to depth 4 and user names such as <__anon0>, defined or only referenced; the stored grammar is compared with the written one up to the choice of generated names; non-trivial: at least one group"
}

fn trip_case(cx: &mut Ctx, g: &G, desc: &str) {
    cx.case(desc, true, AssertUnwindSafe(|| {
        let gr = g.build();
        let text = gr.to_string();
        for (what, r) in read(&text, true) {
            match r {
                Ok(h) if h == gr => {}
                Ok(h) => return Err(format!("grammar text {text:?} read by {what} as {h:?}")),
                Err(e) => return Err(format!("grammar text {text:?} rejected by {what}: {e}")),
            }
        }
        for p in gr.productions_iter() {
            let s = p.to_string();
            if s.parse::<Production>().as_ref() != Ok(p) {
                return Err(format!("production text {s:?} read as {:?}", s.parse::<Production>()));
            }
            for e in p.rhs_iter() {
                let s = e.to_string();
                if s.parse::<Expression>().as_ref() != Ok(e) {
                    return Err(format!("expression text {s:?} read as {:?}", s.parse::<Expression>()));
                }
                for x in e.terms_iter() {
                    let s = x.to_string();
                    if s.parse::<Term>().as_ref() != Ok(x) {
                        return Err(format!("term text {s:?} read as {:?}", s.parse::<Term>()));
                    }
                }
            }
        }
        Ok(())
    }));
}

pub fn round_trip(cx: &mut Ctx) -> &'static str {
    for (name, p) in large() {
        if count_groups(&p) > 0 {
            continue;
        }
        let g = G(p.iter().map(|(l, alts)| (nt(l), alts.iter().map(|a| a.iter().map(|e| match e { E::S(x) => x.clone(), _ => unreachable!() }).collect()).collect())).collect());
        trip_case(cx, &g, &format!("large: {name}"));
        // the same with brackets in a terminal, which takes the other way through the reader
        let mut h = g.clone();
        h.0.push((nt("last"), vec![vec![t("( [")]]));
        trip_case(cx, &h, &format!("large: {name} and a terminal with brackets"));
        let mut h = g;
        h.0.insert(0, (nt("(first)"), vec![vec![nt("[")]]));
        trip_case(cx, &h, &format!("large: {name} and a name with brackets"));
    }
    let mut rng = cx.rng(9);
    let names = ["s", "a", "", "dé", "a b", "a(b", "a'b", "q\"[", "x;y", "::=", "a|b", "表", "n\nl", "<", ";", "\r", "'", " ", "__anon0", "[x]", "\u{a0}", "(a) | [b"];
    let limit = if cx.thorough { 2_000_000 } else { 150_000 };
    let rt = |rng: &mut Rng| {
        if rng.chance(1, 2) {
            let mut n = rng.pick(&names).to_string();
            if rng.chance(1, 4) {
                n.push_str(*rng.pick(&names));
            }
            if rng.chance(1, 12) {
                n = n.repeat(2 + rng.below(4));
            }
            nt(&n)
        } else {
            t(&rtext(rng))
        }
    };
    for _ in 0..limit {
        if !cx.time_left() {
            break;
        }
        let g = G((0..1 + rng.below(4)).map(|_| (nt(*rng.pick(&names)), (0..1 + rng.below(3)).map(|_| (0..1 + rng.below(3)).map(|_| rt(&mut rng)).collect()).collect())).collect());
        trip_case(cx, &g, &format!("grammar [{}]", g.show()));
    }
    "grammars of up to 1100 productions, alternatives or terms, then random grammars whose names and terminals contain separators, quotes, comment characters, brackets, newlines and Unicode whitespace; grammar, productions, expressions and terms each printed and read back; every case counts"
}

pub fn layout(cx: &mut Ctx) -> &'static str {
    for (k, (name, p)) in large().into_iter().enumerate() {
        for bnf in [true, false] {
            if !bnf && user_names(&p).iter().any(|l| l.starts_with('_')) {
                continue;
            }
            let text = render(&toks(&p), bnf, false, &mut Rng(k as u64));
            read_case(cx, &p, &text, bnf, &format!("large: {} text of {name}, random layout {k}", if bnf { "BNF" } else { "ABNF" }), true);
        }
    }
    // long layout between any two tokens
    for n in [40usize, 130, 300, 1100, 5000] {
        let pieces: [(&str, String); 7] = [
            ("blanks", " ".repeat(n)), ("newlines", "\n".repeat(n)), ("carriage returns", "\r\n".repeat(n)), ("a comment", format!(" ;{}\n", "c ;'".repeat(n))),
            ("comments", " ; é '\n".repeat(n)), ("comments and blanks", " ;\r \t\u{a0}".repeat(n) + "\n"), ("wide blanks", "\u{2003}".repeat(n)),
        ];
        for (what, piece) in &pieces {
            for bnf in [true, false] {
                for groups in [false, true] {
                    let a = E::S(nt("a"));
                    let inner = if groups { E::Group(vec![vec![a.clone(), E::Opt(vec![vec![E::S(t("é"))]])], vec![a.clone()]]) } else { a.clone() };
                    let p: Prods = vec![("s".into(), vec![vec![inner, E::S(t("x y"))], vec![a.clone()]]), ("a".into(), vec![vec![E::S(t(""))]])];
                    let ks = toks(&p);
                    for at in 0..=ks.len() {
                        let mut text = render(&ks[..at], bnf, true, &mut Rng(1));
                        text.push_str(piece);
                        text.push_str(&render(&ks[at..], bnf, true, &mut Rng(1)));
                        read_case(cx, &p, &text, bnf, &format!("large: {} text with groups {groups}, {n} x {what} before token {at}", if bnf { "BNF" } else { "ABNF" }), true);
                    }
                }
            }
        }
    }
    let mut rng = cx.rng(10);
    let limit = if cx.thorough { 2_000_000 } else { 120_000 };
    for k in 0..limit {
        if !cx.time_left() {
            break;
        }
        let bnf = rng.chance(1, 2);
        let groups = rng.chance(1, 2);
        let p = rprods(&mut rng, bnf, groups);
        let mut ks = toks(&p);
        let kind = k % 4;
        if kind < 3 {
            let text = render(&ks, bnf, false, &mut rng);
            let desc = format!("{} text {:?}", if bnf { "BNF" } else { "ABNF" }, text);
            read_case(cx, &p, &text, bnf, &desc, true);
        } else {
            // text that cannot be read completely
            let what;
            match rng.below(4) {
                0 => {
                    let i = rng.below(ks.len() + 1);
                    ks.insert(i, Tok::Raw(rng.pick(if bnf { &["xyz", "%", "1", "=", "/"] } else { &["%", "1x", "_q", "-", "|"] }).to_string()));
                    what = "stray text";
                }
                1 => {
                    let cl: Vec<usize> = (0..ks.len()).filter(|&i| matches!(ks[i], Tok::Close(_) | Tok::Open(_))).collect();
                    if cl.is_empty() {
                        ks.push(Tok::Close(')'));
                    } else {
                        let i = *rng.pick(&cl);
                        ks.remove(i);
                    }
                    what = "unbalanced bracket";
                }
                2 => {
                    ks.push(Tok::Alt);
                    what = "nothing after the alternative separator";
                }
                _ => {
                    ks.push(Tok::Raw(if bnf && rng.chance(1, 2) { "<abc".into() } else { "'abc".into() }));
                    what = "unterminated last token";
                }
            }
            // a removed bracket must not make two tokens one
            let text = render(&ks, bnf, true, &mut rng);
            let desc = format!("{} text {:?} ({what})", if bnf { "BNF" } else { "ABNF" }, text);
            cx.case(&desc, true, AssertUnwindSafe(|| {
                for (how, r) in read(&text, bnf) {
                    match r {
                        Ok(g) => return Err(format!("{how} accepted text with {what} as {g}")),
                        Err(bnf::Error::ParseError(_)) => {}
                        Err(e) => return Err(format!("{how} reported {e:?}, not a parse error")),
                    }
                }
                Ok(())
            }));
        }
    }
    "large texts and up to 5000 pieces of layout before every token, then random BNF and ABNF texts, with and without groups, printed with random whitespace, comments and quote styles, must be read as written; texts with stray text, unbalanced brackets or a cut end must be rejected; every case counts"
}
