#!/usr/bin/env python3
"""writes invocations of term!, expression!, production! and grammar! as a Rust program (bounded stand-in for C14):
   mkmacros.py OUT SEED TIER.  Each case states the invocation and, separately, the terms it writes down."""
import itertools, random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed)
NTS = ["a", "b", "s", "start", "X1", "snake_case", "type", "Self_", "été"]
LITS = [("'x'", "x"), ("'y'", "y"), ('"x"', "x"), ('"foo"', "foo"), ('"two words"', "two words"), ('""', ""), ("'\\''", "'"),
        ('"\\""', '"'), ('r"raw\\n"', "raw\\n"), ('r#"q"q"#', 'q"q'), ('"\\t"', "\t"), ('"<nt>"', "<nt>"), ('"a | b;"', "a | b;"), ("'é'", "é"), ("7", "7"), ("true", "true")]
def rs(s):
    return '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'
def nt(n):
    return (f"<{n}>", f"N({rs(n)})")
def lit(l):
    return (l[0], f"T({rs(l[1])})")
def anyterm():
    return nt(rnd.choice(NTS)) if rnd.random() < .5 else lit(rnd.choice(LITS))
def alts(k, n=3):
    return [[anyterm() for _ in range(rnd.randint(1, n))] for _ in range(k)]
def w_alts(a):
    return " | ".join(" ".join(t[0] for t in x) for x in a)
def e_alts(a):
    return "&[" + ", ".join("&[" + ", ".join(t[1] for t in x) + "] as &[K]" for x in a) + "]"
cases = []
for n in NTS:
    cases.append(("term", f"bnf::term!(<{n}>)", nt(n)[1]))
for n in ["x", "foo", "Bar_9"]:
    cases.append(("term", f"bnf::term!({n})", f"T({rs(n)})"))
for l in LITS:
    cases.append(("term", f"bnf::term!({l[0]})", lit(l)[1]))
kinds = [nt("a"), lit(LITS[0]), lit(LITS[3])]
for n in range(1, 5):
    for c in itertools.product(kinds, repeat=n):
        cases.append(("expression", "bnf::expression!(" + " ".join(t[0] for t in c) + ")", "&[" + ", ".join(t[1] for t in c) + "]"))
for _ in range(40):
    c = [anyterm() for _ in range(rnd.randint(1, 20))]
    cases.append(("expression", "bnf::expression!(" + " ".join(t[0] for t in c) + ")", "&[" + ", ".join(t[1] for t in c) + "]"))
def prod(a, n):
    cases.append(("production", f"bnf::production!(<{n}> ::= {w_alts(a)})", f"({rs(n)}, {e_alts(a)})"))
# every shape up to 4 alternatives of up to 3 terms, every term distinct
for k in range(1, 5):
    for shape in itertools.product((1, 2, 3), repeat=k):
        i, a = 0, []
        for s in shape:
            a.append([])
            for _ in range(s):
                a[-1].append(nt(f"n{i}") if i % 2 else lit((f'"t{i}"', f"t{i}")))
                i += 1
        prod(a, "lhs")
for _ in range(60):
    prod(alts(rnd.randint(1, 9)), rnd.choice(NTS))
def gram(ps, semi):
    inv = "; ".join(f"<{n}> ::= {w_alts(a)}" for n, a in ps) + (";" if semi else "")
    cases.append(("grammar", "bnf::grammar! { " + inv + " }", "&[" + ", ".join(f"({rs(n)}, {e_alts(a)} as &[&[K]])" for n, a in ps) + "]"))
cases.append(("grammar", "bnf::grammar! { }", "&[]"))
# every shape up to 4 productions of up to 3 alternatives, with and without a closing semicolon
for k in range(1, 5):
    for shape in itertools.product((1, 2, 3), repeat=k):
        i, ps = 0, []
        for j, s in enumerate(shape):
            a = []
            for _ in range(s):
                a.append([nt(f"n{i}"), lit((f'"t{i}"', f"t{i}"))] if i % 3 == 0 else [lit((f'"t{i}"', f"t{i}"))])
                i += 1
            ps.append((f"p{j}", a))
        for semi in (False, True):
            gram(ps, semi)
for _ in range(60 if tier == "quick" else 600):
    gram([(rnd.choice(NTS), alts(rnd.randint(1, 5))) for _ in range(rnd.randint(1, 7))], rnd.random() < .5)
# the same thing written again: productions, alternatives and terms, next to each other and apart
A, B, C = [lit(LITS[0])], [nt("a"), lit(LITS[3])], [lit(LITS[0]), nt("b"), lit(LITS[0])]
for x in itertools.product((A, B, C), repeat=3):
    prod(list(x), "r")
    prod(list(x) + [A, B, A], "r")
pool = [("r", [A]), ("r", [A, B]), ("q", [A]), ("r", [B])]
for k in (2, 3, 4):
    for x in itertools.product(pool if k < 4 else pool[:3], repeat=k):
        gram(list(x), (len(cases) % 2) == 0)
for _ in range(40):
    few = [(rnd.choice(["r", "q"]), [rnd.choice([A, B, C]) for _ in range(rnd.randint(1, 6))]) for _ in range(3)]
    gram([rnd.choice(few) for _ in range(rnd.randint(4, 9))], rnd.random() < .5)
# long ones
for n in (12, 40, 100):
    gram([(f"p{i}", [[nt(f"n{i}"), lit((f'"t{i}"', f"t{i}"))]]) for i in range(n)], n != 40)
    prod([[lit((f'"t{i}"', f"t{i}"))] for i in range(n)], "lhs")
    gram([("s", [[lit((f'"t{i}"', f"t{i}")), nt(f"n{i}")] for i in range(n)])], n == 40)
    c = [lit((f'"t{i}"', f"t{i}")) if i % 2 else nt(f"n{i}") for i in range(n)]
    cases.append(("expression", "bnf::expression!(" + " ".join(t[0] for t in c) + ")", "&[" + ", ".join(t[1] for t in c) + "]"))
o = ['#![recursion_limit = "2048"]', "#![allow(dead_code)]",
     "use bnf::{Expression, Grammar, Production, Term};",
     "#[derive(Clone, Copy, Debug, PartialEq)]", "enum K { T(&'static str), N(&'static str) }", "use K::*;",
     "fn k(t: &Term) -> K2 { match t { Term::Terminal(s) => K2(false, s.clone()), Term::Nonterminal(s) => K2(true, s.clone()), #[allow(unreachable_patterns)] _ => K2(false, String::from(\"another kind of term\")) } }",
     "#[derive(PartialEq, Debug)]", "struct K2(bool, String);",
     "impl From<K> for K2 { fn from(x: K) -> K2 { match x { T(s) => K2(false, s.into()), N(s) => K2(true, s.into()) } } }",
     "fn ks(e: &[K]) -> Vec<K2> { e.iter().map(|x| (*x).into()).collect() }",
     "fn ke(e: &Expression) -> Vec<K2> { e.terms_iter().map(k).collect() }",
     "fn kp(p: &Production) -> (K2, Vec<Vec<K2>>) { (k(&p.lhs), p.rhs_iter().map(ke).collect()) }",
     "fn kps(n: &'static str, a: &[&[K]]) -> (K2, Vec<Vec<K2>>) { (K2(true, n.into()), a.iter().map(|x| ks(x)).collect()) }",
     "fn term(t: Term, e: K) -> Option<String> { let (g, e) = (k(&t), K2::from(e)); (g != e).then(|| format!(\"built {g:?}, written {e:?}\")) }",
     "fn expression(x: Expression, e: &[K]) -> Option<String> { let (g, e) = (ke(&x), ks(e)); (g != e).then(|| format!(\"built {g:?}, written {e:?}\")) }",
     "fn production(x: Production, e: (&'static str, &[&[K]])) -> Option<String> { let (g, e) = (kp(&x), kps(e.0, e.1)); (g != e).then(|| format!(\"built {g:?}, written {e:?}\")) }",
     "fn grammar(x: Grammar, e: &[(&'static str, &[&[K]])]) -> Option<String> { let g: Vec<_> = x.productions_iter().map(kp).collect(); let e: Vec<_> = e.iter().map(|p| kps(p.0, p.1)).collect(); (g != e).then(|| format!(\"built {g:?}, written {e:?}\")) }"]
for i, (kd, inv, exp) in enumerate(cases):
    o.append(f"fn c{i}() -> Option<String> {{ {kd}({inv}, {exp}) }}")
o.append("const CASES: &[(&str, fn() -> Option<String>)] = &[")
for i, (kd, inv, exp) in enumerate(cases):
    h = "#" * 4
    o.append(f"    (r{h}\"{inv}\"{h}, c{i}),")
o.append("];")
o.append("fn main() { for (i, (s, f)) in CASES.iter().enumerate() { if let Some(m) = f() { println!(\"{i}\\t{s}\\t{m}\"); std::process::exit(1); } } println!(\"{}\", CASES.len()); }")
open(out, "w").write("\n".join(o) + "\n")
print(len(cases))
