use crate::gram::*;
use crate::{Ctx, Rng};
use bnf::{escape_mermaid_label, Grammar, ParseTree, ParseTreeNode, Term};
use std::panic::AssertUnwindSafe;

/// An arbitrary tree as data.
#[derive(Clone, Debug)]
pub enum N {
    Leaf(String),
    Node(String, Vec<N>),
}

fn rtext(rng: &mut Rng) -> String {
    let n = if rng.chance(1, 60) { 30 } else { rng.below(5) };
    (0..n).map(|_| *rng.pick(&['a', '"', '#', ';', '<', '>', '[', ']', '&', '\\', '\n', '\r', 'é', '😀', '3', '4', ' ', '\'', '│', '\t', '|', '(', '{', '`'])).collect()
}

fn rtree(rng: &mut Rng, depth: usize, size: &mut usize) -> Vec<N> {
    let n = if depth == 0 { 0 } else { rng.below(5) };
    let mut v = vec![];
    for _ in 0..n {
        if *size == 0 {
            break;
        }
        *size -= 1;
        v.push(if rng.chance(1, 2) { N::Leaf(rtext(rng)) } else { N::Node(rtext(rng), rtree(rng, depth - 1, size)) });
    }
    v
}

/// Build the real value: skeletons come from parsing the empty input with k empty terminals,
/// children are then replaced through `rhs_iter_mut`.

const MAXK: usize = 300;

fn skeletons(empties: &[Grammar]) -> Vec<ParseTree<'_>> {
    empties
        .iter()
        .map_while(|g| {
            #[allow(deprecated)]
            g.parse_input("").next()
        })
        .collect()
}

fn make<'a>(n: &str, kids: &'a [N], sk: &[ParseTree<'a>], names: &'a std::collections::HashMap<String, Term>) -> ParseTree<'a> {
    let mut tr = sk[kids.len()].clone();
    tr.lhs = &names[n];
    for (slot, k) in tr.rhs_iter_mut().zip(kids) {
        *slot = match k {
            N::Leaf(s) => ParseTreeNode::Terminal(s.as_str()),
            N::Node(n, ks) => ParseTreeNode::Nonterminal(make(n, ks, sk, names)),
        };
    }
    tr
}

fn names_of(n: &str, kids: &[N], out: &mut std::collections::HashMap<String, Term>) {
    out.insert(n.to_string(), nt(n));
    for k in kids {
        if let N::Node(n, ks) = k {
            names_of(n, ks, out);
        }
    }
}

/// Trees past the sizes of the random ones
fn large() -> Vec<(String, String, Vec<N>)> {
    let leaf = |s: &str| N::Leaf(s.to_string());
    let mut v = vec![];
    for n in [10usize, 20, 40, 70, 130, 260, 600] {
        for shape in 0..6 {
            let mut kids = vec![leaf("x")];
            for i in 0..n {
                let inner = N::Node(format!("n{i}"), kids);
                kids = match if shape < 4 { shape } else if shape == 4 { i % 4 } else { (i * i / 3) % 4 } {
                    0 => vec![inner],
                    1 => vec![inner, leaf("r")],
                    2 => vec![leaf("l"), inner],
                    _ => vec![N::Node("e".into(), vec![]), inner, leaf("r")],
                };
            }
            v.push((format!("a spine of {n} nodes, shape {shape}"), "root".to_string(), kids));
        }
        if n <= 300 {
            v.push((format!("{n} leaves"), "root".into(), (0..n).map(|i| leaf(&format!("t{i}"))).collect()));
            v.push((format!("{n} empty leaves"), "root".into(), (0..n).map(|_| leaf("")).collect()));
            v.push((format!("{n} equal nodes and an empty leaf"), "root".into(), (0..n).map(|i| if i + 1 < n { N::Node("n".into(), vec![]) } else { leaf("") }).collect()));
            v.push((format!("{n} equal leaves and a node"), "root".into(), (0..n).map(|i| if i + 1 < n { leaf("x") } else { N::Node("".into(), vec![]) }).collect()));
            v.push((format!("{n} nodes"), "root".into(), (0..n).map(|i| N::Node(format!("n{i}"), vec![leaf("x"), N::Node("m".into(), vec![leaf("y")])])).collect()));
        }
        if n <= 40 {
            v.push((format!("{n} x {n} nodes"), "root".into(), (0..n).map(|i| N::Node(format!("n{i}"), (0..n).map(|j| N::Node(format!("m{j}"), vec![leaf("x"); j % 3])).collect())).collect()));
        }
        v.push((format!("labels of {n} characters"), "é\"".repeat(n), vec![leaf(&"#;é".repeat(n)), N::Node("<a>".repeat(n), vec![leaf(&"\n".repeat(n))])]));
    }
    v
}

fn trees(cx: &mut Ctx, stream: u64, f: impl Fn(&ParseTree, &str, &[N]) -> Result<(), String>) {
    let empties: Vec<Grammar> = (0..=MAXK).map(|k| G(vec![(nt("k"), vec![vec![t(""); k]])]).build()).collect();
    let sk = skeletons(&empties);
    if sk.is_empty() {
        return; // the parser gives no tree at all: nothing to print (C02's business)
    }
    for (name, root, mut kids) in large() {
        clip(&mut kids, sk.len());
        let mut names = Default::default();
        names_of(&root, &kids, &mut names);
        cx.case(&format!("large: {name}"), true, AssertUnwindSafe(|| f(&make(&root, &kids, &sk, &names), &root, &kids)));
    }
    let mut rng = cx.rng(stream);
    let limit = if cx.thorough { 1_000_000 } else { 60_000 };
    for _ in 0..limit {
        if !cx.time_left() {
            break;
        }
        let mut size = 1 + rng.below(14);
        let depth = 1 + rng.below(6);
        let root = rtext(&mut rng);
        let mut kids = rtree(&mut rng, depth, &mut size);
        if rng.chance(1, 50) {
            // a long spine, branching at random
            for _ in 0..10 + rng.below(60) {
                let leaf = N::Leaf(rtext(&mut rng));
                let inner = N::Node(rtext(&mut rng), kids);
                kids = match rng.below(4) {
                    0 => vec![inner],
                    1 => vec![inner, leaf],
                    2 => vec![leaf, inner],
                    _ => vec![leaf.clone(), inner, leaf],
                };
            }
        }
        clip(&mut kids, sk.len());
        let desc = format!("tree {:?}", N::Node(root.clone(), kids.clone()));
        let mut names = Default::default();
        names_of(&root, &kids, &mut names);
        cx.case(&desc, kids.len() > 1, AssertUnwindSafe(|| f(&make(&root, &kids, &sk, &names), &root, &kids)));
    }
}

fn clip(kids: &mut Vec<N>, avail: usize) {
    kids.truncate(avail.saturating_sub(1));
    for k in kids {
        if let N::Node(_, ks) = k {
            clip(ks, avail);
        }
    }
}

fn special(c: char) -> bool {
    matches!(c, '"' | '&' | '#' | '<' | '>' | '[' | '\\' | ']' | ';' | '\n' | '\r')
}

/// `#<decimal>;` back to the character; None when the text has anything else special
fn decode(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '#' {
            let mut n = String::new();
            loop {
                match it.next()? {
                    ';' => break,
                    d if d.is_ascii_digit() => n.push(d),
                    _ => return None,
                }
            }
            out.push(char::from_u32(n.parse().ok()?)?);
        } else if special(c) {
            return None;
        } else {
            out.push(c);
        }
    }
    Some(out)
}

pub fn mermaid(cx: &mut Ctx) -> &'static str {
    let mut rng = cx.rng(11);
    // every single character and every pair with a special one
    let mut labels: Vec<String> = (0u32..0x3000).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    for a in "\"&#<>[\\];\n\ra0 é".chars() {
        for b in "\"&#<>[\\];\n\ra9 😀".chars() {
            labels.push(format!("{a}{b}"));
        }
    }
    for _ in 0..20_000 {
        labels.push(rtext(&mut rng) + &rtext(&mut rng));
    }
    for l in &labels {
        cx.case(&format!("label {l:?}"), l.chars().any(special), AssertUnwindSafe(|| {
            let e = escape_mermaid_label(l);
            match decode(&e) {
                Some(d) if &d == l => Ok(()),
                Some(d) => Err(format!("escaped as {e:?}, which decodes to {d:?}")),
                None => Err(format!("escaped as {e:?}, which still contains special characters")),
            }
        }));
    }
    trees(cx, 111, |tr, root, kids| {
        // labels are judged by decoding, the frame by its text
        let text = tr.mermaid().to_string();
        let mut lines = text.split('\n');
        if lines.next() != Some("flowchart TD") {
            return Err(format!("does not start with the 'flowchart TD' line: {text:?}"));
        }
        let mut want = vec![];
        let mut count = 0;
        edges(root, kids, &mut count, &mut want);
        for (i, (a, la, b, lb)) in want.iter().enumerate() {
            let Some(l) = lines.next() else { return Err(format!("only {i} edges: {text:?}")) };
            let ok = (|| {
                let l = l.strip_prefix(&format!("{a}[\""))?;
                let (ea, r) = l.split_once("\"] --> ")?;
                let r = r.strip_prefix(&format!("{b}[\""))?;
                let eb = r.strip_suffix("\"]")?;
                Some(decode(ea)? == *la && decode(eb)? == *lb)
            })();
            if ok != Some(true) {
                return Err(format!("edge {i} is {l:?}, expected {a} {la:?} --> {b} {lb:?}; all: {text:?}"));
            }
        }
        let rest: Vec<&str> = lines.collect();
        if rest != [""] {
            return Err(format!("unexpected text after the edges: {rest:?}"));
        }
        Ok(())
    });
    "every character below U+3000 and pairs and random strings of special characters as labels; random trees with arbitrary labels, up to 15 nodes and depth 6; non-trivial: a label with special characters, a tree with at least two children"
}

fn edges(n: &str, kids: &[N], count: &mut usize, out: &mut Vec<(usize, String, usize, String)>) {
    let me = *count;
    for k in kids {
        *count += 1;
        match k {
            N::Leaf(s) => out.push((me, n.to_string(), *count, s.clone())),
            N::Node(m, ks) => {
                out.push((me, n.to_string(), *count, m.clone()));
                edges(m, ks, count, out);
            }
        }
    }
}

pub fn display(cx: &mut Ctx) -> &'static str {
    trees(cx, 12, |tr, root, kids| {
        let mut want = String::new();
        render(root, kids, &mut vec![], &mut want);
        let got = tr.to_string();
        if got == want { Ok(()) } else { Err(format!("printed as\n{got}\nexpected\n{want}")) }
    });
    "trees with spines of up to 600 nodes and up to 300 children, then random trees with arbitrary Unicode labels, up to 15 nodes and depth 6; non-trivial: at least two children"
}

/// `last`: for every ancestor and the node itself, whether it is a last child
fn prefix(last: &[bool]) -> String {
    let mut s = String::new();
    for (i, l) in last.iter().enumerate() {
        s.push_str(match (i + 1 == last.len(), l) {
            (true, true) => "└── ",
            (true, false) => "├── ",
            (false, true) => "    ",
            (false, false) => "│   ",
        });
    }
    s
}

fn render(n: &str, kids: &[N], last: &mut Vec<bool>, out: &mut String) {
    out.push_str(&prefix(last));
    out.push_str(&format!("<{n}> ::="));
    for k in kids {
        match k {
            N::Leaf(s) => out.push_str(&format!(" \"{s}\"")),
            N::Node(m, _) => out.push_str(&format!(" <{m}>")),
        }
    }
    out.push('\n');
    for (i, k) in kids.iter().enumerate() {
        last.push(i + 1 == kids.len());
        match k {
            N::Leaf(s) => {
                out.push_str(&prefix(last));
                out.push_str(&format!("\"{s}\"\n"));
            }
            N::Node(m, ks) => render(m, ks, last, out),
        }
        last.pop();
    }
}
