PROPERTY="C06"
NEEDS="a chain of more than forty nonterminals, each defined after its use"
BREAKS="the fixpoint is cut off after forty passes, so a grammar with a longer dependency chain is refused although it can terminate"
EDITS=[("src/grammar.rs","""        while is_progress {
            is_progress = false;
""","""        let mut passes = 40;
        while is_progress && passes > 0 {
            is_progress = false;
            passes -= 1;
""")]
MAIN=r'''
use bnf::*;
fn main() {
    let mut s = String::new();
    for i in 0..60 { s += &format!("<n{}> ::= <n{}> 'x'\n", i, i + 1); }
    s += "<n60> ::= 'y'\n";
    let g: Grammar = s.parse().unwrap();
    assert!(g.generate().is_ok());
}
'''
