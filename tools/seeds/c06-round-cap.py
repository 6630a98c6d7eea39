PROPERTY="C06"
NEEDS="a grammar whose start rule becomes productive only after more than 64 other rules were marked"
BREAKS="a long chain of rules is refused although it leads to terminals"
EDITS=[("src/grammar.rs","""        while is_progress {
            is_progress = false;""","""        while is_progress && terminating_rules.len() <= 64 {
            is_progress = false;""")]
MAIN=r'''
use bnf::*;
fn main() {
    let mut text = String::new();
    for i in 0..100 { text.push_str(&format!("<n{}> ::= <n{}>\n", i, i + 1)); }
    text.push_str("<n100> ::= 'x'\n");
    let g: Grammar = text.parse().unwrap();
    assert_eq!(g.generate().unwrap(), "x");
}
'''
