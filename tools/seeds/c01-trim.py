PROPERTY="C01"
NEEDS="a terminal with a blank in front that is missing in the input, at the end of the input"
BREAKS="the scanner accepts a terminal with leading blanks for input without them and then clips the match at the end of the input, so the leaves no longer spell the input"
EDITS=[("src/earley/mod.rs","if traversal.input_range.next().starts_with(term) {","let rest = traversal.input_range.next();\n                if rest.starts_with(term) || (!rest.is_empty() && rest == term.trim_start()) {")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a' ' b'\n<t> ::= 'x'".parse().unwrap();
    let p = g.build_parser().unwrap();
    for t in p.parse_input("ab") { panic!("parsed as {t}"); }
}
'''
