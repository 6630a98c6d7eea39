PROPERTY="C10"
NEEDS="a comment ended by a bare carriage return"
BREAKS="the text after the carriage return is swallowed by the comment"
EDITS=[("src/parsers/mod.rs","after_semicolon.find(['\\r', '\\n'])","after_semicolon.find('\\n')")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a' ; note\r| 'b'\r<t> ::= 'c'".parse().unwrap();
    assert_eq!(g.productions_iter().count(), 2);
    assert_eq!(g.productions_iter().next().unwrap().rhs_iter().count(), 2);
}
'''
