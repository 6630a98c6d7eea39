PROPERTY="C08"
NEEDS="an optional whose alternatives already end with the empty string"
BREAKS="the empty alternative is not added when the group's last alternative ends with an empty string, although that alternative may have other terms"
EDITS=[("src/parsers/mod.rs","""                // Optionals get one extra alternative that is the empty string; empty [] is just epsilon.
                lowered_rhs.push(Expression::from_parts(vec![Term::Terminal(String::new())]));
""","""                // Optionals get one extra alternative that is the empty string; empty [] is just epsilon.
                let epsilon = Term::Terminal(String::new());
                let has_epsilon = lowered_rhs
                    .last()
                    .is_some_and(|e| e.terms_iter().last() == Some(&epsilon));
                if !has_epsilon {
                    lowered_rhs.push(Expression::from_parts(vec![epsilon]));
                }
""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g: Grammar = "<s> ::= 'a' ['b' '']\n<t> ::= 'x'".parse().unwrap();
    let p = g.build_parser().unwrap();
    assert_eq!(p.parse_input("a").count(), 1);
    assert_eq!(p.parse_input("ab").count(), 1);
}
'''
