PROPERTY="C11"
NEEDS="a tree with a childless inner node followed by a sibling"
BREAKS="a node without children takes a number of its own for a missing child, so numbers are no longer consecutive"
EDITS=[("src/grammar.rs","""        let lhs_count = *count;

""","""        let lhs_count = *count;
        if self.parse_tree.rhs.is_empty() && lhs_count > 0 {
            *count += 1;
        }

""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g = Grammar::from_parts(vec![
        Production::from_parts(Term::Nonterminal("s".into()), vec![Expression::from_parts(vec![Term::Nonterminal("e".into()), Term::Terminal("x".into())])]),
        Production::from_parts(Term::Nonterminal("e".into()), vec![Expression::from_parts(vec![])]),
    ]);
    let p = g.build_parser().unwrap();
    let t = p.parse_input("x").next().unwrap();
    assert_eq!(t.mermaid().to_string(), "flowchart TD\n0[\"s\"] --> 1[\"e\"]\n0[\"s\"] --> 2[\"x\"]\n");
}
'''
