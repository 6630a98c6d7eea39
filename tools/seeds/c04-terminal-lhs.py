PROPERTY="C04"
NEEDS="a grammar with a production whose left hand side is a terminal and whose right hand side uses an undefined nonterminal"
BREAKS="validate() accepts a grammar with an undefined nonterminal when it is used only below a terminal left hand side; build_parser still rejects it"
EDITS=[("src/grammar.rs","""            if let Term::Nonterminal(nt) = &production.lhs {
                sets.record_lhs(nt.as_str());
            }
            for expression""","""            let Term::Nonterminal(lhs) = &production.lhs else {
                continue;
            };
            sets.record_lhs(lhs.as_str());
            for expression""")]
MAIN=r'''
use bnf::*;
fn main() {
    let g = Grammar::from_parts(vec![
        Production::from_parts(Term::Nonterminal("s".into()), vec![Expression::from_parts(vec![Term::Terminal("x".into())])]),
        Production::from_parts(Term::Terminal("t".into()), vec![Expression::from_parts(vec![Term::Nonterminal("nowhere".into())])]),
    ]);
    assert!(g.build_parser().is_err());
    assert!(g.validate().is_err());
}
'''
