PROPERTY="C07"
NEEDS="more than 1024 remembered choices (many productions or alternatives) before a production is fully covered"
BREAKS="coverage-guided choice forgets what it chose and repeats alternatives while others were never chosen"
EDITS=[("src/generation.rs","""        let lhs = &production.lhs as *const Term;
        self.candidates_buf.clear();""","""        let lhs = &production.lhs as *const Term;
        if self.seen.len() >= 1024 {
            self.seen.clear();
        }
        self.candidates_buf.clear();""")]
MAIN=r'''
use bnf::*;
use std::collections::HashSet;
fn main() {
    let n = 1500;
    let alts: Vec<Expression> = (0..n).map(|i| Expression::from_parts(vec![Term::Terminal(format!("t{i}"))])).collect();
    let p = Production::from_parts(Term::Nonterminal("s".into()), alts);
    let mut c = CoverageGuided::from_seed([7; 32]);
    let mut seen = HashSet::new();
    for _ in 0..n { assert!(seen.insert(c.choose(&p, 0).unwrap().to_string()), "repeated before all were used"); }
}
'''
