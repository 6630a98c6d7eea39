PROPERTY = "C13"
NEEDS = "removing an alternative whose printed form equals that of a different alternative (a terminal containing quotes and spaces)"
BREAKS = "remove_from_rhs compares printed text, so an alternative that is not equal to the one asked for is removed"
EDITS = [("src/production.rs", "self.rhs.iter().position(|x| *x == *expr)", "self.rhs.iter().position(|x| x.to_string() == expr.to_string())")]
MAIN = r'''
use bnf::{Expression, Production, Term};
fn main() {
    let t = |s: &str| Term::Terminal(s.to_string());
    let one = Expression::from_parts(vec![t("a'\" \"b'")]);
    let two = Expression::from_parts(vec![t("a'"), t("b'")]);
    let mut p = Production::from_parts(Term::Nonterminal("s".into()), vec![one.clone()]);
    assert_eq!(p.remove_from_rhs(&two), None);
    assert_eq!(p.len(), 1);
    assert_eq!(p.remove_from_rhs(&one), Some(one));
}
'''
