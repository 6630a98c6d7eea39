PROPERTY="C13"
NEEDS="an expression that contains the removed term more than once"
BREAKS="remove_term removes every occurrence instead of exactly one"
EDITS=[("src/expression.rs","""        if let Some(pos) = self.terms.iter().position(|x| *x == *term) {
            Some(self.terms.remove(pos))
        } else {
            None
        }""","""        if self.terms.contains(term) {
            self.terms.retain(|x| *x != *term);
            Some(term.clone())
        } else {
            None
        }""")]
MAIN=r'''
use bnf::*;
fn main() {
    let mut e: Expression = "'a' 'b' 'a'".parse().unwrap();
    assert_eq!(e.remove_term(&Term::Terminal("a".into())), Some(Term::Terminal("a".into())));
    assert_eq!(e.terms_iter().count(), 2);
}
'''
